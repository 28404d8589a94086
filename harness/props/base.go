// Package props holds one harness per checked statement. A harness is ordinary
// Go: Setup builds the concrete part of a case (parsing the path text) and
// returns the function whose inputs are symbolic.
package props

import (
	jp "github.com/bserdar/gojsonpath"
)

type H struct {
	Prop   string // property id
	Name   string
	Bounds string
	Cases  func(tier int) int
	Setup  func(c int) (string, func())
}

var All []H

func add(h H) { All = append(All, h) }

func fixed(n int) func(int) int { return func(int) int { return n } }

// parse is Parse on a path the harness knows to be valid.
func parse(s string) jp.Path {
	p, err := jp.Parse(s)
	if err != nil {
		panic("valid path rejected: " + s)
	}
	return p
}

// warm has, by property, paths of the shapes that its harnesses parse while
// exploring; parsing them once beforehand fills the parser's prediction caches.
var warm = map[string][]string{}

func warmUp(prop string, texts ...string) { warm[prop] = append(warm[prop], texts...) }

// Warmup runs once, before exploration.
func Warmup(prop string) {
	warmParse("$.a")
	if warm[prop] == nil {
		warm[prop] = []string{"$.a.b", "$['a'][0]", "$..a", "$..[0]", "$[1:2:3]", "/a/0/*", "$[?(@.a == 1 && !@.b)]", "$[?(@.a in [1,@.b])]", "$[?(length(@.a) + 1 > 2)]"}
	}
	for _, s := range warm[prop] {
		warmParse(s)
	}
}

// warmParse leaves what Parse does to the checks.
func warmParse(s string) {
	defer func() { recover() }()
	jp.Parse(s)
}
