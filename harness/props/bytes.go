package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// Strings of any bytes, valid UTF-8 or not, and long strings.

// strs are two strings: any bytes of up to max, or long ones that differ in one place.
func strs(max int) (string, string) {
	if sym.Choose("long", 2) == 0 {
		return sym.String("x", sym.Choose("x.len", max+1)), sym.String("y", sym.Choose("y.len", max+1))
	}
	n := []int{8, 9, 16, 17, 33, 65}[sym.Choose("n", 6)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	pre, post := "", ""
	for i := 0; i < n; i++ {
		c := string([]byte{byte('a' + i%26)})
		if i < at {
			pre += c
		} else if i > at {
			post += c
		}
	}
	x, y := pre+sym.String("x", 1)+post, pre+sym.String("y", 1)+post
	if sym.Choose("shorter", 2) == 1 {
		y = y[:n-1]
	}
	return x, y
}

func init() {
	type op struct {
		text string
		want func(x, y string) bool
	}
	eq := func(x, y string) bool { return x == y }
	lt := func(x, y string) bool { return x < y }
	ne := func(x, y string) bool { return sym.Not(x == y) }
	run := func(prop string, max int, ops []op) {
		add(H{Prop: prop, Name: "bytes", Bounds: "strings of up to " + sym.Itoa(max) + " bytes, any bytes, and strings of up to 65 letters one of which is any byte", Cases: fixed(len(ops)), Setup: func(c int) (string, func()) {
			p := parse("$[?(" + ops[c].text + ")]")
			return ops[c].text, func() {
				x, y := strs(max)
				sym.Assert(sym.Iff(holds(p, map[string]any{"a": x, "b": y}), ops[c].want(x, y)), "strings are compared byte by byte")
			}
		}})
	}
	run("P08", 4, []op{{"@.a == @.b", eq}, {"@.a === @.b", eq}, {"@.a != @.b", ne}, {"@.a !== @.b", ne}, {"$[0].a == @['b']", eq}, {"(@.a) == (@.b)", eq}})
	run("P09", 3, []op{{"@.a < @.b", lt}, {"@.b > @.a", lt}, {"@.b <= @.a", func(x, y string) bool { return sym.Not(x < y) }}, {"@.a >= @.b", func(x, y string) bool { return sym.Not(x < y) }}, {"$[0].a < @['b']", lt}})
	run("P12", 4, []op{{"@.a in [@.b]", eq}, {"@.a in [1, @.b, null]", eq}, {"@.a in ['', @.b]", func(x, y string) bool { return sym.Or(x == "", x == y) }}})

	add(H{Prop: "P01", Name: "bytes", Bounds: "KeySelectorPath of any string, over an object of two members with any names; strings of up to 4 bytes, any bytes, and strings of up to 65 letters one of which is any byte", Cases: fixed(3), Setup: func(c int) (string, func()) {
		return []string{"a member", "below a member", "a member of every element"}[c], func() {
			k, m := strs(4)
			sym.Assume(m != "other")
			o := map[string]any{m: 1, "other": 2}
			var doc any = o
			p := jp.Append(jp.SelectRootPath, jp.KeySelectorPath(k))
			switch c {
			case 1:
				doc = map[string]any{m: o}
				p = jp.Append(p, jp.KeySelectorPath(k))
			case 2:
				doc = []any{o, 3, o}
				p = jp.Append(jp.SelectRootPath, jp.WildcardPath, jp.KeySelectorPath(k))
			}
			sym.Assume(k != "other")
			r, err := jp.Find(jp.MapModel{Doc: doc}, p)
			sym.Assert(err == nil, "Find reports no error")
			n := 1
			if c == 2 {
				n = 2
			}
			sym.Assert(len(r) == sym.IteInt(k == m, n, 0), "the key selects exactly the members of its name")
			for _, x := range r {
				sym.Assert(sym.Same(x, 1), "the key selects the member of its name")
			}
		}
	}})
	add(H{Prop: "P07", Name: "string-truth", Bounds: "strings of 0 to 6 bytes, any bytes, as what a filter selects by, 4 expressions", Cases: fixed(4), Setup: func(c int) (string, func()) {
		text := []string{"@.a", "(@.a)", "$[0].a", "@.a && true"}[c]
		p := parse("$[?(" + text + ")]")
		return text, func() {
			s := sym.String("s", sym.Choose("len", 7))
			sym.Assert(sym.Iff(holds(p, map[string]any{"a": s}), len(s) > 0), "a string is true unless it is empty")
		}
	}})
}
