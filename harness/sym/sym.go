// Package sym is the interface between the harnesses and the two ways of
// running them. Under the symbolic engine every function here is intercepted:
// inputs become solver variables and Assert becomes a proof obligation. In the
// native build the same calls read one concrete assignment, so a counterexample
// is replayed by running the very same harness against the compiled code.
package sym

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"sync"
	"unicode/utf8"
)

type Input struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Val  uint64 `json:"val"`
}

var (
	inputs []Input
	pos    int
	notes  []string
)

// Infeasible is panicked when an assumption does not hold natively.
type Infeasible struct{ Why string }

// Violation is panicked when an assertion fails natively.
type Violation struct{ Msg string }

func Load(in []Input) { inputs, pos, notes = in, 0, nil }

var tier int

// Tier is 0 in quick runs and 1 in thorough ones.
func Tier() int { return tier }

func SetTier(t int)   { tier = t }
func Notes() []string { return notes }

func next(kind string) uint64 {
	if pos >= len(inputs) {
		panic(Infeasible{"no more inputs"})
	}
	in := inputs[pos]
	pos++
	if in.Kind != kind {
		panic(Infeasible{"input kind " + in.Kind + " where " + kind + " is read"})
	}
	return in.Val
}

// Int is any int.
func Int(name string) int { return int(next("int")) }

// IntRange is any int in [lo, hi].
func IntRange(name string, lo, hi int) int {
	v := int(next("int"))
	if v < lo || v > hi {
		panic(Infeasible{"range"})
	}
	return v
}

func Bool(name string) bool { return next("bool") != 0 }
func Byte(name string) byte { return byte(next("byte")) }

// Rune is any Unicode scalar value.
func Rune(name string) rune { return rune(next("rune")) }

// Float64 is any float64, infinities and NaN included.
func Float64(name string) float64 { return math.Float64frombits(next("float")) }

// Choose is an enumerated choice in [0, n).
func Choose(name string, n int) int {
	v := int(next("choose"))
	if v < 0 || v >= n {
		panic(Infeasible{"choice"})
	}
	return v
}

// String is any string of n bytes.
func String(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next("byte"))
	}
	return string(b)
}

// ASCII is any string of n bytes below 0x80.
func ASCII(name string, n int) string { return String(name, n) }

// Runes is any string of n Unicode scalar values.
func Runes(name string, n int) string {
	var b []byte
	for i := 0; i < n; i++ {
		b = utf8.AppendRune(b, rune(next("rune")))
	}
	return string(b)
}

// RuneIn is any rune of a constant set.
func RuneIn(name, set string) rune {
	r := rune(next("rune"))
	for _, s := range set {
		if s == r {
			return r
		}
	}
	panic(Infeasible{"rune set"})
}

func Assume(c bool) {
	if !c {
		panic(Infeasible{"assumption"})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Violation{msg})
	}
}

// Cover marks a point that a useful exploration must reach.
func Cover(label string) {}

// Note records text that explains a counterexample.
func Note(s string) { notes = append(notes, s) }

// Shared runs f(0) and f(1) at the same time. They must not write to memory
// that both can reach: that of the roots, and the package variables.
func Shared(msg string, f func(i int), roots ...any) {
	for round := 0; round < 20; round++ { // a race is not seen every time
		var wg sync.WaitGroup
		start := make(chan bool)
		fail := make([]any, 2)
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { fail[i] = recover() }()
				<-start
				f(i)
			}()
		}
		close(start)
		wg.Wait()
		for _, x := range fail {
			if x != nil {
				panic(x)
			}
		}
	}
}

// MapOrder makes the iteration order of Go maps in the code under test a
// choice of the environment from here on.
func MapOrder(on bool) {}

// Native reports whether this is the native build.
func Native() bool { return true }

// Boolean connectives that do not branch.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func IteFloat(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

// SameFloat is equality up to the payload of NaN; 0 and -0 differ.
func SameFloat(a, b float64) bool {
	if a != a || b != b {
		return a != a && b != b
	}
	return math.Float64bits(a) == math.Float64bits(b)
}

// Same tells whether two document nodes are the same node: identity for maps
// and slices, dynamic type and value for scalars.
func Same(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ra, rb := reflect.ValueOf(a), reflect.ValueOf(b)
	if ra.Type() != rb.Type() {
		return false
	}
	switch ra.Kind() {
	case reflect.Map:
		return ra.Pointer() == rb.Pointer()
	case reflect.Slice:
		return ra.Len() == rb.Len() && (ra.Len() == 0 && ra.IsNil() == rb.IsNil() || ra.Pointer() == rb.Pointer())
	case reflect.Float64:
		return SameFloat(a.(float64), b.(float64))
	}
	return a == b
}

// ConcreteInt makes the engine enumerate the values of x.
func ConcreteInt(x int) int { return x }

// ConcreteString makes the engine enumerate the values of s.
func ConcreteString(s string) string { return s }

func Itoa(x int) string { return strconv.Itoa(x) }

var _ = fmt.Sprint
