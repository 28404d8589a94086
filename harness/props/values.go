package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// An R is a value together with what the reference knows about it.
type R struct {
	kind byte // n null, b bool, i int, f float64, s string, a array, o object, m missing
	b    bool
	i    int
	f    float64
	s    string
}

func (r R) any() any {
	switch r.kind {
	case 'b':
		return r.b
	case 'i':
		return r.i
	case 'f':
		return r.f
	case 's':
		return r.s
	case 'a':
		return []any{1}
	case 'o':
		return map[string]any{"q": 1}
	}
	return nil
}

// value is any value of one of the kinds; strings have up to two bytes.
func value(name, kinds string) R {
	k := byte(kinds[0])
	if len(kinds) > 1 {
		k = kinds[sym.Choose(name+".kind", len(kinds))]
	}
	r := R{kind: k}
	switch k {
	case 'b':
		r.b = sym.Bool(name)
	case 'i':
		r.i = sym.Int(name)
	case 'f':
		r.f = sym.Float64(name)
	case 's':
		r.s = sym.ASCII(name, sym.Choose(name+".len", 3))
	}
	return r
}

func (r R) numeric() bool { return r.kind == 'i' || r.kind == 'f' }

func (r R) float() float64 {
	if r.kind == 'i' {
		return float64(r.i)
	}
	return r.f
}

// record is {name: value, ...} without the missing ones.
func record(names string, vals ...R) map[string]any {
	m := map[string]any{}
	for i, v := range vals {
		if v.kind != 'm' {
			m[names[i:i+1]] = v.any()
		}
	}
	return m
}

// holds evaluates the filter path over a one-element array.
func holds(p jp.Path, elem any) bool {
	r, err := jp.Find(jp.MapModel{Doc: []any{elem}}, p)
	sym.Assert(err == nil, "Find reports no error")
	sym.Assert(len(r) <= 1, "one element is selected at most once")
	return len(r) == 1
}

// truthy is the truth of an operand: a missing one is false, containers are
// true, numbers and strings are true unless zero or empty.
func truthy(r R) bool {
	switch r.kind {
	case 'b':
		return r.b
	case 'i':
		return r.i != 0
	case 'f':
		return r.f != 0
	case 's':
		return len(r.s) != 0
	case 'a', 'o':
		return true
	}
	return false
}

// refEq is the == rule for scalars.
func refEq(x, y R) bool {
	switch {
	case x.kind == 'n' || y.kind == 'n':
		return x.kind == y.kind
	case x.kind == 'i' && y.kind == 'i':
		return x.i == y.i
	case x.numeric() && y.numeric():
		return x.float() == y.float()
	case x.kind != y.kind:
		return false
	case x.kind == 'b':
		return x.b == y.b
	case x.kind == 's':
		return x.s == y.s
	}
	return false
}

func refEq3(x, y R) bool { return x.kind == y.kind && refEq(x, y) }

// refLess is the < rule for numbers and for strings.
func refLess(x, y R) bool {
	switch {
	case x.kind == 'i' && y.kind == 'i':
		return x.i < y.i
	case x.kind == 's':
		return x.s < y.s
	}
	return x.float() < y.float()
}

func notNaN(rs ...R) {
	for _, r := range rs {
		if r.kind == 'f' {
			sym.Assume(r.f == r.f)
		}
	}
}
