package props

import (
	"math"

	"verif/harness/sym"
)

// num is the number an operand stands for: bools count as 0 and 1.
func num(r R) (R, bool) {
	switch r.kind {
	case 'i', 'f':
		return r, true
	case 'b':
		if r.b {
			return R{kind: 'i', i: 1}, true
		}
		return R{kind: 'i'}, true
	}
	return R{kind: 'n'}, false
}

// arith is the reference for the arithmetic operators: Go int arithmetic on two
// ints, float64 arithmetic otherwise, nothing for a division by zero or an
// operand that is not a number.
func arith(op string, x, y R) R {
	x, okx := num(x)
	y, oky := num(y)
	if !okx || !oky {
		return R{kind: 'n'}
	}
	ints := x.kind == 'i' && y.kind == 'i'
	switch op {
	case "+":
		if ints {
			return R{kind: 'i', i: x.i + y.i}
		}
		return R{kind: 'f', f: x.float() + y.float()}
	case "-":
		if ints {
			return R{kind: 'i', i: x.i - y.i}
		}
		return R{kind: 'f', f: x.float() - y.float()}
	case "*":
		if ints {
			return R{kind: 'i', i: x.i * y.i}
		}
		return R{kind: 'f', f: x.float() * y.float()}
	case "/":
		if ints {
			if y.i == 0 {
				return R{kind: 'n'}
			}
			return R{kind: 'i', i: x.i / y.i}
		}
		if y.float() == 0 {
			return R{kind: 'n'}
		}
		return R{kind: 'f', f: x.float() / y.float()}
	case "%":
		if ints {
			if y.i == 0 {
				return R{kind: 'n'}
			}
			return R{kind: 'i', i: x.i % y.i}
		}
		if y.float() == 0 {
			return R{kind: 'n'}
		}
		return R{kind: 'f', f: math.Mod(x.float(), y.float())}
	}
	return R{kind: 'f', f: math.Pow(x.float(), y.float())}
}

func negate(x R) R {
	x, ok := num(x)
	switch {
	case !ok:
	case x.kind == 'i':
		x.i = -x.i
	default:
		x.f = -x.f
	}
	return x
}

func init() {
	ops := []string{"+", "-", "*", "/", "%", "**"}
	// the result is observed through === with an operand that is either the
	// expected value or an arbitrary other one
	type form struct {
		text string
		x, y *R
	}
	lit := func(r R) *R { return &r }
	forms := []form{
		{text: "@.a OP @.b === @.c"},
		{text: "@.c === @.a OP @.b"},
		{text: "(@.a)OP(@.b) === @.c"},
		{text: "@.a OP 3 === @.c", y: lit(R{kind: 'i', i: 3})},
		{text: "7 OP @.b === @.c", x: lit(R{kind: 'i', i: 7})},
		{text: "@.a OP 2.5 === @.c", y: lit(R{kind: 'f', f: 2.5})},
		{text: "@.a OP 0 === @.c", y: lit(R{kind: 'i'})},
		{text: "@.a OP 0.0 === @.c", y: lit(R{kind: 'f'})},
	}
	add(H{Prop: "P11", Name: "arithmetic", Bounds: "operands: any int, float64, bool, null, array, object, nothing, or a literal; ** and float % are uninterpreted functions", Cases: fixed(len(forms) * len(ops)), Setup: func(c int) (string, func()) {
		f, op := forms[c/len(ops)], ops[c%len(ops)]
		text := "$[?(" + replaceOp(f.text, op) + ")]"
		p := parse(text)
		return text, func() {
			var x, y R
			if f.x != nil {
				x = *f.x
			} else {
				x = value("a", "ifbnaom")
			}
			if f.y != nil {
				y = *f.y
			} else {
				y = value("b", "ifbnaom")
			}
			want := arith(op, x, y)
			switch sym.Choose("observe", 3) {
			case 0: // the result is the expected one (a NaN equals nothing)
				nan := want.kind == 'f' && want.f != want.f
				if nan {
					sym.Assert(!holds(p, record("abc", x, y, want)), "NaN equals nothing")
				} else {
					sym.Assert(holds(p, record("abc", x, y, want)), "the result is the expected value")
				}
			case 1: // and it is not of another type
				other := R{kind: 'i', i: 1}
				if want.kind == 'i' {
					other = R{kind: 'f', f: float64(want.i)}
				} else if want.kind == 'f' {
					other = value("other", "ins")
				}
				sym.Assert(!holds(p, record("abc", x, y, other)), "the result has the expected type")
			case 2: // and it is no other value
				if want.kind == 'n' {
					sym.Assert(!holds(p, record("abc", x, y, value("other", "bis"))), "the result is nothing")
					return
				}
				if want.kind == 'f' && (op == "/" || op == "*") && x.kind == y.kind {
					return // decided by the first observation; the solvers cannot search for an other value here
				}
				other := R{kind: want.kind}
				if want.kind == 'i' {
					other.i = sym.Int("other")
					sym.Assume(other.i != want.i)
				} else {
					other.f = sym.Float64("other")
					sym.Assume(other.f != want.f)
				}
				sym.Assert(!holds(p, record("abc", x, y, other)), "the result is no other value")
			}
		}
	}})
	utexts := []string{"-@.a === @.c", "-(@.a) === @.c", "+@.a === @.c", "- @.a === @.c", "-(-@.a) === @.c", "-@.a === -@.c"}
	add(H{Prop: "P11", Name: "unary", Bounds: "operand: any int, float64, bool, null, array, object or nothing", Cases: fixed(len(utexts)), Setup: func(c int) (string, func()) {
		text := "$[?(" + utexts[c] + ")]"
		p := parse(text)
		return text, func() {
			kinds := "ifbnaom"
			if c == 2 || c == 5 {
				kinds = "if"
			}
			x := value("a", kinds)
			notNaN(x)
			want := negate(x)
			switch c {
			case 2, 5:
				want = x
			case 4:
				want = negate(negate(x))
			}
			if sym.Choose("observe", 2) == 0 {
				sym.Assert(holds(p, record("ac", x, want)), "the result is the expected value")
				return
			}
			other := value("other", "ifbs")
			if other.kind == want.kind {
				sym.Assume(sym.Not(refEq3(other, want)))
			}
			if c == 5 {
				sym.Assume(other.numeric())
			}
			sym.Assert(!holds(p, record("ac", x, other)), "the result is no other value")
		}
	}})
}
