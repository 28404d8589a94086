package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// operands are texts of every kind of operand over a record with members a and b.
var operands = []string{
	"@.a", "@['a']", "@.b", "@", "$[0].a", "@.q", "@.b[0]", "null", "true", "false", "0", "7", "0.0", "2.5", "''", "'x'", "[1]", "[@.a]", "(@.a)",
	"@.a == 1", "@.a != @.b", "@.a === @.b", "@.a < 3", "@.a + 1", "1 - 1", "@.a * 0", "-@.a", "!@.a", "@.a in [0, 'x']", "length(@.b)", "@.b.length()", "1 == 1.0", "1 === 1.0", "@.a && @.b", "(@.a || @.b)", "!(@.a)", "2 ** 0", "7 % 7", "@..a", "@[?(@)]",
}

// truth is what a filter of the operand alone decides.
func truth(text string) jp.Path { return parse("$[?(" + text + ")]") }

func init() {
	n := len(operands)
	tiered := func(q, th int) func(int) int {
		return func(t int) int {
			if t > 0 {
				return th
			}
			return q
		}
	}
	rec := func() any { return record("ab", value("a", "nbifsaom"), value("b", "bisaom")) }
	for _, op := range []string{"&&", "||"} {
		warmUp("P10", "$[?(@.a "+op+" @.b)]", "$[?((@.a) "+op+" (@.b))]")
	}
	// quick: each operand on the left and on the right of a sample of others
	add(H{Prop: "P10", Name: "logic-any", Bounds: sym.Itoa(n) + " operands of every kind combined by && and || (quick: a third of the pairs), against what a filter of each operand alone decides; members null, any bool, int, float64, string of up to 2 bytes, array, object or nothing", Cases: tiered(2*((n*n+2)/3), 2*n*n), Setup: func(c int) (string, func()) {
		op := []string{"&&", "||"}[c%2]
		k := c / 2
		if sym.Tier() == 0 {
			k = 3*k + (k/n)%3
			if k >= n*n {
				k = n*n - 1
			}
		}
		l, r := operands[k/n], operands[k%n]
		text := l + " " + op + " " + r
		if k%2 == 1 {
			text = "(" + l + ")" + op + "(" + r + ")"
		}
		p, pl, pr := truth(text), truth(l), truth(r)
		return text, func() {
			doc := rec()
			x, y := holds(pl, doc), holds(pr, doc)
			want := sym.And(x, y)
			if op == "||" {
				want = sym.Or(x, y)
			}
			sym.Assert(sym.Iff(holds(p, doc), want), "the expression is what the truth of its operands makes it")
		}
	}})
	add(H{Prop: "P10", Name: "not-any", Bounds: sym.Itoa(n) + " operands of every kind under !, !! and in parentheses", Cases: fixed(n), Setup: func(c int) (string, func()) {
		t := operands[c]
		pt, pn, pnn, pp, pe, pd := truth(t), truth("!("+t+")"), truth("!!("+t+")"), truth("("+t+")"), truth("(!("+t+")) == false"), truth("(("+t+") && true) === true")
		return t, func() {
			doc := rec()
			x := holds(pt, doc)
			sym.Assert(sym.Iff(holds(pn, doc), sym.Not(x)), "! negates")
			sym.Assert(sym.Iff(holds(pnn, doc), x), "!! is the truth of the operand")
			sym.Assert(sym.Iff(holds(pp, doc), x), "parentheses change nothing")
			sym.Assert(sym.Iff(holds(pe, doc), x), "the result of ! is a bool")
			sym.Assert(sym.Iff(holds(pd, doc), x), "the result of && is a bool")
		}
	}})

	// P12: in against ==
	elems := []string{"@.a", "@['a']", "(@.a)", "$[0].a", "null", "true", "false", "0", "1", "2.5", "1.0", "'x'", "''", "-1", "@.a + 1", "@.a == 1", "!@.a", "@.a && true", "length(@.q)"}
	lists := []struct {
		text string
		of   []string // its elements, as expressions
	}{
		{"[@.b, @.c]", []string{"@.b", "@.c"}},
		{"[@.b]", []string{"@.b"}},
		{"@.l", []string{"@.l[0]", "@.l[1]"}},
		{"$[0].l", []string{"@.l[0]", "@.l[1]"}},
		{"@['l']", []string{"@.l[0]", "@.l[1]"}},
		{"(@.l)", []string{"@.l[0]", "@.l[1]"}},
		{"[1, 'x', null]", []string{"1", "'x'", "null"}},
		{"[0, '', false, 2.5, true]", []string{"0", "''", "false", "2.5", "true"}},
		{"[@.b + 1, 1 == @.c]", []string{"@.b + 1", "1 == @.c"}},
		{"@.b", []string{"@.b"}},
		{"@.l[1]", []string{"@.l[1]"}},
		{"1", []string{"1"}},
		{"'x'", []string{"'x'"}},
	}
	add(H{Prop: "P12", Name: "in-any", Bounds: "19 operands against 13 lists, literal, of the document and of one value, against == with each element; members null, any bool, int, float64 or string of up to 2 bytes", Cases: fixed(len(elems) * len(lists)), Setup: func(c int) (string, func()) {
		e, l := elems[c/len(lists)], lists[c%len(lists)]
		text := e + " in " + l.text
		if e == "@.a == 1" || e == "@.a && true" {
			text = "(" + e + ") in " + l.text
		}
		p := truth(text)
		var eqs []jp.Path
		for _, x := range l.of {
			eqs = append(eqs, truth("("+e+") == ("+x+")"))
		}
		return text, func() {
			kinds := "nbifs"
			a := value("a", kinds)
			if e == "@.a + 1" {
				sym.Assume(a.kind != 's')
			}
			b, d := value("b", kinds), value("c", "nbis")
			if l.text == "[@.b + 1, 1 == @.c]" {
				sym.Assume(b.kind != 's')
			}
			doc := record("abc", a, b, d)
			doc["l"] = []any{b.any(), d.any()}
			if l.text == "@.b" || l.text == "@.l[1]" {
				// a value standing for a list of one; null is left open
				sym.Assume(sym.And(b.kind != 'n', d.kind != 'n'))
			}
			want := false
			for _, q := range eqs {
				want = sym.Or(want, holds(q, doc))
			}
			sym.Assert(sym.Iff(holds(p, doc), want), "in is true exactly if == holds for an element")
		}
	}})

	// P08, P09: the same values by other ways
	ways := []struct {
		l, r string
		doc  func(x, y R) any
	}{
		{"@['a']", "@[\"b\"]", nil},
		{"$[0].a", "$[0]['b']", nil},
		{"@.a", "$[0].b", nil},
		{"@[0]", "@[1]", func(x, y R) any { return []any{x.any(), y.any()} }},
		{"@[-2]", "@[-1]", func(x, y R) any { return []any{x.any(), y.any()} }},
		{"@.n.a", "@.n.b", func(x, y R) any { return map[string]any{"n": record("ab", x, y)} }},
		{"@.*", "@..b", func(x, y R) any { return map[string]any{"q": map[string]any{"b": y.any()}, "a": x.any()} }},
		{"$[0][0]", "@[1][0]", func(x, y R) any { return []any{x.any(), []any{y.any()}} }},
		{"((@.a))", "(@.b)", nil},
	}
	ways = append(ways[:6], ways[7:]...)
	all := []string{"==", "!=", "===", "!==", "<", "<=", ">", ">="}
	for k, prop := range []string{"P08", "P09"} {
		ops := all[4*k : 4*k+4]
		name := []string{"equality-ways", "order-ways"}[k]
		add(H{Prop: prop, Name: name, Bounds: sym.Itoa(len(ways)) + " ways to address the operands, any two scalars (for the order: numbers, or strings of up to 2 bytes)", Cases: fixed(4 * len(ways)), Setup: func(c int) (string, func()) {
			w, op := ways[c/4], ops[c%4]
			text := w.l + " " + op + " " + w.r
			p := truth(text)
			return text, func() {
				kinds := "nbifs"
				if prop == "P09" {
					kinds = "ifs"
				}
				x, y := value("a", kinds), value("b", kinds)
				if prop == "P09" {
					notNaN(x, y)
					sym.Assume((x.kind == 's') == (y.kind == 's'))
				}
				var doc any = record("ab", x, y)
				if w.doc != nil {
					doc = w.doc(x, y)
				}
				var want bool
				switch op {
				case "==":
					want = refEq(x, y)
				case "!=":
					want = sym.Not(refEq(x, y))
				case "===":
					want = refEq3(x, y)
				case "!==":
					want = sym.Not(refEq3(x, y))
				case "<":
					want = refLess(x, y)
				case "<=":
					want = sym.Not(refLess(y, x))
				case ">":
					want = refLess(y, x)
				case ">=":
					want = sym.Not(refLess(x, y))
				}
				sym.Assert(sym.Iff(holds(p, doc), want), "selected exactly when the comparison is true")
			}
		}})
		// the element itself as an operand
		add(H{Prop: prop, Name: name + "-element", Bounds: "the element itself against literals and itself, any two scalars", Cases: fixed(4 * 4), Setup: func(c int) (string, func()) {
			op := ops[c%4]
			text := []string{"@ OP 7", "2.5 OP @", "@ OP 'm'", "@ OP $[1]"}[c/4]
			p := truth(replaceOp(text, op))
			return replaceOp(text, op), func() {
				kinds := "nbifs"
				if prop == "P09" {
					kinds = []string{"if", "if", "s", "ifs"}[c/4]
				}
				x := value("a", kinds)
				y := x
				switch c / 4 {
				case 0:
					y = R{kind: 'i', i: 7}
				case 1:
					x, y = R{kind: 'f', f: 2.5}, x
				case 2:
					y = R{kind: 's', s: "m"}
				case 3:
					y = value("b", kinds)
				}
				if prop == "P09" {
					notNaN(x, y)
					sym.Assume((x.kind == 's') == (y.kind == 's'))
				}
				el := x
				if c/4 == 1 {
					el = y
				}
				doc := []any{el.any()}
				if c/4 == 3 {
					doc = []any{el.any(), y.any()}
				}
				var want bool
				switch op {
				case "==":
					want = refEq(x, y)
				case "!=":
					want = sym.Not(refEq(x, y))
				case "===":
					want = refEq3(x, y)
				case "!==":
					want = sym.Not(refEq3(x, y))
				case "<":
					want = refLess(x, y)
				case "<=":
					want = sym.Not(refLess(y, x))
				case ">":
					want = refLess(y, x)
				case ">=":
					want = sym.Not(refLess(x, y))
				}
				got := 0
				err := jp.Search(jp.MapModel{Doc: doc}, p, func(dp jp.DocPath) {
					if dp.Last().Index == 0 {
						got++
					}
				})
				sym.Assert(err == nil, "Search reports no error")
				sym.Assert(got == sym.IteInt(want, 1, 0), "selected exactly when the comparison is true")
			}
		}})
	}

	// P09: literals on both sides, as Go compares them
	nums := []R{{kind: 'i', i: 0}, {kind: 'i', i: 1}, {kind: 'i', i: -1}, {kind: 'i', i: 10}, {kind: 'f', f: 0.5}, {kind: 'f', f: 1}, {kind: 'f', f: -0.5}, {kind: 'f', f: 1.5}}
	numText := []string{"0", "1", "-1", "10", "0.5", "1.0", "-0.5", "1.5"}
	add(H{Prop: "P09", Name: "literal-order", Bounds: "all pairs of 8 number literals, in front of an operand that is any bool", Cases: fixed(len(nums)), Setup: func(c int) (string, func()) {
		var ps []jp.Path
		var want []bool
		for j := range nums {
			for _, op := range []string{"<", "<=", ">", ">="} {
				ps = append(ps, truth("@.a && "+numText[c]+" "+op+" "+numText[j]))
				x, y := nums[c].float(), nums[j].float()
				want = append(want, map[string]bool{"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])
			}
		}
		return numText[c] + " against others", func() {
			a := value("a", "b")
			doc := record("a", a)
			for i, p := range ps {
				sym.Assert(sym.Iff(holds(p, doc), sym.And(a.b, want[i])), "literals compare as numbers")
			}
		}
	}})

	// P11: an operand that is no number gives null
	ops := []string{"+", "-", "*", "/", "%", "**"}
	forms := []string{"@.a OP 'x'", "'x' OP @.a", "@.a OP @.s", "@.s OP @.a", "@.a OP null", "null OP @.a", "@.a OP [1]", "@.a OP ''"}
	add(H{Prop: "P11", Name: "no-number", Bounds: "text and null operands against null, any bool, int or float64; the text is any letter but those of inf and nan", Cases: fixed(len(ops) * len(forms)), Setup: func(c int) (string, func()) {
		f, op := forms[c/len(ops)], ops[c%len(ops)]
		text := replaceOp(f, op)
		isNull, any1, any2 := truth("("+text+") == null"), truth("("+text+") === @.a"), truth("("+text+") == @.s")
		return text, func() {
			x := value("a", "nbif")
			s := value("s", "s")
			for i := range s.s {
				ch := s.s[i]
				letter := sym.And(ch >= 'A', ch <= 'z')
				for _, o := range []byte("iInN[\\]^_`") {
					letter = sym.And(letter, ch != o)
				}
				sym.Assume(letter)
			}
			doc := record("as", x, s)
			sym.Assert(holds(isNull, doc), "the result is null")
			sym.Assert(holds(any1, doc) == (x.kind == 'n'), "the result is no number")
			sym.Assert(!holds(any2, doc), "the result is no text")
		}
	}})
}
