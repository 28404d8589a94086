package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

func one(string) any { return 1 }

func init() {
	a, b := rChild("a"), rChild("b")
	ex := func(s ...step) step {
		return rFilter(func(x *T) bool { return len(ref(x, s...)) != 0 })
	}
	fs := func(tree, treeT, mapm, mapmT []int) func(int) (shape, shape) {
		return func(tier int) (shape, shape) {
			if tier > 0 {
				return shape{widths: treeT, val: one}, shape{widths: mapmT, val: one}
			}
			return shape{widths: tree, val: one}, shape{widths: mapm, val: one}
		}
	}
	structural("P07", "filter-existence", "any tree of depth 3 and widths 2,2,1 (thorough 3,2,1) whose values are true",
		fs([]int{2, 2, 1}, []int{3, 2, 1}, []int{2, 1, 1}, []int{2, 2}), []pc{
			{text: "$[?(@)]", ref: []step{rWild}, ordered: true},
			{text: "$[?(@.a)]", ref: []step{ex(a)}, ordered: true},
			{text: "$[?(@['a'])]", ref: []step{ex(a)}, ordered: true},
			{text: "$.*[?(@.a)]", ref: []step{rWild, ex(a)}, ordered: true},
			{text: "$[?(@.a.b)]", ref: []step{ex(a, b)}, ordered: true},
			{text: "$[?(@.a)].a", ref: []step{ex(a), a}, ordered: true},
			{text: "$.a[?(@.b)]", ref: []step{a, ex(b)}, ordered: true},
			{text: "$[?(@[0])]", ref: []step{ex(rIndex(0))}, ordered: true},
			{text: "$[?(@[-1])]", ref: []step{ex(rIndex(-1))}, ordered: true},
			{text: "$[?(@[0:1])]", ref: []step{ex(rIndex(0))}, ordered: true},
			{text: "$[?(@.*)]", ref: []step{ex(rWild)}, ordered: true},
			{text: "$[?(@..a)]", ref: []step{ex(rDeep, a)}, ordered: true},
			{text: "$[?(@..a..b)]", ref: []step{ex(rDeep, a, rDeep, b)}, ordered: true},
			{text: "$[?(@..a[0])]", ref: []step{ex(rDeep, a, rIndex(0))}, ordered: true},
			{text: "$[?(@..[0:1])]", ref: []step{ex(rDeep, rIndex(0))}, ordered: true},
			{text: "$[?(@..*.a)]", ref: []step{ex(rDeep, rWild, a)}, ordered: true},
			{text: "$[?(@.a..)]", ref: []step{ex(a, rDeep, rWild)}, ordered: true},
			{text: "$..[?(@.a)]", ref: []step{rDeep, ex(a)}},
			{text: "$[?(!@.a)]", ref: []step{rFilter(func(x *T) bool { return len(a(x)) == 0 })}, ordered: true},
			{text: "$[?(@.a && @.b)]", ref: []step{rFilter(func(x *T) bool { return len(a(x)) != 0 && len(b(x)) != 0 })}, ordered: true},
			{text: "$[?(@.a || @[0])]", ref: []step{rFilter(func(x *T) bool { return len(a(x)) != 0 || len(rIndex(0)(x)) != 0 })}, ordered: true},
			{text: "$[?(@[?(@.a)])]", ref: []step{ex(ex(a))}, ordered: true},
			{text: "$[?(@.a[?(@)])]", ref: []step{ex(a, rWild)}, ordered: true},
			{text: "$[?(@['a','b'])]", ref: []step{ex(rUnion(a, b))}, ordered: true},
			{text: "$[?(@.a),?(@.b)]", ref: []step{rUnion(ex(a), ex(b))}, ordered: true},
			{text: "$[?(@.a),0]", ref: []step{rUnion(ex(a), rIndex(0))}, ordered: true},
			{text: "$[?(@.a)][?(@.b)]", ref: []step{ex(a), ex(b)}, ordered: true},
		})
	// $ inside filters is the document root, at any depth
	rootHas := func(s ...step) step {
		return func(x *T) []*T {
			r := x
			for r.parent != nil {
				r = r.parent
			}
			if len(ref(r, s...)) != 0 {
				return kids(x)
			}
			return nil
		}
	}
	structural("P07", "filter-root", "any tree of depth 3 and widths 2,1,1 (thorough 2,2,1) whose values are true",
		fs([]int{2, 1, 1}, []int{2, 2, 1}, []int{2, 1}, []int{2, 2}), []pc{
			{text: "$[?($.a)]", ref: []step{rootHas(a)}, ordered: true},
			{text: "$.b[?($.a)]", ref: []step{b, rootHas(a)}, ordered: true},
			{text: "$.*[?($.a.b)]", ref: []step{rWild, rootHas(a, b)}, ordered: true},
			{text: "$..[?($[0])]", ref: []step{rDeep, rootHas(rIndex(0))}},
			{text: "$[?(@[?($.a)])]", ref: []step{ex(rootHas(a))}, ordered: true},
			{text: "$[?($..a)]", ref: []step{rootHas(rDeep, a)}, ordered: true},
		})

	// P07: the element is selected exactly when the operand it names is true
	add(H{Prop: "P07", Name: "filter-truth", Bounds: "operand: any bool, int, float64, string of up to 2 bytes, array, object or nothing", Cases: fixed(5), Setup: func(c int) (string, func()) {
		text := []string{"$[?(@.a)]", "$[?(@['a'])]", "$.*[?(@.a)]", "$..[?(@.a)]", "$[?(@)]"}[c]
		p := parse(text)
		return text, func() {
			x := value("a", "bifsaom")
			var doc any = []any{record("a", x)}
			want := sym.IteInt(truthy(x), 1, 0)
			switch c {
			case 2:
				doc = map[string]any{"x": doc}
			case 3:
				// the record itself may also pass, through its member a of kind o; it has no member a
			case 4:
				sym.Assume(x.kind != 'm')
				doc = []any{x.any()}
			}
			r, err := jp.Find(jp.MapModel{Doc: doc}, p)
			sym.Assert(err == nil, "Find reports no error")
			sym.Assert(len(r) == want, "selected exactly when the operand is true")
		}
	}})

	// P08
	type eqForm struct {
		text   string
		lhs    *R // literal operand
		rhs    *R
		inRoot bool
	}
	lit := func(r R) *R { return &r }
	eqf := []eqForm{
		{text: "@.a OP @.b"},
		{text: "(@.a) OP (@.b)"},
		{text: "@.a OP null", rhs: lit(R{kind: 'n'})},
		{text: "@.a OP true", rhs: lit(R{kind: 'b', b: true})},
		{text: "@.a OP false", rhs: lit(R{kind: 'b'})},
		{text: "@.a OP 7", rhs: lit(R{kind: 'i', i: 7})},
		{text: "@.a OP -7", rhs: lit(R{kind: 'i', i: -7})},
		{text: "@.a OP 2.5", rhs: lit(R{kind: 'f', f: 2.5})},
		{text: "@.a OP 3.0", rhs: lit(R{kind: 'f', f: 3})},
		{text: "@.a OP 'x'", rhs: lit(R{kind: 's', s: "x"})},
		{text: "@.a OP ''", rhs: lit(R{kind: 's', s: ""})},
		{text: "null OP @.b", lhs: lit(R{kind: 'n'})},
		{text: "7 OP @.b", lhs: lit(R{kind: 'i', i: 7})},
		{text: "2.5 OP @.b", lhs: lit(R{kind: 'f', f: 2.5})},
		{text: "'x' OP @.b", lhs: lit(R{kind: 's', s: "x"})},
		{text: "true OP @.b", lhs: lit(R{kind: 'b', b: true})},
	}
	ops := []string{"==", "!=", "===", "!=="}
	add(H{Prop: "P08", Name: "equality", Bounds: "operands: null, any bool, int, float64 and string of up to 2 bytes, from the document or literal; arrays and objects against scalars", Cases: fixed(len(eqf) * 4), Setup: func(c int) (string, func()) {
		f, op := eqf[c/4], ops[c%4]
		text := "$[?(" + replaceOp(f.text, op) + ")]"
		p := parse(text)
		return text, func() {
			var x, y R
			if f.lhs != nil {
				x = *f.lhs
			} else {
				x = value("a", "nbifsao")
			}
			if f.rhs != nil {
				y = *f.rhs
			} else {
				y = value("b", "nbifsao")
			}
			container := func(r R) bool { return r.kind == 'a' || r.kind == 'o' }
			sym.Assume(!(container(x) && container(y)))
			want := refEq(x, y)
			if op[len(op)-1] == '=' && len(op) == 3 {
				want = refEq3(x, y)
			}
			if op[0] == '!' {
				want = sym.Not(want)
			}
			sym.Assert(sym.Iff(holds(p, record("ab", x, y)), want), "selected exactly when the comparison is true")
		}
	}})
	add(H{Prop: "P08", Name: "equality-laws", Bounds: "operands: null, any bool, int, float64, string of up to 2 bytes, array, object or nothing", Cases: fixed(4), Setup: func(c int) (string, func()) {
		desc := []string{"== is symmetric", "=== is symmetric", "!= is not ==", "!== is not ==="}[c]
		l := parse([]string{"$[?(@.a == @.b)]", "$[?(@.a === @.b)]", "$[?(@.a == @.b)]", "$[?(@.a === @.b)]"}[c])
		r := parse([]string{"$[?(@.b == @.a)]", "$[?(@.b === @.a)]", "$[?(@.a != @.b)]", "$[?(@.a !== @.b)]"}[c])
		return desc, func() {
			x, y := value("a", "nbifsaom"), value("b", "nbifsaom")
			doc := record("ab", x, y)
			sym.Assert(holds(l, doc) == (holds(r, doc) == (c < 2)), desc)
		}
	}})

	// P09
	rel := []string{"<", "<=", ">", ">="}
	rtexts := []string{"@.a OP @.b", "@.a OP 7", "7 OP @.b", "@.a OP 2.5", "2.5 OP @.b", "@.a OP 'm'", "'m' OP @.b", "-7 OP @.b", "(@.a) OP (@.b)"}
	add(H{Prop: "P09", Name: "order", Bounds: "any two ints or non-NaN float64s in any mix, or two strings of up to 2 bytes; from the document or literal", Cases: fixed(len(rtexts) * 4), Setup: func(c int) (string, func()) {
		form, op := rtexts[c/4], rel[c%4]
		text := "$[?(" + replaceOp(form, op) + ")]"
		p := parse(text)
		return text, func() {
			var x, y R
			switch c / 4 {
			case 1:
				x, y = value("a", "if"), R{kind: 'i', i: 7}
			case 2:
				x, y = R{kind: 'i', i: 7}, value("b", "if")
			case 3:
				x, y = value("a", "if"), R{kind: 'f', f: 2.5}
			case 4:
				x, y = R{kind: 'f', f: 2.5}, value("b", "if")
			case 5:
				x, y = value("a", "s"), R{kind: 's', s: "m"}
			case 6:
				x, y = R{kind: 's', s: "m"}, value("b", "s")
			case 7:
				x, y = R{kind: 'i', i: -7}, value("b", "if")
			default:
				x, y = value("a", "ifs"), value("b", "ifs")
			}
			notNaN(x, y)
			sym.Assume((x.kind == 's') == (y.kind == 's'))
			var want bool
			switch op {
			case "<":
				want = refLess(x, y)
			case "<=":
				want = sym.Not(refLess(y, x))
			case ">":
				want = refLess(y, x)
			case ">=":
				want = sym.Not(refLess(x, y))
			}
			sym.Assert(sym.Iff(holds(p, record("ab", x, y)), want), "selected exactly when the comparison is true")
		}
	}})

	// P10
	ltexts := []string{"@.a && @.b", "@.a || @.b", "!@.a", "!!@.a", "!(@.a && @.b)", "!(@.a || @.b)", "!@.a || @.b", "@.a && !@.b", "(@.a && @.b) || @.c", "@.a && (@.b || @.c)", "@.a && @.b && @.c", "@.a || @.b || @.c", "true && @.a", "false || @.a", "@.a && false", "@.a || true", "!true", "!false"}
	add(H{Prop: "P10", Name: "logic", Bounds: "operands: any bool, int, float64, string of up to 2 bytes, array, object or nothing; up to three operands", Cases: fixed(len(ltexts)), Setup: func(c int) (string, func()) {
		text := "$[?(" + ltexts[c] + ")]"
		p := parse(text)
		return text, func() {
			kinds := "bifsaom"
			if c >= 8 {
				kinds = "bism"
			}
			var x, y, z R
			x = value("a", kinds)
			if c != 2 && c != 3 && c < 12 {
				y = value("b", kinds)
			}
			z.kind = 'm'
			if c >= 8 && c <= 11 {
				z = value("c", kinds)
			}
			a, b, d := truthy(x), truthy(y), truthy(z)
			var want bool
			switch c {
			case 0:
				want = sym.And(a, b)
			case 1:
				want = sym.Or(a, b)
			case 2:
				want = sym.Not(a)
			case 3, 12, 13:
				want = a
			case 4:
				want = sym.Not(sym.And(a, b))
			case 5:
				want = sym.Not(sym.Or(a, b))
			case 6:
				want = sym.Or(sym.Not(a), b)
			case 7:
				want = sym.And(a, sym.Not(b))
			case 8:
				want = sym.Or(sym.And(a, b), d)
			case 9:
				want = sym.And(a, sym.Or(b, d))
			case 10:
				want = sym.And(sym.And(a, b), d)
			case 11:
				want = sym.Or(sym.Or(a, b), d)
			case 14, 16:
				want = false
			case 15, 17:
				want = true
			}
			sym.Assert(sym.Iff(holds(p, record("abc", x, y, z)), want), "selected exactly when the expression is true")
		}
	}})

	// P12
	itexts := []string{"@.a in @.l", "@.a in $.l", "@.a in [@.b, @.c]", "@.a in [1, 2.5, 'x', true]", "1 in @.l", "'x' in $.l", "@.a in []", "!(@.a in @.l)", "@.a in @.b"}
	add(H{Prop: "P12", Name: "in", Bounds: "element: null, any bool, int, float64, string of up to 2 bytes; list of up to 2 (thorough 3) such elements, literal or from the document", Cases: fixed(len(itexts)), Setup: func(c int) (string, func()) {
		text := "$.v[?(" + itexts[c] + ")]"
		p := parse(text)
		return text, func() {
			x := value("a", "nbifs")
			n := sym.Choose("n", 3)
			var l []R
			for i := 0; i < n; i++ {
				l = append(l, value("l"+sym.Itoa(i), "nbifs"))
			}
			e := record("a", x)
			switch c {
			case 2:
				sym.Assume(n == 2)
				e["b"], e["c"] = l[0].any(), l[1].any()
			case 3:
				l = []R{{kind: 'i', i: 1}, {kind: 'f', f: 2.5}, {kind: 's', s: "x"}, {kind: 'b', b: true}}
			case 4:
				x = R{kind: 'i', i: 1}
			case 5:
				x = R{kind: 's', s: "x"}
			case 6:
				l = nil
			case 8:
				// a scalar on the right is a list of one
				sym.Assume(n == 1)
				sym.Assume(l[0].kind != 'n')
				e["b"] = l[0].any()
			}
			list := []any{}
			want := false
			for _, y := range l {
				list = append(list, y.any())
				want = sym.Or(want, refEq(x, y))
			}
			e["l"] = list
			if c == 7 {
				want = sym.Not(want)
			}
			r, err := jp.Find(jp.MapModel{Doc: map[string]any{"l": list, "v": []any{e}}}, p)
			sym.Assert(err == nil, "Find reports no error")
			sym.Assert(sym.Iff(len(r) == 1, want), "selected exactly when an element of the list equals the operand")
		}
	}})
}

func replaceOp(form, op string) string {
	out := ""
	for i := 0; i < len(form); i++ {
		if i+1 < len(form) && form[i] == 'O' && form[i+1] == 'P' {
			out += op
			i++
			continue
		}
		out += form[i : i+1]
	}
	return out
}
