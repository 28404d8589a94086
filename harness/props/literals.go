package props

import (
	"math"
	"strings"

	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// Expressions made of literals, which an implementation may evaluate ahead, and
// values at the ends of their ranges.

type lit struct {
	text string
	R
}

func init() {
	i := func(t string, v int) lit { return lit{t, R{kind: 'i', i: v}} }
	f := func(t string, v float64) lit { return lit{t, R{kind: 'f', f: v}} }
	s := func(v string) lit { return lit{"'" + v + "'", R{kind: 's', s: v}} }
	lits := []lit{i("0", 0), i("1", 1), i("2", 2), i("3", 3), i("7", 7), i("-1", -1), i("-7", -7), i("(-2)", -2), i("0x10", 16), i("9223372036854775807", math.MaxInt), i("9007199254740993", 9007199254740993),
		f("0.5", 0.5), f("1.0", 1), f("0.0", 0), f("2.5", 2.5), f("-0.5", -0.5), f("-2.0", -2), f("1e3", 1000), f("9007199254740992.0", 9007199254740992),
		{"true", R{kind: 'b', b: true}}, {"false", R{kind: 'b'}}, {"null", R{kind: 'n'}}, s("a"), s("b"), s("ab"), s(""), s("B"), s("1")}
	one := func(p jp.Path, want bool) {
		a := value("a", "b")
		sym.Assert(sym.Iff(holds(p, record("a", a)), sym.And(a.b, want)), "literals are operands like any other")
	}
	bounds := func(n int) string {
		return "each of " + sym.Itoa(n) + " literals against each other"
	}
	pairs := func(prop string, ops []string, use func(x, y R) bool, of func(op string, x, y R) bool) {
		add(H{Prop: prop, Name: "literals", Bounds: bounds(len(lits)) + ", in front of an operand that is any bool", Cases: fixed(len(lits)), Setup: func(c int) (string, func()) {
			x := lits[c]
			type q struct {
				p    jp.Path
				want bool
			}
			var qs []q
			for _, y := range lits {
				if !use(x.R, y.R) {
					continue
				}
				for _, op := range ops {
					qs = append(qs, q{truth("@.a && " + x.text + " " + op + " " + y.text), of(op, x.R, y.R)})
				}
			}
			return x.text + " against others", func() {
				if len(qs) != 0 {
					k := qs[sym.Choose("other", len(qs))]
					one(k.p, k.want)
				}
			}
		}})
	}
	all := func(x, y R) bool { return true }
	pairs("P08", []string{"==", "!=", "===", "!=="}, all, func(op string, x, y R) bool {
		eq := refEq(x, y)
		if len(op) == 3 {
			eq = refEq3(x, y)
		}
		return eq == (op[0] == '=')
	})
	pairs("P09", []string{"<", "<=", ">", ">="}, func(x, y R) bool { return x.numeric() && y.numeric() || x.kind == 's' && y.kind == 's' }, func(op string, x, y R) bool {
		switch op {
		case "<":
			return refLess(x, y)
		case "<=":
			return !refLess(y, x)
		case ">":
			return refLess(y, x)
		}
		return !refLess(x, y)
	})

	add(H{Prop: "P10", Name: "literals", Bounds: sym.Itoa(len(lits)) + " literals with an operand of any kind but null, and with each other", Cases: fixed(len(lits)), Setup: func(c int) (string, func()) {
		x := lits[c]
		l := x.text
		and, dna, or, ro, not, nn, alone := truth(l+" && @.b"), truth("@.b && "+l), truth(l+" || @.b"), truth("@.b || "+l), truth("!"+l), truth("!!"+l+" == true"), truth(l)
		var ands, ors []jp.Path
		for _, y := range lits {
			ands, ors = append(ands, truth("(!("+l+" && "+y.text+")) == false")), append(ors, truth("("+l+" || "+y.text+") === true"))
		}
		return l, func() {
			if n := sym.Choose("other", len(lits)+1); n < len(lits) {
				sym.Assert(holds(ands[n], 1) == (truthy(x.R) && truthy(lits[n].R)), "&& of literals")
				sym.Assert(holds(ors[n], 1) == (truthy(x.R) || truthy(lits[n].R)), "|| of literals")
				return
			}
			b := value("b", "bifsaom")
			notNaN(b)
			doc := record("b", b)
			t, u := truthy(x.R), truthy(b)
			sym.Assert(sym.Iff(holds(and, doc), sym.And(t, u)), "literal && operand")
			sym.Assert(sym.Iff(holds(dna, doc), sym.And(t, u)), "operand && literal")
			sym.Assert(sym.Iff(holds(or, doc), sym.Or(t, u)), "literal || operand")
			sym.Assert(sym.Iff(holds(ro, doc), sym.Or(t, u)), "operand || literal")
			sym.Assert(holds(not, doc) == !t, "! literal")
			sym.Assert(holds(nn, doc) == t, "!! literal")
			sym.Assert(holds(alone, doc) == t, "the literal alone")
		}
	}})

	// P11: the result is the one that the operation has for operands of the document
	add(H{Prop: "P11", Name: "literals", Bounds: bounds(len(lits)-3) + ", with 6 operators, the result compared with any bool, int, float64, null or string", Cases: fixed(6 * len(lits)), Setup: func(c int) (string, func()) {
		x, op := lits[c/6], []string{"+", "-", "*", "/", "%", "**"}[c%6]
		var ps, qs []jp.Path
		var want []R
		for _, y := range lits {
			if x.kind == 's' && x.s != "a" || y.kind == 's' && y.s != "a" {
				continue
			}
			ps = append(ps, truth(x.text+" "+op+" "+y.text+" === @.c"))
			qs = append(qs, truth("@.c === ("+x.text+" "+op+" "+y.text+")"))
			want = append(want, arith(op, x.R, y.R))
		}
		return x.text + " " + op, func() {
			if len(ps) == 0 {
				return
			}
			n := sym.Choose("other", len(ps))
			w := want[n]
			c := w
			if sym.Choose("observe", 2) == 1 {
				c = value("c", "nbifs")
			}
			notNaN(c)
			doc := record("c", c)
			sym.Assert(sym.Iff(holds(ps[n], doc), refEq3(w, c)), "the result of an operation on literals")
			sym.Assert(sym.Iff(holds(qs[n], doc), refEq3(w, c)), "the result of an operation on literals, in parentheses")
		}
	}})

	// P12: lists of literals
	add(H{Prop: "P12", Name: "literals", Bounds: sym.Itoa(len(lits)) + " literals, and null, any bool, string of up to 2 bytes, int (among literals that are no float64s) or float64 (among literals that are no ints), in lists of two literals", Cases: fixed(len(lits)), Setup: func(c int) (string, func()) {
		x := lits[c]
		var ps, qs, rs []jp.Path
		for _, y := range lits {
			ps = append(ps, truth("@.a in ["+x.text+", "+y.text+"]"))
			qs = append(qs, truth("@.b && "+x.text+" in ["+y.text+"]"))
			rs = append(rs, truth(x.text+" in ['z', "+y.text+", 'z']"))
		}
		return x.text, func() {
			n := sym.Choose("other", len(ps))
			y := lits[n].R
			a, b := value("a", "nbifs"), value("b", "b")
			for _, l := range []R{x.R, y} {
				// an int against a float64 is what the check above is about
				sym.Assume(a.kind != 'i' || l.kind != 'f')
				sym.Assume(a.kind != 'f' || l.kind != 'i')
			}
			doc := record("ab", a, b)
			sym.Assert(sym.Iff(holds(ps[n], doc), sym.Or(refEq(a, x.R), refEq(a, y))), "in is true exactly for the elements of the list")
			sym.Assert(sym.Iff(holds(qs[n], doc), sym.And(b.b, refEq(x.R, y))), "a literal in a list of one literal")
			sym.Assert(holds(rs[n], doc) == refEq(x.R, y), "a literal in a list of literals")
		}
	}})

	// P20: values at the ends of their ranges
	ends := []lit{i("0", 0), i("1", 1), i("-1", -1), i("2", 2), i("9223372036854775807", math.MaxInt), i("-9223372036854775807", -math.MaxInt), i("(-9223372036854775807 - 1)", math.MinInt), i("4611686018427387904", 1<<62), i("9007199254740993", 9007199254740993), i("2147483648", 1<<31), i("-2147483649", -1<<31-1),
		f("1e308", 1e308), f("-1e308", -1e308), f("5e-324", 5e-324), f("0.0", 0), f("1e18", 1e18), f("1e19", 1e19), f("-1e19", -1e19), s("9223372036854775808"), s("1e999"), s("-"), s("0x")}
	binary := binaryOps
	add(H{Prop: "P20", Name: "extremes", Bounds: sym.Itoa(len(ends)) + " values at the ends of ranges, as literals and in the document, with " + sym.Itoa(len(binary)) + " operators", Cases: fixed(2 * len(binary)), Setup: func(c int) (string, func()) {
		op, literal := binary[c/2], c%2 == 0
		if !literal {
			p := truth("@.a " + op + " @.b")
			return "@.a " + op + " @.b", func() {
				doc := record("ab", ends[sym.Choose("a", len(ends))].R, ends[sym.Choose("b", len(ends))].R)
				_, err := jp.Find(jp.MapModel{Doc: []any{doc}}, p)
				sym.Assert(err == nil, "Find returns normally")
			}
		}
		return "literal " + op + " @.b", func() {
			n, b := sym.Choose("a", len(ends)), ends[sym.Choose("b", len(ends))].R
			p := truth(ends[n].text + " " + op + " @.b")
			if sym.Choose("side", 2) == 1 {
				p = truth("@.b " + op + " " + ends[n].text)
			}
			_, err := jp.Find(jp.MapModel{Doc: []any{record("b", b)}}, p)
			sym.Assert(err == nil, "Find returns normally")
		}
	}})
	steps := []string{"[N]", "[N:]", "[:N]", "[::N]", "[N::-1]", "[:N:-1]", "[N:M]", "[M:N:-1]", "[0:M:N]", "[N,M]", "[N:,M]", "[M:0:N]", "[N:M:N]", "[N:M:M]"}
	add(H{Prop: "P20", Name: "extreme-steps", Bounds: "indexes and slices at the ends of the range, over arrays of 0 to 3 elements, after . and ..", Cases: fixed(2 * len(steps)), Setup: func(c int) (string, func()) {
		body, frame := steps[c/2], []string{"$", "$.."}[c%2]
		var ps []jp.Path
		var ns []string
		for _, e := range ends {
			if e.kind == 'i' && e.text[0] != '(' {
				ns = append(ns, e.text)
			}
		}
		ns = append(ns, "-9223372036854775808", "3", "-3")
		for _, n := range ns {
			for _, m := range ns {
				text := frame
				for j := range body {
					switch body[j] {
					case 'N':
						text += n
					case 'M':
						text += m
					default:
						text += body[j : j+1]
					}
				}
				if p, err := jp.Parse(text); err == nil {
					ps = append(ps, p)
				}
				if !strings.Contains(body, "M") {
					break
				}
			}
		}
		return frame + body, func() {
			doc := []any{}
			for j := sym.Choose("n", 4); j > 0; j-- {
				doc = append(doc, j)
			}
			r, err := jp.Find(jp.MapModel{Doc: doc}, ps[sym.Choose("bounds", len(ps))])
			sym.Assert(err == nil, "Find returns normally")
			sym.Assert(len(r) <= len(doc), "no element is selected more than once")
		}
	}})

	// P01: names that an implementation, or another language, could take for something else
	names := []string{"length", "size", "count", "len", "keys", "values", "first", "last", "min", "max", "sum", "avg", "parent", "root", "path", "index", "value", "type", "name", "key", "id", "ref", "$ref", "__proto__", "constructor", "nil", "undefined", "NaN", "Infinity", "null", "true", "false", "none",
		"*", "$", "@", ".", "..", "-", "#", "?", "?(", "~", "^", "!", "/", "\\", ":", ",", "[", "]", "[0]", "(", ")", "()", "length()", "$.a", "@.a", "a.b", "a/b", "a b", " ", "", "''", "'", "\"", "0:1", ":", "a[0]", "in", "not", "and", "or", "1.5", "1e3", "0x", "é", "\u00a0", "\ufeff", "日本", "a\x00", "\n", "%41", "~0", "~1"}
	plain := func(s string) bool {
		for j := range s {
			if (s[j] < 'a' || s[j] > 'z') && (s[j] < 'A' || s[j] > 'Z') && s[j] != '_' {
				return false
			}
		}
		return s != "" && s != "in" && s != "null" && s != "true" && s != "false" && s != "undefined"
	}
	add(H{Prop: "P01", Name: "words", Bounds: sym.Itoa(len(names)) + " names that could mean something else, in up to 8 notations, at objects that have the member or another of any name of one character, at arrays of 0 to 2 elements, and at values", Cases: fixed(len(names)), Setup: func(c int) (string, func()) {
		w := names[c]
		q := jp.MakeKeyString(w)
		texts := []string{"$[" + q + "]", "/" + q, "$." + q, "$[ " + q + " ]"}
		if plain(w) {
			texts = append(texts, "$."+w, "/"+w, "$["+w+"]")
		}
		ps := []jp.Path{jp.Append(jp.SelectRootPath, jp.KeySelectorPath(w))}
		for _, t := range texts {
			ps = append(ps, parse(t))
		}
		return quote(w), func() {
			p := ps[sym.Choose("notation", len(ps))]
			x := &T{kind: sym.IntRange("kind", 0, 2), val: any(true)}
			want := []*T{}
			other := sym.ASCII("other", 1)
			sym.Assume(other != w)
			for j := sym.Choose("n", 3); j > 0; j-- {
				k := leaf(j)
				k.parent, k.pos = x, x.n
				name := other
				if j == 1 {
					name = w
				}
				if x.kind == kObj && j == 1 {
					want = append(want, k)
				}
				x.kids, x.keys, x.n = append(x.kids, k), append(x.keys, name), x.n+1
			}
			sameSet(&Tree{root: x}, selected(&Tree{root: x}, p), want)
			sameSet(&Tree{root: x}, selectedMap(&Tree{root: x}, p), want)
		}
	}})

	// P05, P07: the same names below .. and in filters
	for _, prop := range []string{"P05", "P07"} {
		add(H{Prop: prop, Name: "words", Bounds: sym.Itoa(len(names)) + " names that could mean something else, at two levels of a document each of which is an object, an array or a value", Cases: fixed(len(names)), Setup: func(c int) (string, func()) {
			w := names[c]
			q := jp.MakeKeyString(w)
			step := rChild(w)
			texts := map[string][]string{"P05": {"$..[Q]", "$..Q", "$..W", "$.x..W"}, "P07": {"$[?(@[Q])]", "$[?(@.Q)]", "$[?(@.W)]", "$[?($.*[Q])]", "$[?(@..Q)]", "$[?(@.W == true)]", "$[?(true == @.W)]", "$[?(!@.W)]", "$[?(@.W in [true])]"}}[prop]
			refs := map[string][]stepList{"P05": {{rDeep, step}, {rDeep, step}, {rDeep, step}, {rChild("x"), rDeep, step}},
				"P07": {{exists(step)}, {exists(step)}, {exists(step)}, {onRoot(rWild, step)}, {exists(rDeep, step)}, {exists(step, rTrue)}, {exists(step, rTrue)}, {rFilter(func(x *T) bool { return len(step(x)) == 0 })}, {exists(step, rTrue)}}}[prop]
			var cases []pc
			for j, t := range texts {
				if strings.Contains(t, "W") && !plain(w) {
					continue
				}
				t = strings.ReplaceAll(strings.ReplaceAll(t, "W", w), "Q", q)
				cases = append(cases, pc{text: t, ref: refs[j]})
			}
			var ps []jp.Path
			for _, pc := range cases {
				ps = append(ps, pc.path())
			}
			return quote(w), func() {
				n := sym.Choose("path", len(ps))
				t := newTree(shape{widths: []int{2, 1}, val: func(string) any { return true }, key: func(name string, i int) string {
					if i == 0 && name != "n.k0" {
						return w
					}
					return []string{"x", "y"}[i]
				}})
				describe(t)
				sameSet(t, selected(t, ps[n]), ref(t.root, cases[n].ref...))
			}
		}})
	}

	// P19: texts that go wrong after a long way
	lead := []struct{ name, open, unit, shut string }{
		{".a ...", "$", ".a", ""}, {"[0] ...", "$", "[0]", ""}, {"lines", "$", "\n.a", ""}, {"blanks", "$", "  .a", ""}, {"['a'] ...", "$", "['a']", ""}, {"/a ...", "", "/a", ""}, {"long name", "$.", "a", ""}, {"long quoted name", "$['", "a", "']"}, {"long union", "$[0", ",1", "]"}, {"long list of operands", "$[?(@.a", " || @.a", ")]"}, {"long operand", "$[?(@ == '", "x\\\n", "')]"}, {"..a ...", "$", "..a", ""},
	}
	far := []int{1, 30, 90, 280}
	good := []string{"", ".b", "[1]", "..c", "['d']"}
	bad := []string{"[", "[0", "]", ")", "[]", "['a", ".#", "#", ".a b", "..a.", "[?(@.a]", "'", "[0:1:2:3]", "\x00", "[0]]", "&", ".a)", "[1 2]", "\n#"}
	add(H{Prop: "P19", Name: "far", Bounds: sym.Itoa(len(lead)) + " paths with 1 to 280 repetitions of a part, followed by " + sym.Itoa(len(good)) + " ends that make a path and " + sym.Itoa(len(bad)) + " that do not, or any ASCII punctuation that is no path", Cases: fixed(len(lead) * len(far)), Setup: func(c int) (string, func()) {
		l, n := lead[c%len(lead)], far[c/len(lead)]
		if l.unit == "..a" {
			n = min(n, 90)
		}
		return l.name + " " + sym.Itoa(n), func() {
			text := l.open + join(repeat(n, func(int) string { return l.unit }), "") + l.shut
			k := sym.Choose("end", len(good)+len(bad)+1)
			simple := text[0] == '/'
			switch {
			case k < len(good):
				if simple && k > 1 {
					return
				}
				if simple && k == 1 {
					text += "/b"
				} else {
					text += good[k]
				}
				_, err := jp.Parse(text)
				sym.Assert(err == nil, "a long path is accepted")
				return
			case k < len(good)+len(bad):
				text += bad[k-len(good)]
			default:
				ch := sym.ASCII("c", 1)
				sym.Assume(strings.Contains(";#%&|<>={}^`?,:\"'!", ch))
				text += ch
			}
			_, err := jp.Parse(text)
			sym.Assert(err != nil, "a text that is no path is reported, wherever it goes wrong")
		}
	}})
}

type stepList = []step

// rTrue is the node itself if it is a value; all values are true.
func rTrue(x *T) []*T {
	if x.kind == kVal {
		return []*T{x}
	}
	return nil
}
