package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// A pstep is one step as it is written in a path, and what it selects.
type pstep struct {
	text string // after $ or another step
	deep string // after ..
	ref  step
	// the step comes out in document order
	ordered bool
}

func br(body string, ref step) pstep {
	return pstep{text: "[" + body + "]", deep: "[" + body + "]", ref: ref, ordered: true}
}

// rSlice is a slice with given bounds; none omits one.
const none = 1 << 20

func rSlice(start, end, by int) step {
	s := sliceRef{start: start, end: end, step: by, hasStart: start != none, hasEnd: end != none, hasStep: by != none}
	return func(x *T) []*T {
		if !isArr(x) {
			return nil
		}
		var out []*T
		n := sym.ConcreteInt(x.n)
		want := s.want(n, n)
		for i := 0; i < n; i++ {
			if want(i) {
				out = append(out, x.kids[i])
			}
		}
		return out
	}
}

func exists(s ...step) step {
	return rFilter(func(x *T) bool { return len(ref(x, s...)) != 0 })
}

// onRoot is a filter that is true for all children or none, as a path from the
// root selects something.
func onRoot(s ...step) step {
	return func(x *T) []*T {
		r := x
		for r.parent != nil {
			r = r.parent
		}
		if len(ref(r, s...)) != 0 {
			return kids(x)
		}
		return nil
	}
}

// basics are the elementary steps; their bodies are also the parts of unions.
func basics() []struct {
	body string
	ref  step
} {
	type b = struct {
		body string
		ref  step
	}
	a, bb := rChild("a"), rChild("b")
	return []b{
		{"'a'", a}, {`"b"`, bb}, {"0", rIndex(0)}, {"1", rIndex(1)}, {"-1", rIndex(-1)}, {"-2", rIndex(-2)}, {"*", rWild},
		{"0:1", rSlice(0, 1, none)}, {"1:", rSlice(1, none, none)}, {":-1", rSlice(none, -1, none)}, {"::2", rSlice(none, none, 2)}, {"::-1", rSlice(none, none, -1)}, {"-1:0:-1", rSlice(-1, 0, -1)},
		{"?(@.a)", exists(a)}, {"?(@[0])", exists(rIndex(0))}, {"?(!@.b)", rFilter(func(x *T) bool { return len(bb(x)) == 0 })}, {"?($.a)", onRoot(a)}, {"?(@[-1])", exists(rIndex(-1))},
	}
}

// psteps is the palette: every kind of step.
func psteps() []pstep {
	a, b := rChild("a"), rChild("b")
	out := []pstep{
		{".a", "a", a, true}, {".'b'", "'b'", b, true}, {".*", "*", rWild, true}, br("a", a),
	}
	for _, p := range basics() {
		s := br(p.body, p.ref)
		s.ordered = p.body != "::-1" && p.body != "-1:0:-1"
		out = append(out, s)
	}
	return append(out,
		br("'a','b'", rUnion(a, b)), br("0,-1", rUnion(rIndex(0), rIndex(-1))), br("1:,'a'", rUnion(rSlice(1, none, none), a)), br("?(@.a),0", rUnion(exists(a), rIndex(0))),
		br("'b',?(@[0])", rUnion(b, exists(rIndex(0)))), br("?(@.*)", exists(rWild)), br("?(@..a)", exists(rDeep, a)), br("?(@[?(@.a)])", exists(exists(a))), br("?(@)", rWild), br("?(@[0:1])", exists(rIndex(0))))
}

// few are the steps that combinations are made of.
func few() []pstep {
	var out []pstep
	for _, s := range psteps() {
		switch s.text {
		case ".a", ".*", "[0]", "[-1]", "[1:]", "[::-1]", "['a','b']", "[0,-1]", "[?(@.a)]", "[?(@[0])]":
			out = append(out, s)
		}
	}
	return out
}

func texts(l []pc) []string {
	var out []string
	for _, p := range l {
		out = append(out, p.text)
	}
	return out
}

// pathsOf is a list of paths of every kind: all single steps, all single steps
// below .., and pairs of steps with and without .. between them.
func pathsOf() []pc {
	l := []pc{{text: "$", ordered: true}, {text: "$..", ref: []step{rDeep, rWild}}}
	for _, s := range psteps() {
		l = append(l, pc{text: "$" + s.text, ref: []step{s.ref}, ordered: s.ordered}, pc{text: "$.." + s.deep, ref: []step{rDeep, s.ref}})
	}
	for _, s := range few() {
		for _, t := range few() {
			l = append(l, pc{text: "$" + s.text + t.text, ref: []step{s.ref, t.ref}}, pc{text: "$" + s.text + ".." + t.deep, ref: []step{s.ref, rDeep, t.ref}})
		}
	}
	return l
}

func filled(widths ...int) shape { return shape{widths: widths, val: one} }

func init() {
	pal, some := psteps(), few()
	two := func(q, m, th, thm []int) func(int) (shape, shape) {
		return func(tier int) (shape, shape) {
			if tier > 0 {
				return filled(th...), filled(thm...)
			}
			return filled(q...), filled(m...)
		}
	}
	// steps after steps, of any kind: P01, P04 and P07 in all positions
	var chains []pc
	for _, s := range pal {
		for _, t := range some {
			chains = append(chains, pc{text: "$" + s.text + t.text, ref: []step{s.ref, t.ref}})
		}
	}
	pick := func(l []pc, in func(text string) bool) []pc {
		var out []pc
		for _, p := range l {
			if in(p.text) {
				out = append(out, p)
			}
		}
		return out
	}
	contains := func(s, sub string) bool {
		for i := 0; i+len(sub) <= len(s); i++ {
			if s[i:i+len(sub)] == sub {
				return true
			}
		}
		return false
	}
	tail := func(suffix string) func(string) bool {
		return func(s string) bool { return len(s) >= len(suffix) && s[len(s)-len(suffix):] == suffix }
	}
	two221 := two([]int{2, 2}, []int{2, 1}, []int{2, 2, 1}, []int{2, 2})
	structural("P01", "child-after", "a key step after any of 32 steps; any tree of depth 2 and width 2", two221, pick(chains, tail(".a")))
	structural("P02", "index-after", "an index step after any of 32 steps; any tree of depth 2 and width 2", two221, pick(chains, func(s string) bool { return tail("[0]")(s) || tail("[-1]")(s) }))
	structural("P03", "slice-after", "a slice after any of 32 steps; any tree of depth 2 and width 2", two221, pick(chains, func(s string) bool { return tail("[1:]")(s) || tail("[::-1]")(s) }))
	structural("P04", "wildcard-after", "a wildcard after any of 32 steps; any tree of depth 2 and width 2", two221, pick(chains, tail(".*")))
	structural("P07", "filter-after", "a filter after any of 32 steps; any tree of depth 3 and widths 2,1,1", two([]int{2, 1, 1}, []int{1, 1, 1}, []int{2, 2, 1}, []int{2, 1, 1}), pick(chains, func(s string) bool { return contains(s, "?(") }))

	// P05: .. before any step, after any step, with steps behind, and twice
	var deeps []pc
	for _, s := range pal {
		deeps = append(deeps, pc{text: "$.." + s.deep, ref: []step{rDeep, s.ref}})
	}
	for _, s := range some {
		deeps = append(deeps, pc{text: "$" + s.text + "..", ref: []step{s.ref, rDeep, rWild}})
		for _, t := range some {
			deeps = append(deeps,
				pc{text: "$" + s.text + ".." + t.deep, ref: []step{s.ref, rDeep, t.ref}},
				pc{text: "$.." + s.deep + t.text, ref: []step{rDeep, s.ref, t.ref}},
				pc{text: "$.." + s.deep + ".." + t.deep, ref: []step{rDeep, s.ref, rDeep, t.ref}, set: true})
		}
	}
	structural("P05", "descend-any", sym.Itoa(len(deeps))+" combinations of .. with steps of every kind; any tree of depth 3 and widths 2,1,1", two([]int{2, 1, 1}, []int{1, 1, 1}, []int{2, 2, 1}, []int{2, 1, 1}), deeps)

	// P06: unions of any two parts
	var unions []pc
	parts := basics()
	for _, s := range parts {
		for _, t := range parts {
			unions = append(unions, pc{text: "$[" + s.body + "," + t.body + "]", ref: []step{rUnion(s.ref, t.ref)}, ordered: true})
		}
	}
	structural("P06", "union-pairs", "unions of any two of 18 parts, in either order; any tree of depth 2 and widths 3,1", two([]int{3, 1}, []int{2, 1}, []int{3, 2}, []int{3, 1}), unions)
	unions = nil
	for i, s := range parts {
		for j, t := range parts {
			k := (5*i + 7*j + 3) % len(parts)
			u := parts[k]
			in := s.body + "," + t.body + "," + u.body
			r := rUnion(s.ref, t.ref, u.ref)
			switch (i + j) % 4 {
			case 0:
				unions = append(unions, pc{text: "$[" + in + "]", ref: []step{r}, ordered: true})
			case 1:
				unions = append(unions, pc{text: "$..[" + in + "]", ref: []step{rDeep, r}})
			case 2:
				unions = append(unions, pc{text: "$.*[" + in + "]", ref: []step{rWild, r}, ordered: true})
			case 3:
				unions = append(unions, pc{text: "$[" + in + "].a", ref: []step{r, rChild("a")}, ordered: true})
			}
		}
	}
	structural("P06", "union-places", "324 unions of three parts, after .., after a wildcard, and before a key; any tree of depth 2 and widths 2,2", two([]int{2, 2}, []int{2, 1}, []int{3, 2}, []int{3, 1}), unions)

	// P07: filters on paths of every kind, from @ and from $
	var filters []pc
	for _, s := range pal {
		filters = append(filters,
			pc{text: "$[?(@" + s.text + ")]", ref: []step{exists(s.ref)}, ordered: true},
			pc{text: "$.*[?(@.." + s.deep + ")]", ref: []step{rWild, exists(rDeep, s.ref)}, ordered: true},
			pc{text: "$.*[?($" + s.text + ")]", ref: []step{rWild, onRoot(s.ref)}, ordered: true},
			pc{text: "$[?(@[?(@" + s.text + ")])]", ref: []step{exists(exists(s.ref))}, ordered: true},
			pc{text: "$..[?(!@" + s.text + ")]", ref: []step{rDeep, rFilter(func(x *T) bool { return len(s.ref(x)) == 0 })}})
	}
	structural("P07", "filter-any", "filters on each of 32 steps from @, from $, below .., negated and nested; any tree of depth 3 and widths 2,1,1", two([]int{2, 1, 1}, []int{1, 1, 1}, []int{2, 2, 1}, []int{2, 1, 1}), filters)

	// any key: the text of a key step, after .. and in unions
	add(H{Prop: "P01", Name: "child-any", Bounds: "any key of up to 2 ASCII characters (no integer, quote, backslash or line break) in 8 notations; objects with that and any other member, arrays and values", Cases: fixed(8), Setup: func(c int) (string, func()) {
		form := []string{"$['K']", `$["K"]`, "$.'K'", `/"K"`, "KeySelectorPath(K)", "$..['K']", "$['K','K']", "$.*.'K'"}[c]
		return form, func() {
			k := sym.ASCII("k", sym.Choose("k.len", 3))
			numeric := len(k) > 0
			for i := range k {
				ch := k[i]
				sym.Assume(sym.Not(sym.Or(sym.Or(ch == '\'', ch == '"'), sym.Or(ch == '\\', sym.Or(ch == '\n', ch == '\r')))))
				sign := sym.And(sym.Or(ch == '-', ch == '+'), i == 0 && len(k) > 1)
				numeric = sym.And(numeric, sym.Or(sym.And(ch >= '0', ch <= '9'), sign))
			}
			sym.Assume(sym.Not(numeric))
			var p jp.Path
			if c == 4 {
				p = jp.Append(jp.SelectRootPath, jp.KeySelectorPath(k))
			} else {
				text := ""
				for i := range form {
					if form[i] == 'K' {
						text += k
					} else {
						text += form[i : i+1]
					}
				}
				var err error
				p, err = jp.Parse(text)
				sym.Assert(err == nil, "the path is valid")
			}
			other := sym.ASCII("other", sym.Choose("other.len", 3))
			sym.Assume(other != k)
			want := leaf(nil)
			var root *T
			switch sym.Choose("doc", 4) {
			case 0:
				root = obj([]string{other, k}, leaf(1), want)
			case 1:
				root = obj([]string{other}, leaf(1))
				want = nil
			case 2:
				root = array("v", 0, 2, leaves)
				want = nil
			case 3:
				root = leaf(k)
				want = nil
			}
			if c == 7 {
				root = obj([]string{"x"}, root)
			}
			var exp []*T
			if want != nil {
				exp = []*T{want}
			}
			sameList(selected(&Tree{root: root}, p), exp)
			m := jp.MapModel{Doc: toAny(root)}
			r, err := jp.Find(m, p)
			sym.Assert(err == nil, "Find reports no error")
			sym.Assert(len(r) == len(exp), "MapModel selects the same")
		}
	}})
}
