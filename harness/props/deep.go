package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// Deep instances: documents and expressions nested further than a stack, a
// buffer or a guard in an implementation could expect.

// rAbyss is rDeep without recursion; the order is by depth.
func rAbyss(x *T) []*T {
	out := []*T{x}
	for i := 0; i < len(out); i++ {
		out = append(out, kids(out[i])...)
	}
	return out
}

// twig hangs another value below x.
func twig(x *T, key string) {
	k := leaf(nil)
	k.parent, k.pos = x, x.n
	x.kids, x.keys, x.n = append(x.kids, k), append(x.keys, key), x.n+1
}

// around is n times open, text, and m times shut.
func around(open string, n int, text, shut string, m int) string {
	return join(repeat(n, func(int) string { return open }), "") + text + join(repeat(m, func(int) string { return shut }), "")
}

func init() {
	depths := []int{5, 9, 17, 33, 65, 129, 257}
	abyss := []pc{
		{text: "$..a", ref: []step{rAbyss, rChild("a")}},
		{text: "$..*", ref: []step{rAbyss, rWild}},
		{text: "$..[0]", ref: []step{rAbyss, rIndex(0)}, digits: true},
		{text: "$..['a',-1]", ref: []step{rAbyss, rUnion(rChild("a"), rIndex(-1))}, digits: true},
		{text: "$.a..a", ref: []step{rChild("a"), rAbyss, rChild("a")}},
		{text: "$..[?(@.a)]", ref: []step{rAbyss, exists(rChild("a"))}},
		{text: "$[?(@..b)]", ref: []step{exists(rAbyss, rChild("b"))}},
		{text: "$..[::-1]", ref: []step{rAbyss, func(x *T) []*T {
			if isArr(x) {
				return kids(x)
			}
			return nil
		}}},
	}
	add(H{Prop: "P05", Name: "abyss", Bounds: "8 paths over chains of 5 to 257 nested objects and arrays, one of the uppermost 2 and one of the lowest 2 of any kind and with any key, a value beside the chain at each of them and half way", Cases: fixed(len(abyss) * len(depths)), Setup: func(c int) (string, func()) {
		pc, d := abyss[c%len(abyss)], depths[c/len(abyss)]
		p := parse(pc.text)
		return pc.text + " at depth " + sym.Itoa(d), func() {
			hi, lo := sym.Choose("upper", 2), d-1-sym.Choose("lower", 2)
			t := &Tree{root: linear(d,
				func(i int) int {
					if i == hi || i == lo {
						return sym.IntRange("kind", 1, 2)
					}
					return 1 + i%2
				},
				func(i int) string {
					if i == hi || i == lo {
						k := sym.ASCII("key", 1)
						sym.Assume(!pc.digits || k[0] < '0' || k[0] > '9')
						return k
					}
					return "a"
				})}
			x := t.root
			for i := 0; i < d; i++ {
				if i == hi || i == lo || i == d/2 {
					sym.Assume(x.keys[0] != "b")
					twig(x, "b")
				}
				x = x.kids[0]
			}
			sameSet(t, selected(t, p), ref(t.root, pc.ref...))
		}
	}})

	// P07: filters in filters
	const nest = 7
	inner := []pc{
		{text: "@.a", ref: []step{rChild("a")}},
		{text: "@[0]", ref: []step{rIndex(0)}},
		{text: "@.*", ref: []step{rWild}},
		{text: "$.a"},
		{text: "$[-1]"},
		{text: "$..b"},
	}
	add(H{Prop: "P07", Name: "nested", Bounds: "1 to " + sym.Itoa(nest) + " filters in each other, the innermost for a child of its element or a node below the root, over chains as deep, the upper 3 and lower 3 nodes of any kind and with the key a or b", Cases: fixed(len(inner) * nest), Setup: func(c int) (string, func()) {
		in, n := inner[c%len(inner)], 1+c/len(inner)
		text := "$" + around("[?(@", n-1, "[?("+in.text+")]", ")]", n-1)
		p := parse(text)
		return text, func() {
			d := n + 1
			t := &Tree{root: linear(d,
				func(i int) int {
					if i < 3 || i >= d-3 {
						return sym.IntRange("kind", 1, 2)
					}
					return 1 + i%2
				},
				func(i int) string {
					if i < 3 || i >= d-3 {
						return string([]byte{byte(sym.RuneIn("key", "ab"))})
					}
					return "a"
				})}
			describe(t)
			var hit []*T
			switch in.text {
			case "$.a":
				hit = rChild("a")(t.root)
			case "$[-1]":
				hit = rIndex(-1)(t.root)
			case "$..b":
				hit = ref(t.root, rAbyss, rChild("b"))
			default:
				x := t.root
				for i := 0; i < n; i++ {
					x = x.kids[0]
				}
				hit = ref(x, in.ref...)
			}
			var want []*T
			if len(hit) > 0 {
				want = kids(t.root)
			}
			both(t, p, want)
		}
	}})

	// P02: large arrays
	large := []int{17, 33, 63, 64, 65, 100, 127, 128, 129, 256, 257}
	add(H{Prop: "P02", Name: "large", Bounds: "IndexSelectorPath of any int, and $[i] for the 5 indexes about either end and the middle; arrays of " + sym.Itoa(large[0]) + " to 257 elements, over MapModel and another model", Cases: fixed(2 * len(large)), Setup: func(c int) (string, func()) {
		n := large[c/2]
		desc := sym.Itoa(n) + " elements"
		return desc, func() {
			l := make([]any, n)
			a := &T{kind: kArr, n: n}
			for i := range l {
				l[i] = i
				a.kids, a.keys = append(a.kids, &T{val: i, parent: a, pos: i}), append(a.keys, "")
			}
			var at int
			var p jp.Path
			if c%2 == 0 {
				at = sym.Int("i")
				p = jp.Append(jp.SelectRootPath, jp.IndexSelectorPath(at))
			} else {
				k := sym.Choose("i", 15)
				at = []int{0, n / 2, n - 1, -1 - n/2, -n}[k/3] + k%3 - 1
				p = parse("$[" + sym.Itoa(at) + "]")
			}
			want := at
			if want < 0 {
				want += n
			}
			in := sym.And(want >= 0, want < n)
			if sym.Choose("model", 2) == 0 {
				got := selected(&Tree{root: a}, p)
				sym.Assert(sym.Iff(in, len(got) == 1), "the index selects one element if there is such a one")
				for _, x := range got {
					sym.Assert(x.pos == want, "the index selects the addressed element")
				}
				return
			}
			got, err := jp.Find(jp.MapModel{Doc: l}, p)
			sym.Assert(err == nil, "Find reports no error")
			sym.Assert(sym.Iff(in, len(got) == 1), "the index selects one element if there is such a one")
			for _, x := range got {
				sym.Assert(x.(int) == want, "the index selects the addressed element")
			}
		}
	}})

	// P19: balanced nesting
	type nesting struct{ pre, open, text, shut, post string }
	nestings := []nesting{
		{"$[?(", "(", "@.a", ")", ")]"},
		{"$[?(1 == ", "(", "2", ")", ")]"},
		{"$[?(", "[", "@.a", "]", ")]"},
		{"$[?(@", "[?(@", ".a", ")]", ")]"},
		{"$..[?(", "(((", "$[0]", ")))", " == 1)]"},
		{"$[?(", "length(", "@.a", ")", ")]"},
		{"$[?(", "(!(", "@.a", "))", ")]"},
	}
	levels := []int{1, 2, 4, 8, 12, 17}
	add(H{Prop: "P19", Name: "nesting", Bounds: "7 kinds of parentheses and brackets 1 to 17 deep (filters in filters: 5), with one closed too few, none, or one too many, and one any ASCII character for the innermost of them", Cases: fixed(len(nestings) * len(levels)), Setup: func(c int) (string, func()) {
		k, n := nestings[c%len(nestings)], levels[c/len(nestings)]
		if len(k.open) > 2 && k.open != "length(" {
			n = min(n, c/len(nestings)+1, 5) // the parser takes 2^n of filters in filters
		}
		return k.pre + k.open + k.text + k.shut + k.post + " " + sym.Itoa(n) + " deep", func() {
			m := sym.Choose("shut", 3) - 1
			if sym.Choose("swap", 2) == 1 {
				// another bracket instead of the innermost one
				ch := sym.ASCII("char", 1)
				sym.Assume(ch == ")" || ch == "]" || ch == "(" || ch == "[" || ch == "}" || ch == ">")
				sym.Assume(ch != k.shut[:1])
				_, err := jp.Parse(k.pre + around(k.open, n, k.text, "", 0) + ch + k.shut[1:] + around("", 0, "", k.shut, n-1) + k.post)
				sym.Assert(err != nil, "the brackets do not match: no path")
				return
			}
			_, err := jp.Parse(k.pre + around(k.open, n, k.text, k.shut, n+m) + k.post)
			sym.Assert((err == nil) == (m == 0), "a path exactly if all that is open is closed")
		}
	}})

	// P21: empty containers that are nil are empty containers
	all := pathsOf()
	add(H{Prop: "P21", Name: "nil-empties", Bounds: sym.Itoa(len(all)) + " paths made of steps of every kind, over any tree of depth 2 and width 1 under MapModel, its empty containers nil or not", Cases: fixed(len(all)), Setup: func(c int) (string, func()) {
		p := parse(all[c].text)
		return all[c].text, func() {
			t := newTree(filled(1, 1))
			describe(t)
			var got []*T
			err := jp.Search(jp.MapModel{Doc: toNil(t.root)}, p, func(dp jp.DocPath) {
				x := locate(t, dp)
				sym.Assert(x != nil, "captured location exists in the document")
				sym.Assert(int(dp.Last().Type) == x.kind, "the type of the node is reported")
				got = append(got, x)
			})
			sym.Assert(err == nil, "Search reports no error")
			want := selectedMap(t, p)
			sym.Assert(len(got) == len(want), "nil containers select as many nodes as empty ones")
			for i := range want {
				sym.Assert(got[i] == want[i], "nil containers select the same nodes as empty ones")
			}
		}
	}})

	// P24: many blanks
	add(H{Prop: "P24", Name: "long", Bounds: "9 paths with 1 to 65 blanks at every place, each any one of two kinds of blank", Cases: fixed(9 * 4), Setup: func(c int) (string, func()) {
		form := []string{"$_._a_._b_", "$_[_'a'_]_[_0_,_1_]_", "$_.._*_", "$[_?(@_._a_==_@_._b)_]_", "/a_/_b_", "$[?(@_._a)]", "$[?(-_@.a_<_(3))]", "$[?(@.a_&&_!_@.b)]", "$[?(length(@.a)_>_0)]"}[c/4]
		n := []int{1, 8, 17, 65}[c%4]
		plain, gap := "", ""
		return form + " " + sym.Itoa(n) + " blanks", func() {
			kinds := []string{" \t", "\n\r"}[sym.Choose("kinds", 2)]
			ch := string([]byte{byte(sym.RuneIn("blank", kinds))})
			gap = ""
			for i := 0; i < n; i++ {
				if i == n/2 {
					gap += ch
				} else {
					gap += kinds[i%2 : i%2+1]
				}
			}
			plain = ""
			text := ""
			for i := range form {
				if form[i] == '_' {
					text += gap
				} else {
					text += form[i : i+1]
					plain += form[i : i+1]
				}
			}
			p, err := jp.Parse(text)
			sym.Assert(err == nil, "the path is valid")
			q, err := jp.Parse(plain)
			sym.Assert(err == nil, "the path is valid")
			for _, doc := range []any{
				map[string]any{"a": map[string]any{"b": 1}},
				map[string]any{"a": []any{1, 2, 3}},
				[]any{map[string]any{"a": 1, "b": 1}, map[string]any{"a": []any{}}, map[string]any{"a": true, "b": false}, map[string]any{"a": 7}},
			} {
				x, _ := jp.Find(jp.MapModel{Doc: doc}, p)
				y, _ := jp.Find(jp.MapModel{Doc: doc}, q)
				sym.Assert(len(x) == len(y), "blanks do not change what is selected")
			}
		}
	}})
}

// toNil is toAny with nil for empty containers, chosen for each kind.
func toNil(x *T) any {
	switch x.kind {
	case kObj:
		var m map[string]any
		for i := 0; i < x.n; i++ {
			if m == nil {
				m = map[string]any{}
			}
			m[x.keys[i]] = toNil(x.kids[i])
		}
		return m
	case kArr:
		var a []any
		for i := 0; i < x.n; i++ {
			a = append(a, toNil(x.kids[i]))
		}
		return a
	}
	return x.val
}
