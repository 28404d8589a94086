package props

import (
	"math"

	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// A cursor is a DocModel whose nodes are made anew at every access, and can be
// compared neither by == nor as map keys.
type cursor struct{ t *Tree }

type cnode []*T

func (c cursor) wrap(x *T) any          { return cnode{x} }
func (c cursor) Root() any              { return c.wrap(c.t.root) }
func (c cursor) Type(n any) jp.NodeType { return c.t.Type(n.(cnode)[0]) }
func (c cursor) Len(n any) int          { return c.t.Len(n.(cnode)[0]) }
func (c cursor) Keys(n any) []string    { return c.t.Keys(n.(cnode)[0]) }
func (c cursor) Elem(n any, i int) any {
	if x, ok := c.t.Elem(n.(cnode)[0], i).(*T); ok {
		return c.wrap(x)
	}
	return nil
}
func (c cursor) Value(n any) any { return c.t.Value(n.(cnode)[0]) }
func (c cursor) Key(n any, k string) (any, bool) {
	x, ok := c.t.Key(n.(cnode)[0], k)
	if !ok {
		return nil, false
	}
	return c.wrap(x.(*T)), true
}

// linear is a document of depth containers, one in the other; kind(i) is the
// kind of the i-th, key(i) the name of its member.
func linear(depth int, kind func(i int) int, key func(i int) string) *T {
	x := leaf(nil)
	for i := depth - 1; i >= 0; i-- {
		up := &T{kind: kind(i), n: 1, kids: []*T{x}, keys: []string{key(i)}}
		x.parent = up
		x = up
	}
	return x
}

func init() {
	tiered := fixed
	all := pathsOf()
	sized := func(q, th []int) shape {
		if sym.Tier() > 0 {
			return filled(th...)
		}
		return filled(q...)
	}
	s := sym.Itoa(len(all))

	add(H{Prop: "P13", Name: "docpath-any", Bounds: s + " paths made of steps of every kind, over any tree of depth 2 and width 2 (MapModel 2,1; thorough: 2,2,1 and 2,2)", Cases: tiered(2 * len(all)), Setup: func(c int) (string, func()) {
		p := parse(all[c/2].text)
		if c%2 == 0 {
			return all[c/2].text, func() { captures(newTree(sized([]int{2, 2}, []int{2, 2, 1})), p) }
		}
		return all[c/2].text + " (MapModel)", func() { mapCaptures(newTree(sized([]int{2, 1}, []int{2, 2})), p) }
	}})
	// documents deeper than any buffer: the paths are still the right ones
	depths := []int{3, 4, 5, 7, 8, 9, 16, 17, 33, 65, 126, 127, 128, 129, 130, 257}
	add(H{Prop: "P13", Name: "docpath-deep", Bounds: "$..*, $..a, $..[0] and $..[?(@.a)] over chains of 3 to 257 nested objects and arrays, one of the uppermost 2 and one of the lowest 2 of any kind and with any key", Cases: fixed(4 * len(depths)), Setup: func(c int) (string, func()) {
		text := []string{"$..*", "$..a", "$..[0]", "$..[?(@.a)]"}[c%4]
		d := depths[c/4]
		p := parse(text)
		return text + " at depth " + sym.Itoa(d), func() {
			hi, lo := sym.Choose("upper", 2), d-1-sym.Choose("lower", 2)
			t := &Tree{root: linear(d,
				func(i int) int {
					if i == hi || i == lo {
						return sym.IntRange("kind", 1, 2)
					}
					return 1 + i%2
				},
				func(i int) string {
					if i == hi || i == lo {
						return sym.ASCII("key", 1)
					}
					return "a"
				})}
			captures(t, p)
		}
	}})

	// ParseAndFind is Parse and Find
	warmUp("P13", texts(all)...)
	bad := []string{"", "$.", "$[", "$['a", "$..[", "$[?(@.a]", "/", "a b", "$[1:2:3:4]", "$.a]", "/a/", "$[?(@.a ==)]", "$[?(1 2)]"}
	add(H{Prop: "P13", Name: "parse-and-find", Bounds: s + " paths made of steps of every kind and " + sym.Itoa(len(bad)) + " texts that are no paths, over any tree of depth 2 and width 1", Cases: fixed(len(all) + len(bad)), Setup: func(c int) (string, func()) {
		var text string
		if c < len(all) {
			text = all[c].text
		} else {
			text = bad[c-len(all)]
		}
		return text, func() {
			t := newTree(filled(1, 1))
			describe(t)
			got, err := jp.ParseAndFind(t, text)
			p, perr := jp.Parse(text)
			sym.Assert((err != nil) == (perr != nil), "ParseAndFind reports the errors of Parse")
			if err != nil {
				sym.Assert(len(got) == 0, "ParseAndFind finds nothing if the text is no path")
				return
			}
			want, err := jp.Find(t, p)
			sym.Assert(err == nil, "Find reports no error")
			sym.Assert(len(got) == len(want), "ParseAndFind finds what Find finds")
			for i := range want {
				sym.Assert(got[i] == want[i], "ParseAndFind finds what Find finds")
			}
		}
	}})

	// P05: however deep
	deep := []pc{
		{text: "$..a", ref: []step{rDeep, rChild("a")}},
		{text: "$..*", ref: []step{rDeep, rWild}},
		{text: "$..", ref: []step{rDeep, rWild}},
		{text: "$..[0]", ref: []step{rDeep, rIndex(0)}},
		{text: "$..[-1]", ref: []step{rDeep, rIndex(-1)}},
		{text: "$..['a',0]", ref: []step{rDeep, rUnion(rChild("a"), rIndex(0))}},
		{text: "$.a..a", ref: []step{rChild("a"), rDeep, rChild("a")}},
		{text: "$..a[0]", ref: []step{rDeep, rChild("a"), rIndex(0)}},
		{text: "$..[?(@.a)]", ref: []step{rDeep, exists(rChild("a"))}},
		{text: "$..a..[0]", ref: []step{rDeep, rChild("a"), rDeep, rIndex(0)}, set: true},
		{text: "$[?(@..b)]", ref: []step{exists(rDeep, rChild("b"))}},
	}
	add(H{Prop: "P05", Name: "deep", Bounds: "11 paths over chains of 4, 6 and 8 nested containers, each any of an object with the member a or b, and an array, with two other values beside the chain", Cases: fixed(3 * len(deep)), Setup: func(c int) (string, func()) {
		pc, d := deep[c/3], 4+2*(c%3)
		p := parse(pc.text)
		return pc.text + " at depth " + sym.Itoa(d), func() {
			t := &Tree{root: linear(d,
				func(i int) int { return sym.IntRange("kind", 1, 2) },
				func(i int) string {
					if i%2 == 0 {
						return "a"
					}
					return string([]byte{byte(sym.RuneIn("key", "ab"))})
				})}
			// values beside the chain, half way
			mid := t.root
			for i := 0; i < d/2; i++ {
				mid = mid.kids[0]
			}
			for i, k := range []string{"b", "c"} {
				x := leaf(nil)
				x.parent, x.pos = mid, i+1
				mid.kids, mid.keys, mid.n = append(mid.kids, x), append(mid.keys, k), mid.n+1
			}
			sym.Assume(mid.keys[0] != "b")
			describe(t)
			got, want := selected(t, p), ref(t.root, pc.ref...)
			if pc.set {
				got = dedup(got)
			}
			sameSet(t, got, want)
		}
	}})

	// P20: no panic
	add(H{Prop: "P20", Name: "robust-any", Bounds: s + " paths made of steps of every kind, over any tree of depth 2 and widths 2,1 of null values under a model that makes its nodes anew and does not allow to compare them; thorough: depth 3 and widths 2,2,1", Cases: tiered(len(all)), Setup: func(c int) (string, func()) {
		p := parse(all[c].text)
		return all[c].text, func() {
			t := newTree(shape{widths: sized([]int{2, 1}, []int{2, 2, 1}).widths})
			t.strict = true
			describe(t)
			n := 0
			jp.Search(cursor{t}, p, func(dp jp.DocPath) { n++ })
			r, _ := jp.Find(cursor{t}, p)
			sym.Assert(len(r) == n, "Find and Search select as many nodes")
		}
	}})
	odd := func() []any {
		return []any{nil, false, 0, -1, 1.5, math.NaN(), "", "x", "1", []any{}, []any{1}, []any{nil, []any{}}, map[string]any{}, map[string]any{"a": 1}, int64(5), float32(1.5), uint8(3), []string{"a"}, map[string]int{"a": 1}, oddStruct{1}, &oddStruct{2}, (*int)(nil), []any(nil), map[string]any(nil), []byte("x"), 'r', func() {}, complex(1, 2)}
	}
	exprs := []string{
		"@.a == @.b", "@.a != @.b", "@.a === @.b", "@.a !== @.b", "@.a < @.b", "@.a <= @.b", "@.a > @.b", "@.a >= @.b", "@.a && @.b", "@.a || @.b", "!@.a", "-@.a", "+@.a", "@.a + @.b", "@.a - @.b", "@.a * @.b", "@.a / @.b", "@.a % @.b", "@.a ** @.b",
		"@.a in @.b", "@.a in [@.b]", "[@.a] in [@.b]", "[@.a] == [@.b]", "[@.a] === @.b", "[@.a] + @.b", "-[@.a]", "![@.a]", "length(@.a)", "@.a.length()", "length(@.a, @.b)", "[@.a,@.b].length()", "length([@.a]) == @.b", "@[@.a]", "@[@.a:@.b]", "@[::@.a]", "@.a[@.b]", "@['a',@.b]", "@.*", "@.* == @.a", "-(@.a == @.b)", "(@.a < @.b) + 1",
	}
	add(H{Prop: "P20", Name: "robust-operands", Bounds: sym.Itoa(len(exprs)) + " expressions over every two of 28 values: scalars, containers, nil pointers, functions and values of other Go types", Cases: fixed(len(exprs)), Setup: func(c int) (string, func()) {
		p, err := jp.Parse("$[?(" + exprs[c] + ")]")
		return exprs[c], func() {
			if err != nil {
				sym.Assert(true, "Parse returned")
				return
			}
			l := odd()
			a, b := l[sym.Choose("a", len(l))], l[sym.Choose("b", len(l))]
			jp.Find(jp.MapModel{Doc: []any{map[string]any{"a": a, "b": b}, []any{a, b}}}, p)
			sym.Assert(true, "Find returned")
		}
	}})

	// P21: another model, whose nodes have no identity
	add(H{Prop: "P21", Name: "models-agree-paths", Bounds: s + " paths made of steps of every kind, over any tree of depth 2 and width 2 (thorough: 2,2,1) under three models: MapModel, nodes with identity, and nodes made anew at every access", Cases: tiered(len(all)), Setup: func(c int) (string, func()) {
		p := parse(all[c].text)
		return all[c].text, func() {
			t := newTree(sized([]int{2, 2}, []int{2, 2, 1}))
			describe(t)
			want := selected(t, p)
			var got []*T
			err := jp.Search(cursor{t}, p, func(dp jp.DocPath) { got = append(got, dp.Last().Node.(cnode)[0]) })
			sym.Assert(err == nil, "Search reports no error")
			sym.Assert(len(got) == len(want), "both models select as many nodes")
			for i := range want {
				sym.Assert(got[i] == want[i], "both models select the same nodes")
			}
			got = selectedMap(t, p)
			sym.Assert(len(got) == len(want), "both models select as many nodes")
			for _, x := range want {
				x.want++
			}
			for _, x := range got {
				x.hits++
			}
			for _, x := range want {
				sym.Assert(x.want == x.hits, "both models select the same nodes")
			}
		}
	}})

	// P26: any path can be shared
	add(H{Prop: "P26", Name: "concurrent-any", Bounds: s + " paths made of steps of every kind, each used by two goroutines to search any tree of depth 2 and widths 2,1", Cases: fixed(len(all)), Setup: func(c int) (string, func()) {
		p := parse(all[c].text)
		return all[c].text, func() {
			t := newTree(shape{widths: []int{2, 1}, val: one})
			runs := make([][]any, 2)
			sym.Shared("two searches with one path write to the same memory", func(i int) {
				runs[i], _ = jp.Find(t, p)
			}, p, t)
			want, err := jp.Find(t, p)
			sym.Assert(err == nil, "Find reports no error")
			for _, r := range runs {
				sym.Assert(len(r) == len(want), "concurrent searches select as many nodes")
				for i := range want {
					sym.Assert(r[i] == want[i], "concurrent searches select the same nodes")
				}
			}
		}
	}})

	// P02, P03: wide arrays
	wide := 16
	forms := []string{"$[I]", "$.v[I]", "$..v[I]", "$.*[I]", "/v/I", "$.v[I,I]", "$[?(@[I])]", "IndexSelectorPath"}
	add(H{Prop: "P02", Name: "wide", Bounds: "8 notations of every index from -18 to 18; arrays of 0 to 16 elements", Cases: fixed(len(forms)), Setup: func(c int) (string, func()) {
		f := forms[c]
		return f, func() {
			i := sym.Choose("index", 2*wide+5) - wide - 2
			if i < 0 && f == "/v/I" {
				i = -i
			}
			a := array("v", 0, wide, func(i int) *T { return leaf(i + 1) })
			var p jp.Path
			text := ""
			for j := range f {
				if f[j] == 'I' && f != "IndexSelectorPath" {
					text += sym.Itoa(i)
				} else {
					text += f[j : j+1]
				}
			}
			t := &Tree{root: obj([]string{"v"}, a)}
			switch f {
			case "IndexSelectorPath":
				t.root = a
				p = jp.Append(jp.SelectRootPath, jp.IndexSelectorPath(i))
			case "$[I]":
				t.root = a
				fallthrough
			default:
				p = parse(text)
			}
			if f == "$[?(@[I])]" {
				in := wantIndex(i, a.n)
				any := false
				for j := 0; j < wide; j++ {
					any = sym.Or(any, sym.And(j < a.n, in(j)))
				}
				sym.Assert(sym.Iff(any, len(selected(t, p)) == 1), "the index selects exactly the addressed element")
				return
			}
			selects(selected(t, p), a, wantIndex(i, a.n))
		}
	}})
	var bounds []sliceRef
	for _, st := range []int{none, -16, -9, -2, 0, 8, 15, 17} {
		for _, en := range []int{none, -17, -10, -1, 0, 7, 11, 16, 18} {
			for _, by := range []int{none, 1, 3, 5, 10, -1, -2, -7, -16} {
				bounds = append(bounds, sliceRef{st, en, by, st != none, en != none, by != none})
			}
		}
	}
	add(H{Prop: "P03", Name: "wide", Bounds: sym.Itoa(len(bounds)) + " slices as text; arrays of 0 to 16 elements", Cases: fixed(len(bounds)), Setup: func(c int) (string, func()) {
		b := bounds[c]
		text := "$["
		if b.hasStart {
			text += sym.Itoa(b.start)
		}
		text += ":"
		if b.hasEnd {
			text += sym.Itoa(b.end)
		}
		if b.hasStep {
			text += ":" + sym.Itoa(b.step)
		}
		p := parse(text + "]")
		return text + "]", func() {
			a := array("v", 0, wide, leaves)
			got := selected(&Tree{root: a}, p)
			selects(got, a, b.want(a.n, wide))
			for i := 1; i < len(got); i++ {
				sym.Assert(got[i].pos > got[i-1].pos == (!b.hasStep || b.step > 0), "the elements come in the order of the step")
			}
		}
	}})

	// P04: wildcards after each other and below each other
	two := func(q, m, th, thm []int) func(int) (shape, shape) {
		return func(tier int) (shape, shape) {
			if tier > 0 {
				return filled(th...), filled(thm...)
			}
			return filled(q...), filled(m...)
		}
	}
	structural("P04", "wildcards", "wildcards in every notation after each other; any tree of depth 4 and widths 2,1,1,1 (MapModel: 1,1,1,1)", two([]int{2, 1, 1, 1}, []int{1, 1, 1, 1}, []int{2, 2, 1, 1}, []int{2, 1, 1, 1}), []pc{
		{text: "$.*.*.*", ref: []step{rWild, rWild, rWild}, ordered: true}, {text: "$.*.*.*.*", ref: []step{rWild, rWild, rWild, rWild}, ordered: true}, {text: "$[*][*][*]", ref: []step{rWild, rWild, rWild}, ordered: true}, {text: "/*/*/*", ref: []step{rWild, rWild, rWild}, ordered: true}, {text: "$.*[*].*[*]", ref: []step{rWild, rWild, rWild, rWild}, ordered: true}, {text: "/*/*/*/*", ref: []step{rWild, rWild, rWild, rWild}, ordered: true},
		{text: "$[*,*][*,*]", ref: []step{rWild, rWild}, ordered: true}, {text: "$.*.*.a", ref: []step{rWild, rWild, rChild("a")}, ordered: true}, {text: "$.a.*.*", ref: []step{rChild("a"), rWild, rWild}, ordered: true}, {text: "$.*..*", ref: []step{rWild, rDeep, rWild}}, {text: "$.*[0].*", ref: []step{rWild, rIndex(0), rWild}, ordered: true},
		{text: "Append(root, wildcard, wildcard, wildcard)", build: func() jp.Path { return jp.Append(jp.SelectRootPath, jp.WildcardPath, jp.WildcardPath, jp.WildcardPath) }, ref: []step{rWild, rWild, rWild}, ordered: true},
	})
	add(H{Prop: "P04", Name: "wide", Bounds: "wildcards over objects of any keys and arrays of 0 to 9 children, in 6 notations", Cases: fixed(6), Setup: func(c int) (string, func()) {
		text := []string{"$.*", "$[*]", "/*", "$[*,0]", "$..*", "$[?(@)]"}[c]
		p := parse(text)
		return text, func() {
			t := newTree(shape{widths: []int{9}, val: one})
			describe(t)
			sameList(selected(t, p), kids(t.root))
			got := selectedMap(t, p)
			sameSet(t, got, kids(t.root))
		}
	}})

	anyKeys := func(name string, i int) string { return sym.ASCII(name, sym.Choose(name+".len", 3)) }
	add(H{Prop: "P04", Name: "any-keys", Bounds: "wildcards in 6 notations, over objects of up to 3 members of any names of up to 2 ASCII characters; MapModel and another model", Cases: fixed(6), Setup: func(c int) (string, func()) {
		text := []string{"$.*", "$[*]", "/*", "$[*,*]", "$..*", "$[?(@ || !@)]"}[c]
		p := parse(text)
		return text, func() {
			t := newTree(shape{widths: []int{3}, key: anyKeys, val: one, kind: func(string, int) int { return kObj }})
			describe(t)
			sameList(selected(t, p), kids(t.root))
			sameSet(t, selectedMap(t, p), kids(t.root))
		}
	}})
	many := []int{16, 31, 33, 40, 64, 65, 100, 129, 257}
	add(H{Prop: "P21", Name: "mapmodel-wide", Bounds: "MapModel over objects and arrays of 0 to 12 children, and of 16, 31, 33, 40, 64, 65, 100, 129 and 257, one member of which has any name of up to 2 ASCII characters; looked up by any name of up to 2 characters", Cases: fixed(13 + len(many)), Setup: func(n int) (string, func()) {
		if n > 12 {
			n = many[n-13]
		}
		return sym.Itoa(n) + " children", func() {
			if sym.Choose("kind", 2) == 0 {
				var doc any
				arr := make([]any, n)
				for i := range arr {
					arr[i] = i
				}
				doc = arr
				m := jp.MapModel{Doc: doc}
				sym.Assert(m.Type(doc) == jp.ArrayNode && m.Len(doc) == n, "Len is the number of elements")
				for i := range arr {
					sym.Assert(sym.Same(m.Elem(doc, i), i), "Elem returns the element")
				}
				return
			}
			obj := map[string]any{}
			var names []string
			for i := 0; i < n; i++ {
				k := "key" + sym.Itoa(i)
				if i == n/2 {
					k = anyKeys("k", 0)
				}
				names = append(names, k)
				obj[k] = i
			}
			var doc any = obj
			m := jp.MapModel{Doc: doc}
			sym.Assert(m.Type(doc) == jp.ObjectNode && m.Len(doc) == n, "Len is the number of members")
			keys := m.Keys(doc)
			sym.Assert(len(keys) == n, "Keys has every key once")
			for i, k := range names {
				found := 0
				for _, x := range keys {
					if x == k {
						found++
					}
				}
				sym.Assert(found == 1, "Keys has every key once")
				v, ok := m.Key(doc, k)
				sym.Assert(ok && sym.Same(v, i), "Key returns the member")
			}
			k := anyKeys("other", 0)
			in := false
			for _, x := range names {
				in = in || x == k
			}
			_, ok := m.Key(doc, k)
			sym.Assert(ok == in, "Key tells whether there is such a member")
		}
	}})

	// P23: every way to call length
	type call struct {
		text string
		n    func(n int) int
	}
	same := func(n int) int { return n }
	lit := func(k int) func(int) int { return func(int) int { return k } }
	calls := []call{
		{"[1,2].length()", lit(2)}, {"([1,2]).length()", lit(2)}, {"[1,[2,3]].length()", lit(2)}, {"length([1,[2,3],4])", lit(3)}, {"length([@.a])", lit(1)}, {"[@.a,@.a].length()", lit(2)}, {"length([[]])", lit(1)}, {"length(([1,2]))", lit(2)}, {"length([@.a,@.x])", lit(2)},
		{"length((@.a))", same}, {"(@.a).length()", same}, {"length(@..a)", same}, {"length(@.'a')", same}, {"length($.*.a)", same}, {"length($[0]['a'])", same}, {"$.*.a.length()", same}, {"length(@.a[0])", func(int) int { return 0 }}, {"length(@.a) - 0", same}, {"-length(@.a) * -1", same}, {"@.a.length() + length(@.x)", same}, {"length(@.a) + @.a.length()", func(n int) int { return 2 * n }}, {"length(@.x.y.z)", lit(0)}, {"length(@[5])", lit(0)}, {"length(@.x) + 3", lit(3)},
	}
	add(H{Prop: "P23", Name: "length-any", Bounds: sym.Itoa(len(calls)) + " calls of length on literals and paths, over arrays of 0..5 elements compared with any int; MapModel and another model", Cases: fixed(len(calls)), Setup: func(c int) (string, func()) {
		f := calls[c]
		p := parse("$[?(" + f.text + " === @.n)]")
		return f.text, func() {
			a := array("v", 0, 5, leaves)
			n := sym.Int("n")
			e := obj([]string{"a", "n"}, a, leaf(n))
			r := &T{kind: kArr, n: 1, kids: []*T{e}}
			e.parent = r
			t := &Tree{root: r}
			want := sym.IteInt(n == f.n(a.n), 1, 0)
			if sym.Choose("model", 2) == 0 {
				sym.Assert(len(selected(t, p)) == want, "length is the number of elements")
				return
			}
			x, err := jp.Find(jp.MapModel{Doc: toAny(t.root)}, p)
			sym.Assert(err == nil, "Find reports no error")
			sym.Assert(len(x) == want, "length is the number of elements")
		}
	}})
}
