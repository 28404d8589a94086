package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// faithful asserts that dp is the chain of nodes from the root to its last one.
func faithful(t *Tree, dp jp.DocPath) {
	sym.Assert(dp.Len() > 0 && dp.Len() == len(dp.P), "the path has a segment for each node")
	sym.Assert(dp.P[0].Node == any(t.root), "the path starts at the document root")
	for i := range dp.P {
		x, ok := dp.P[i].Node.(*T)
		sym.Assert(ok, "each segment has a document node")
		sym.Assert(int(dp.P[i].Type) == x.kind, "each segment has the type of its node")
		if i == 0 {
			continue
		}
		up := dp.P[i-1].Node.(*T)
		sym.Assert(x.parent == up, "each segment is a child of the one before")
		if up.kind == kObj {
			sym.Assert(dp.P[i].Name == up.keys[x.pos], "a segment below an object has the member name")
		} else {
			sym.Assert(dp.P[i].Index == x.pos, "a segment below an array has the index")
		}
	}
	last := dp.Last()
	sym.Assert(last.Node == dp.P[len(dp.P)-1].Node, "Last is the last segment")
}

// faithfulMap does the same over MapModel, by content.
func faithfulMap(m jp.MapModel, dp jp.DocPath) {
	cur := m.Doc
	for i, seg := range dp.P {
		if i > 0 {
			switch up := cur.(type) {
			case map[string]any:
				next, ok := up[seg.Name]
				sym.Assert(ok, "a segment below an object has the name of a member")
				cur = next
			case []any:
				sym.Assert(seg.Index >= 0 && seg.Index < len(up), "a segment below an array has the index of an element")
				cur = up[seg.Index]
			default:
				sym.Assert(false, "each segment is a child of the one before")
			}
		}
		sym.Assert(sym.Same(seg.Node, cur), "each segment has the node that its name or index addresses")
		sym.Assert(seg.Type == m.Type(cur), "each segment has the type of its node")
	}
}

// captures checks what Search and Find report of p over t.
func captures(t *Tree, p jp.Path) {
	describe(t)
	var nodes []any
	var paths []jp.DocPath
	err := jp.Search(t, p, func(dp jp.DocPath) {
		faithful(t, dp)
		nodes = append(nodes, dp.Last().Node)
		paths = append(paths, dp)
	})
	sym.Assert(err == nil, "Search reports no error")
	found, err := jp.Find(t, p)
	sym.Assert(err == nil, "Find reports no error")
	sym.Assert(len(found) == len(nodes), "Find and Search select as many nodes")
	for i := range found {
		sym.Assert(found[i] == nodes[i], "Find returns the nodes Search captures")
	}
	// the captured paths still hold after the search
	for i, dp := range paths {
		faithful(t, dp)
		sym.Assert(dp.Last().Node == nodes[i], "a captured path still ends at its node")
	}
}

// mapCaptures does the same over MapModel.
func mapCaptures(t *Tree, p jp.Path) {
	describe(t)
	m := jp.MapModel{Doc: toAny(t.root)}
	var nodes []any
	var paths []jp.DocPath
	err := jp.Search(m, p, func(dp jp.DocPath) {
		faithfulMap(m, dp)
		nodes = append(nodes, dp.Last().Node)
		paths = append(paths, dp)
	})
	sym.Assert(err == nil, "Search reports no error")
	for i, dp := range paths {
		faithfulMap(m, dp)
		sym.Assert(sym.Same(dp.Last().Node, nodes[i]), "a captured path still ends at its node")
	}
	found, err := jp.Find(m, p)
	sym.Assert(err == nil, "Find reports no error")
	sym.Assert(len(found) == len(nodes), "Find and Search select as many nodes")
}

var searchPaths = []string{
	"$", "$.a", "$.*", "$.a.b", "$.*.*", "$.*.a", "$..*", "$..", "$..a", "$..a.b", "$..[0]", "$[0]", "$[-1]", "$[0:2]", "$[::-1]", "$.a[1:]", "$[0,1]", "$['a','b']",
	"$..['a','b']", "$[?(@.a)]", "$..[?(@.a)]", "$[?(@..a)]", "$[?(@[0])].a", "$.*[0].b", "$.a..*", "$[*][*]", "/a", "/*/1", "/a/b", "$..[0:1]", "$..[::-1]", "$[?($.a)]", "$[?(@.*)]", "$.a.*[?(@)]",
	"$.*[?($.a)]", "$..[?($.a)]", "$.*[?($..a)]", "$.*.*[?($.a.b)]", "$.a[?(@.b == $.b)]", "$.*[?(length($.*) > 0)]", "$.*[?(@[?($.b)])]", "$..a[?($[0])].b",
}

func init() {
	size := func(tier int, q, th []int) shape {
		if tier > 0 {
			return shape{widths: th}
		}
		return shape{widths: q}
	}
	tiered := fixed

	add(H{Prop: "P13", Name: "docpath", Bounds: sym.Itoa(len(searchPaths)) + " paths over any tree of depth 3 and widths 2,2,1 (MapModel: 2,1,1; thorough 2,2,2 and 2,2,1)", Cases: tiered(2 * len(searchPaths)), Setup: func(c int) (string, func()) {
		text := searchPaths[c/2]
		p := parse(text)
		if c%2 == 0 {
			return text, func() {
				captures(newTree(size(sym.Tier(), []int{2, 2, 1}, []int{2, 2, 2})), p)
			}
		}
		return text + " (MapModel)", func() {
			mapCaptures(newTree(size(sym.Tier(), []int{2, 1, 1}, []int{2, 2, 1})), p)
		}
	}})

	// P14: purity
	purity := []string{"$.a", "$.*", "$..*", "$..a", "$[0]", "$[0:2]", "$['a','b']", "$[?(@.a)]", "$[?($.a)]", "$..[?(@.b)]", "$.*.a", "$..[0]", "$[?(@..b)]", "$.a..*"}
	add(H{Prop: "P14", Name: "repeat", Bounds: "14 paths; two arbitrary trees of depth 2 and width 2, searched in turn, with a search inside a capture", Cases: fixed(len(purity)), Setup: func(c int) (string, func()) {
		p := parse(purity[c])
		q := parse("$.*")
		return purity[c], func() {
			t := newTree(shape{widths: []int{2, 2}})
			u := newTree(shape{widths: []int{1, 1}})
			describe(t)
			first := selected(t, p)
			selected(u, p) // another document
			selected(t, q) // another path
			var nested []*T
			jp.Search(t, p, func(dp jp.DocPath) {
				nested = append(nested, dp.Last().Node.(*T))
				if len(nested) == 1 {
					sym.Assert(len(selected(t, p)) == len(first), "a search inside a capture selects the same")
				}
			})
			again := selected(t, p)
			sym.Assert(len(nested) == len(first) && len(again) == len(first), "every search selects as many nodes")
			for i := range first {
				sym.Assert(first[i] == nested[i] && first[i] == again[i], "every search selects the same nodes")
			}
		}
	}})
	add(H{Prop: "P14", Name: "document", Bounds: sym.Itoa(len(searchPaths)) + " paths over any MapModel document of depth 2 and widths 2,1", Cases: fixed(len(searchPaths)), Setup: func(c int) (string, func()) {
		p := parse(searchPaths[c])
		return searchPaths[c], func() {
			t := newTree(shape{widths: []int{2, 1}, val: func(n string) any { return sym.Int(n) }})
			describe(t)
			doc := toAny(t.root)
			_, err := jp.Find(jp.MapModel{Doc: doc}, p)
			sym.Assert(err == nil, "Find reports no error")
			unchanged(t.root, doc)
		}
	}})
	add(H{Prop: "P14", Name: "parse", Bounds: "the compiled path of one text is not affected by parsing or combining others; any tree of depth 2 and width 2", Cases: fixed(len(purity)), Setup: func(c int) (string, func()) {
		p := parse(purity[c])
		before := jp.Append(p)
		for _, o := range purity {
			q := parse(o)
			jp.RecursiveDescent(q)
			jp.RecursiveDescent(p)
			jp.Append(p, q)
			jp.Append(p, q, q)
			jp.Append(jp.SelectRootPath, q)
		}
		jp.RecursiveDescent(jp.SelectRootPath)
		jp.RecursiveDescent(jp.WildcardPath)
		fresh := parse(purity[c])
		return purity[c], func() {
			t := newTree(shape{widths: []int{2, 2}})
			describe(t)
			x, y, z := selected(t, p), selected(t, fresh), selected(t, before)
			sym.Assert(len(x) == len(y) && len(x) == len(z), "the path selects as many nodes as before")
			for i := range x {
				sym.Assert(x[i] == y[i] && x[i] == z[i], "the path selects the same nodes as before")
			}
			sameList(selected(t, jp.SelectRootPath), []*T{t.root})
			sameList(selected(t, jp.Append(jp.SelectRootPath, jp.WildcardPath)), kids(t.root))
		}
	}})

	// P15: composition
	type comp struct {
		desc  string
		built func() jp.Path
		text  string
	}
	root, wild := jp.SelectRootPath, jp.WildcardPath
	key, ix, rd, ap := jp.KeySelectorPath, jp.IndexSelectorPath, jp.RecursiveDescent, jp.Append
	comps := []comp{
		{"Append(root, key a)", func() jp.Path { return ap(root, key("a")) }, "$.a"},
		{"Append(root, key a, key b)", func() jp.Path { return ap(root, key("a"), key("b")) }, "$.a.b"},
		{"Append(Append(root, key a), key b)", func() jp.Path { return ap(ap(root, key("a")), key("b")) }, "$.a.b"},
		{"Append(root, Append(key a, key b))", func() jp.Path { return ap(root, ap(key("a"), key("b"))) }, "$.a.b"},
		{"Append(root, wildcard)", func() jp.Path { return ap(root, wild) }, "$.*"},
		{"Append(root, wildcard, key a)", func() jp.Path { return ap(root, wild, key("a")) }, "$.*.a"},
		{"Append(root, index 1)", func() jp.Path { return ap(root, ix(1)) }, "$[1]"},
		{"Append(root, key a, index -1)", func() jp.Path { return ap(root, key("a"), ix(-1)) }, "$.a[-1]"},
		{"Append(RecursiveDescent(root), key a)", func() jp.Path { return ap(rd(root), key("a")) }, "$..a"},
		{"Append(RecursiveDescent(root), wildcard)", func() jp.Path { return ap(rd(root), wild) }, "$..*"},
		{"Append(RecursiveDescent(Append(root, key a)), key b)", func() jp.Path { return ap(rd(ap(root, key("a"))), key("b")) }, "$.a..b"},
		{"Append(root, RecursiveDescent(key a), key b)", func() jp.Path { return ap(root, rd(key("a")), key("b")) }, "$.a..b"},
		{"Append($.a, key b)", func() jp.Path { return ap(parse("$.a"), key("b")) }, "$.a.b"},
		{"Append($.*, index 0)", func() jp.Path { return ap(parse("$.*"), ix(0)) }, "$.*[0]"},
		{"Append($..*, key a)", func() jp.Path { return ap(parse("$..*"), key("a")) }, "$..*.a"},
		{"Append(/a, key b)", func() jp.Path { return ap(parse("/a"), key("b")) }, "$.a.b"},
		{"RecursiveDescent does not change its argument", func() jp.Path { p := parse("$.a"); rd(p); return ap(p, key("b")) }, "$.a.b"},
		{"Append does not change its arguments", func() jp.Path {
			p := ap(root, key("a"))
			ap(p, key("c"))
			q := ap(p, key("b"))
			ap(p, key("c"))
			return q
		}, "$.a.b"},
	}
	add(H{Prop: "P15", Name: "compose", Bounds: "18 built paths against their parsed text over any tree of depth 3 and widths 2,2,1 (thorough 2,2,2)", Cases: tiered(len(comps)), Setup: func(c int) (string, func()) {
		b, p := comps[c].built(), parse(comps[c].text)
		return comps[c].desc + " = " + comps[c].text, func() {
			t := newTree(size(sym.Tier(), []int{2, 2, 1}, []int{2, 2, 2}))
			describe(t)
			x, y := selected(t, b), selected(t, p)
			sameSet(t, x, dedup(y))
			sameSet(t, y, dedup(x))
		}
	}})
	// appending selects below what the first part selects
	firsts := []string{"$", "$.a", "$.*", "$[0]", "$..a", "$['a','b']", "$[?(@.a)]", "$[0:2]"}
	type second struct {
		desc string
		p    func() jp.Path
		s    step
	}
	seconds := []second{
		{"key a", func() jp.Path { return key("a") }, rChild("a")},
		{"index 0", func() jp.Path { return ix(0) }, rIndex(0)},
		{"wildcard", func() jp.Path { return wild }, rWild},
	}
	add(H{Prop: "P15", Name: "append", Bounds: "8 paths followed by a key, an index or the wildcard, over any tree of depth 3 and widths 2,1,1", Cases: fixed(len(firsts) * len(seconds)), Setup: func(c int) (string, func()) {
		f, s := firsts[c/len(seconds)], seconds[c%len(seconds)]
		p := parse(f)
		q := jp.Append(p, s.p())
		return "Append(" + f + ", " + s.desc + ")", func() {
			t := newTree(shape{widths: []int{2, 1, 1}})
			describe(t)
			var want []*T
			for _, x := range selected(t, p) {
				want = append(want, s.s(x)...)
			}
			sameSet(t, selected(t, q), want)
		}
	}})

	// P22: DocPath operations
	add(H{Prop: "P22", Name: "docpath-ops", Bounds: "any names, indexes, values and types; paths of up to 4 (thorough 6) segments built by any sequence of Key, Index, Push and Pop", Cases: tiered(1), Setup: func(c int) (string, func()) {
		return "operations", func() {
			var model []jp.Segment
			dp := jp.DocPath{}
			steps := 4
			if sym.Tier() > 0 {
				steps = 6
			}
			for i := 0; i < steps; i++ {
				op := sym.Choose("op", 4)
				if op == 3 && len(model) == 0 {
					op = 0
				}
				v := sym.Int("v")
				ty := jp.NodeType(sym.IntRange("t", 0, 2))
				old, before := dp, append([]jp.Segment(nil), model...)
				switch op {
				case 0:
					name := sym.ASCII("name", 1)
					dp = dp.Key(name, v, ty)
					model = append(model, jp.Segment{Node: v, Type: ty, Name: name})
				case 1:
					ix := sym.Int("ix")
					dp = dp.Index(ix, v, ty)
					model = append(model, jp.Segment{Node: v, Type: ty, Index: ix})
				case 2:
					s := jp.Segment{Node: v, Type: ty, Name: sym.ASCII("name", 1), Index: sym.Int("ix")}
					dp = dp.Push(s)
					model = append(model, s)
				case 3:
					dp = dp.Pop()
					model = model[:len(model)-1]
				}
				sym.Assert(dp.Len() == len(model), "Len is the number of segments")
				for j := range model {
					sameSegment(dp.P[j], model[j])
				}
				if len(model) > 0 {
					sameSegment(dp.Last(), model[len(model)-1])
				}
				sym.Assert(old.Len() == len(before), "the operand is unchanged")
				for j := range before {
					sameSegment(old.P[j], before[j])
				}
			}
		}
	}})
}

func sameSegment(x, y jp.Segment) {
	sym.Assert(sym.Same(x.Node, y.Node), "a segment keeps its node")
	sym.Assert(x.Type == y.Type, "a segment keeps its type")
	sym.Assert(x.Name == y.Name, "a segment keeps its name")
	sym.Assert(x.Index == y.Index, "a segment keeps its index")
}

func dedup(l []*T) []*T {
	var out []*T
	for _, x := range l {
		if !has(out, x) {
			out = append(out, x)
		}
	}
	return out
}

// unchanged asserts that doc is still what x describes.
func unchanged(x *T, doc any) {
	switch x.kind {
	case kObj:
		m, ok := doc.(map[string]any)
		sym.Assert(ok && len(m) == x.n, "the document is unchanged")
		for i := 0; i < x.n; i++ {
			v, ok := m[x.keys[i]]
			sym.Assert(ok, "the document is unchanged")
			unchanged(x.kids[i], v)
		}
	case kArr:
		a, ok := doc.([]any)
		sym.Assert(ok && len(a) == x.n, "the document is unchanged")
		for i := 0; i < x.n; i++ {
			unchanged(x.kids[i], a[i])
		}
	default:
		sym.Assert(sym.Same(x.val, doc), "the document is unchanged")
	}
}
