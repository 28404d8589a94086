package props

import (
	"strings"

	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// Documents in which one node occurs at several places, results that are kept
// while other searches run, and long lists of values of different kinds.

// copyT is a copy of the tree with nodes of its own.
func copyT(x *T) *T {
	y := &T{kind: x.kind, n: x.n, keys: x.keys, val: x.val}
	for i, k := range x.kids {
		c := copyT(k)
		c.parent, c.pos = y, i
		y.kids = append(y.kids, c)
	}
	return y
}

// toShared is toAny with one map or slice for the nodes that have one T.
func toShared(x *T, made map[*T]any) any {
	if v, ok := made[x]; ok {
		return v
	}
	var v any
	switch x.kind {
	case kObj:
		m := map[string]any{}
		for i := 0; i < x.n; i++ {
			m[x.keys[i]] = toShared(x.kids[i], made)
		}
		v = m
	case kArr:
		a := []any{}
		for i := 0; i < x.n; i++ {
			a = append(a, toShared(x.kids[i], made))
		}
		v = a
	default:
		v = x.val
	}
	made[x] = v
	return v
}

func shared(prop string, paths []string) {
	add(H{Prop: prop, Name: "shared", Bounds: sym.Itoa(len(paths)) + " paths over documents of depth 3 and widths 2,2,1 of any kinds in which one node occurs at two places, against the same document with a node for each", Cases: fixed(2 * len(paths)), Setup: func(c int) (string, func()) {
		text, mm := paths[c/2], c%2 == 1
		p := parse(text)
		if mm {
			text += " (MapModel)"
		}
		return text, func() {
			t := &Tree{}
			x := shape{widths: []int{2, 1}, val: one}.node("x", 0)
			mid := &T{kind: kObj, n: 2, keys: []string{"a", "b"}, kids: []*T{x, leaf(1)}}
			switch sym.Choose("where", 4) {
			case 0:
				t.root = &T{kind: kArr, n: 2, keys: []string{"0", "1"}, kids: []*T{x, x}}
			case 1:
				t.root = &T{kind: kObj, n: 2, keys: []string{"a", "b"}, kids: []*T{x, x}}
			case 2:
				t.root = &T{kind: kArr, n: 2, keys: []string{"0", "1"}, kids: []*T{mid, x}}
			case 3:
				t.root = &T{kind: kObj, n: 2, keys: []string{"b", "a"}, kids: []*T{x, mid}}
			}
			u := &Tree{root: copyT(t.root)}
			describe(u)
			var doc jp.DocModel = t
			if mm {
				doc = jp.MapModel{Doc: toShared(t.root, map[*T]any{})}
			}
			var got []*T
			err := jp.Search(doc, p, func(dp jp.DocPath) {
				y := locate(u, dp)
				sym.Assert(y != nil, "captured location exists in the document")
				got = append(got, y)
			})
			sym.Assert(err == nil, "Search reports no error")
			want := selected(u, p)
			for _, y := range got {
				y.hits++
			}
			for _, y := range want {
				y.want++
			}
			sym.Assert(len(got) == len(want), "as many nodes are selected as if each place had its own node")
			for _, y := range want {
				sym.Assert(y.hits == y.want, "the same places are selected as if each had its own node")
			}
		}
	}})
}

func init() {
	deep, flat := []string{"$..['a','b'].*", "$..a..b", "$..*..a", "$.*..a", "$..[::2]", "$.a..*", "$..a.*", "$..*.*"}, []string{"$.*[*]", "$[*].a", "/*/*", "$.*[-1]", "$['a','b'].*", "$[0,1][*]"}
	for _, s := range searchPaths {
		if strings.Contains(s, "..") {
			deep = append(deep, s)
		} else {
			flat = append(flat, s)
		}
	}
	shared("P05", deep)
	shared("P04", flat)

	// P14: what a search returned stays
	kept := append([]string{"$.l[?(@.a == $.x)]", "$.l[?(@.a in [1, 2])].a", "$.l[0:2]", "$.l[0,1,-1]", "$.missing", "$.l[?(@.a)]", "$['x','l']"}, searchPaths...)
	add(H{Prop: "P14", Name: "kept", Bounds: sym.Itoa(len(kept)) + " paths over any tree of depth 2 and widths 2,1: what Find returned and the document paths that Search passed on are as before after each of 6 other searches of this and another document", Cases: fixed(len(kept)), Setup: func(c int) (string, func()) {
		p := parse(kept[c])
		other := []jp.Path{p, parse("$..*"), parse("$.*.*"), parse("$"), parse("$..['a','b']"), parse("$[?(@.a)]")}
		return kept[c], func() {
			t := newTree(filled(2, 1))
			u := newTree(filled(1, 2))
			describe(t)
			type place struct {
				text string
				node any
			}
			at := func(dp jp.DocPath) place {
				s := ""
				for _, x := range dp.P {
					s += "/" + x.Name + "#" + sym.Itoa(x.Index)
				}
				return place{s, dp.Last().Node}
			}
			res, err := jp.Find(t, p)
			sym.Assert(err == nil, "Find reports no error")
			was := append([]any{}, res...)
			var paths []jp.DocPath
			var places []place
			jp.Search(t, p, func(dp jp.DocPath) {
				paths, places = append(paths, dp), append(places, at(dp))
			})
			var again []any
			for i, q := range other {
				doc := u
				if i%2 == 0 {
					doc = t
				}
				r, err := jp.Find(doc, q)
				sym.Assert(err == nil, "Find reports no error")
				if i == 0 {
					again = r
				}
			}
			sym.Assert(len(again) == len(was) && len(res) == len(was), "the results are as many as before")
			for i := range was {
				sym.Assert(res[i] == was[i] && again[i] == was[i], "results that were returned stay as they are")
			}
			for i := range res {
				res[i] = nil
			}
			for i := range again {
				sym.Assert(again[i] == was[i], "results are not shared between searches")
			}
			for i, dp := range paths {
				sym.Assert(at(dp) == places[i], "document paths that were passed on stay as they are")
			}
		}
	}})

	// P12: long lists of values of any kinds
	fill := []struct {
		name string
		at   func(i int) R
	}{
		{"ints", func(i int) R { return R{kind: 'i', i: 3 * i} }},
		{"floats", func(i int) R { return R{kind: 'f', f: float64(i) + 0.5} }},
		{"strings", func(i int) R { return R{kind: 's', s: "s" + sym.Itoa(i)} }},
		{"everything", func(i int) R {
			switch i % 5 {
			case 0:
				return R{kind: 'i', i: i}
			case 1:
				return R{kind: 's', s: sym.Itoa(i)}
			case 2:
				return R{kind: 'f', f: float64(i)}
			case 3:
				return R{kind: 'n'}
			}
			return R{kind: 'b', b: true}
		}},
	}
	sizes := []int{3, 6, 17, 40}
	add(H{Prop: "P12", Name: "long-any", Bounds: "lists of 3, 6, 17 and 40 ints, floats, strings or everything, literal and of the document, one of them and the operand null, any bool, int, float64 or string of up to 2 bytes (an int met by floats: 0 to 6)", Cases: fixed(2 * len(fill) * len(sizes)), Setup: func(c int) (string, func()) {
		f, n, lit := fill[c/2%len(fill)], sizes[c/2/len(fill)], c%2 == 0
		at := n * 3 / 4
		text := "$[?(@.x in @.l)]"
		if lit {
			text = "$[?(@.x in [" + join(repeat(n, func(i int) string {
				if i == at {
					return "@.y"
				}
				switch v := f.at(i); v.kind {
				case 'i':
					return sym.Itoa(v.i)
				case 'f':
					return sym.Itoa(int(2*v.f)/2) + "." + []string{"0", "5"}[int(2*v.f)%2]
				case 's':
					return "'" + v.s + "'"
				case 'b':
					return "true"
				}
				return "null"
			}), ", ") + "])]"
		}
		p := parse(text)
		return text, func() {
			x, y := value("x", "nbifs"), value("y", "nbifs")
			if x.kind == 'i' && (y.kind == 'f' || f.name == "floats" || f.name == "everything") {
				sym.Assume(x.i >= 0 && x.i <= 6)
				x.i = sym.ConcreteInt(x.i)
			}
			if x.kind == 'f' && y.kind == 'i' {
				sym.Assume(y.i >= 0 && y.i <= 6)
				y.i = sym.ConcreteInt(y.i)
			}
			l := []any{}
			in := false
			for i := 0; i < n; i++ {
				v := f.at(i)
				if i == at {
					v = y
				}
				l = append(l, v.any())
				in = sym.Or(in, refEq(x, v))
			}
			sym.Assert(sym.Iff(holds(p, map[string]any{"x": x.any(), "y": y.any(), "l": l}), in), "in is true exactly for the elements")
		}
	}})

	// P22: any nodes, names and types
	add(H{Prop: "P22", Name: "any-segment", Bounds: "Key, Index, Push and Pop on paths of up to 2 segments, with any names of up to 3 characters, any indexes and types, and nodes null, any bool, int, float64, string, array, object or node of another model", Cases: fixed(4), Setup: func(c int) (string, func()) {
		return []string{"Key", "Index", "Push", "Pop"}[c], func() {
			seg := func(n string) jp.Segment {
				s := jp.Segment{Type: jp.NodeType(sym.Int(n + ".type")), Index: sym.Int(n + ".index"), Name: sym.ASCII(n+".name", sym.Choose(n+".len", 4))}
				if k := sym.Choose(n+".model", 2); k == 1 {
					s.Node = leaf(1)
				} else {
					s.Node = value(n, "nbifsao").any()
				}
				return s
			}
			n := sym.Choose("n", 2)
			if c == 3 {
				n++
			}
			dp := jp.DocPath{}
			var model []jp.Segment
			for i := 0; i < n; i++ {
				model = append(model, seg("s"+sym.Itoa(i)))
				dp = dp.Push(model[i])
			}
			old, s := dp, seg("new")
			switch c {
			case 0:
				s.Index = 0
				dp = dp.Key(s.Name, s.Node, s.Type)
			case 1:
				s.Name = ""
				dp = dp.Index(s.Index, s.Node, s.Type)
			case 2:
				dp = dp.Push(s)
			case 3:
				dp, model = dp.Pop(), model[:n-1]
			}
			if c < 3 {
				model = append(model, s)
				sameSegment(dp.Last(), s)
			}
			sym.Assert(old.Len() == n, "the operand is unchanged")
			sym.Assert(dp.Len() == len(model), "Len is the number of segments")
			for i := range model {
				sameSegment(dp.P[i], model[i])
			}
		}
	}})

	// P21: Go values that are neither maps nor slices of any
	type text string
	type object map[string]any
	type array []any
	foreign := []struct {
		name string
		val  any
	}{
		{"[]string", []string{"a", "b"}}, {"[]int", []int{1, 2}}, {"[]byte", []byte("ab")}, {"[2]any", [2]any{1, 2}}, {"[]map[string]any", []map[string]any{{"a": 1}}}, {"map[string]string", map[string]string{"a": "b"}}, {"map[any]any", map[any]any{"a": 1}}, {"map[int]any", map[int]any{0: 1}},
		{"struct", struct{ a, b int }{1, 2}}, {"*struct", &struct{ a int }{1}}, {"*map", &map[string]any{"a": 1}}, {"*[]any", &[]any{1}}, {"named string", text("a")}, {"named map", object{"a": 1}}, {"named slice", array{1, 2}},
		{"int64", int64(3)}, {"uint8", uint8(3)}, {"float32", float32(3)}, {"rune", 'x'}, {"complex", complex(1, 2)}, {"error", errEmpty{}}, {"func", func() {}}, {"Segment", jp.Segment{Name: "a"}}, {"MapModel", jp.MapModel{Doc: []any{1}}},
	}
	below := []string{"$.x.a", "$.x[0]", "$.x[-1]", "$.x.*", "$.x[*]", "$.x[0:1]", "$.x[::-1]", "$.x['a','b']", "$.x[0,1]", "$.x..*", "$.x..a", "$.x..[0]", "/x/a", "/x/*", "/x/0", "$.x['0']", "$.x[?(@)]", "$.x..[?(@)]", "$.l[?(@.a)]", "$.l[?(@[0])]", "$.l[?(@..a)]", "$.l[?(@.*)]", "$..a", "$.*.a", "$.*.*.a"}
	at := []string{"$.x", "$['x']", "/x", "$..x", "$.l[0]", "$.l[-1]", "$.l[0:1]", "$.l.*", "$.l[0,0]", "$['x','l'][0]"}
	add(H{Prop: "P21", Name: "other-types", Bounds: "24 Go values that are neither map[string]any nor []any, as a member and an element of a MapModel document: type, keys, members and value, 25 paths that lead below them and 10 that lead to them", Cases: fixed(len(foreign)), Setup: func(c int) (string, func()) {
		v := foreign[c].val
		return foreign[c].name, func() {
			doc := map[string]any{"x": v, "l": []any{v}}
			m := jp.MapModel{Doc: doc}
			sym.Assert(m.Type(v) == jp.ValueNode, "another Go value is a value node")
			k := anyKey("key", 0)
			_, ok := m.Key(v, k)
			sym.Assert(!ok && len(m.Keys(v)) == 0, "a value has no members")
			find := func(p string) []any {
				r, err := jp.ParseAndFind(m, p)
				sym.Assert(err == nil, "the path is valid")
				return r
			}
			switch n := sym.Choose("path", len(below)+len(at)); {
			case n < len(below):
				sym.Assert(len(find(below[n])) == 0, "nothing is selected below a value")
			default:
				sym.Assert(len(find(at[n-len(below)])) >= 1, "the value itself is selected")
			}
		}
	}})
}

type errEmpty struct{}

func (errEmpty) Error() string { return "empty" }
