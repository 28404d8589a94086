package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// Paths with everything that an implementation could keep between two searches:
// operands that do not depend on the current node, literals, lists, calls,
// bounds of slices, selectors made by the builder functions.

// stateful lists filter expressions over the document {"x": any, "l": [{"a": any}]}
func stateful() []string {
	var out []string
	ops := []string{"==", "!=", "===", "!==", "<", "<=", ">", ">=", "in", "&&", "||", "+", "-", "*", "/", "%", "**"}
	for _, o := range ops {
		out = append(out, "@.a "+o+" $.x", "$.x "+o+" @.a", "$.x "+o+" 2", "2 "+o+" $.x")
	}
	return append(out,
		"$.x", "!$.x", "-$.x", "+$.x", "!(-$.x)", "!!$.x", "$.x && $.l", "$.y", "!$.y", "$..x", "$.l[0].a", "$.l[-1].a == $.x", "$..a == $.x", "$['x','y']", "$.*", "$[?(@ == 1)]", "@[?($.x)]", "$.l[?(@.a == $.x)]",
		"@.a in [$.x]", "@.a in [1, $.x, 3]", "@.a in [$.x, @.a]", "$.x in [@.a]", "$.x in $.l", "@.a in $.l[0]", "[$.x] == 1", "[$.x, 1]", "2 in [1, $.x]", "@.a in [[$.x]]", "1 in [1, 2]", "@.a in [1, 2]", "@.a in [-1, 'x', null, true]", "(@.a in [$.x]) == true",
		"length($.l)", "length($.x)", "length($.x) == 1", "length([$.x])", "$.l.length() == 1", "$.x.length()", "length($.l) == $.x", "length(@.a) == $.x", "@.a.length() == $.x", "length(@) == $.x", "length($..a) == $.x",
		"@.a == 1", "@.a == 'x'", "@.a + 1 == $.x", "@.a == null", "$.x == null", "@.a == -1", "@.a", "!@.a", "-@.a == $.x", "@ == $.x", "@..a == $.x", "@.* == $.x", "@['a'] == $['x']", "@[?(@ == $.x)]", "$.l[0:$.x]", "$.l[$.x]", "$.l[$.x:]", "$.l[::$.x]", "@.a === $.l[0].a",
	)
}

// statefulPaths are the paths of the filters, and other ones.
func statefulPaths() []string {
	var out []string
	for _, e := range stateful() {
		out = append(out, "$.l[?("+e+")]")
	}
	return append(out, "$.l[$.x]", "$.l[0:$.x]", "$.l[$.x:]", "$.l[::$.x]", "$.l[-1]", "$.l[-1:]", "$.l[::-1]", "$.l[0,-1]", "$.l[-1,'a']", "$..[-1]", "$..[?(@ == $.x)]", "$..[?($.x == 1)]", "$.*[?(@.a == $.x)]", "/l/0", "/l/*", "$.l['-1']", "$.l.-1", "$.l[1:2]", "$.l[0:-1]", "$..[0:1]", "$..a", "$.l[?(@.a)].a", "$.l[?(@.a == $.x)]..a")
}

type made struct {
	desc string
	mk   func() jp.Path
}

func builders() []made {
	root, cur, wild := jp.SelectRootPath, jp.SelectCurrentPath, jp.WildcardPath
	key, ix, rd, ap := jp.KeySelectorPath, jp.IndexSelectorPath, jp.RecursiveDescent, jp.Append
	return []made{
		{"root, index 0", func() jp.Path { return ap(root, ix(0)) }},
		{"root, index -1", func() jp.Path { return ap(root, ix(-1)) }},
		{"root, index 1", func() jp.Path { return ap(root, ix(1)) }},
		{"root, *, index -1", func() jp.Path { return ap(root, wild, ix(-1)) }},
		{"root, *, index 0, key a", func() jp.Path { return ap(root, wild, ix(0), key("a")) }},
		{"root, ..index -1", func() jp.Path { return ap(rd(root), ix(-1)) }},
		{"root, ..index 0", func() jp.Path { return ap(rd(root), ix(0)) }},
		{"root, ..key a", func() jp.Path { return ap(rd(root), key("a")) }},
		{"root, ..key a, index -2", func() jp.Path { return ap(rd(root), key("a"), ix(-2)) }},
		{"root, key -1", func() jp.Path { return ap(root, key("-1")) }},
		{"root, *, key 0", func() jp.Path { return ap(root, wild, key("0")) }},
		{"root, key a", func() jp.Path { return ap(root, key("a")) }},
		{"root, key missing", func() jp.Path { return ap(root, key("missing")) }},
		{"root, *, key b", func() jp.Path { return ap(root, wild, key("b")) }},
		{"root, index 5", func() jp.Path { return ap(root, ix(5)) }},
		{"root, ..*", func() jp.Path { return ap(rd(root), wild) }},
		{"current, *", func() jp.Path { return ap(cur, wild) }},
		{"root", func() jp.Path { return root }},
		{"root, *", func() jp.Path { return ap(root, wild) }},
	}
}

// stateDoc is a document for the stateful paths, with n elements.
func stateDoc(name string, n int, bad bool) any {
	val := func(name string) any {
		switch sym.Choose(name+".kind", 3) {
		case 0:
			if bad {
				return sym.ConcreteInt(sym.IntRange(name, 0, 2))
			}
			return sym.Int(name)
		case 1:
			return "x"
		}
		return []any{1}
	}
	var l []any
	for i := 0; i < n; i++ {
		l = append(l, map[string]any{"a": val(name + "a" + sym.Itoa(i))})
	}
	return map[string]any{"x": val(name + "x"), "l": l}
}

// awkward tells whether the operands should be few concrete numbers.
func awkward(text string) bool {
	for i := range text {
		switch text[i] {
		case '/', '%', '<', '>':
			return true
		case '*':
			if i > 0 && (text[i-1] == '*' || text[i-1] == ' ') {
				return true
			}
		case ':':
			return true
		}
	}
	return false
}

// otherDoc is one of a few documents for the stateful paths.
func otherDoc(i int) any {
	elem := func(v any) any { return map[string]any{"a": v} }
	switch i {
	case 0:
		return map[string]any{"x": 1, "l": []any{elem(2), elem(1)}}
	case 1:
		return map[string]any{"x": "x", "l": []any{elem("x")}}
	case 2:
		return map[string]any{"x": []any{1, 2}, "l": []any{elem([]any{1}), elem(nil), elem(2)}}
	}
	return map[string]any{"y": 1}
}

// sameFound compares results in any order, as the members of a map have none.
func sameFound(a, b []any) {
	sym.Assert(len(a) == len(b), "every search selects as many nodes")
	for _, x := range a {
		n := 0
		for i := range a {
			n += sym.IteInt(sym.Same(a[i], x), 1, 0)
			n -= sym.IteInt(sym.Same(b[i], x), 1, 0)
		}
		sym.Assert(n == 0, "every search selects the same nodes")
	}
}

func init() {
	paths := statefulPaths()
	valid := []string{}
	for _, p := range paths {
		if _, err := jp.Parse(p); err == nil {
			valid = append(valid, p)
		}
	}
	find := func(doc any, p jp.Path) []any {
		r, err := jp.Find(jp.MapModel{Doc: doc}, p)
		sym.Assert(err == nil, "Find reports no error")
		return r
	}
	add(H{Prop: "P14", Name: "values", Bounds: sym.Itoa(len(paths)) + " paths with every operator and call, each used on a document {x, l: [{a}]}, x and a any int, a string or an array (few ints with < > ** / % and in bounds of slices), and before or after that on one of 4 others, against the same text parsed anew", Cases: fixed(len(paths)), Setup: func(c int) (string, func()) {
		p, err := jp.Parse(paths[c])
		q, _ := jp.Parse(paths[c])
		return paths[c], func() {
			if err != nil {
				sym.Assert(true, "no path")
				return
			}
			one, two := stateDoc("1", 1, awkward(paths[c])), otherDoc(sym.Choose("other", 4))
			if sym.Choose("first", 2) == 1 {
				one, two = two, one
			}
			first := find(one, p)
			sameFound(find(two, p), find(two, q))
			sameFound(find(one, p), first)
		}
	}})
	made := builders()
	add(H{Prop: "P14", Name: "built", Bounds: sym.Itoa(len(made)) + " paths made by the builder functions, each used on any two trees of depth 2 and widths 3,1 and 1,2 in turn, against the same path made anew", Cases: fixed(len(made)), Setup: func(c int) (string, func()) {
		p, q, r := made[c].mk(), made[c].mk(), made[c].mk()
		return made[c].desc, func() {
			t, u := newTree(filled(3, 1)), newTree(filled(1, 2))
			describe(t)
			describe(u)
			equal := func(x, y []*T) {
				sym.Assert(len(x) == len(y), "every search selects as many nodes")
				for i := range x {
					sym.Assert(x[i] == y[i], "every search selects the same nodes")
				}
			}
			first := selected(t, p)
			equal(selected(u, p), selected(u, q))
			equal(selected(t, p), first)
			equal(selected(t, r), first)
		}
	}})
	add(H{Prop: "P26", Name: "concurrent-built", Bounds: sym.Itoa(len(made)) + " paths made by the builder functions, each used by two goroutines to search any two trees of depth 2 and widths 2,1 and 1,1", Cases: fixed(len(made)), Setup: func(c int) (string, func()) {
		p, q := made[c].mk(), made[c].mk()
		return made[c].desc, func() {
			docs := []*Tree{newTree(shape{widths: []int{2, 1}, val: one}), newTree(shape{widths: []int{1, 1}, val: one})}
			runs := make([][]any, 2)
			sym.Shared("two searches with one path write to the same memory", func(i int) {
				runs[i], _ = jp.Find(docs[i], p)
			}, p, docs)
			for i, d := range docs {
				want, err := jp.Find(d, q)
				sym.Assert(err == nil, "Find reports no error")
				sym.Assert(len(runs[i]) == len(want), "concurrent searches select as many nodes")
				for j := range want {
					sym.Assert(runs[i][j] == want[j], "concurrent searches select the same nodes")
				}
			}
		}
	}})
	warmUp("P26", valid...)
	add(H{Prop: "P26", Name: "concurrent-values", Bounds: sym.Itoa(len(paths)) + " paths with every operator and call, each used by two goroutines to search two documents {x, l: [{a}]}, x and a any int, a string or an array (few ints with < > ** / % and in bounds of slices)", Cases: fixed(len(paths)), Setup: func(c int) (string, func()) {
		p, err := jp.Parse(paths[c])
		q, _ := jp.Parse(paths[c])
		return paths[c], func() {
			if err != nil {
				sym.Assert(true, "no path")
				return
			}
			docs := []any{stateDoc("1", 1, awkward(paths[c])), otherDoc(0)}
			runs := make([][]any, 2)
			sym.Shared("two searches with one path write to the same memory", func(i int) {
				runs[i], _ = jp.Find(jp.MapModel{Doc: docs[i]}, p)
			}, p, docs)
			for i, d := range docs {
				sameFound(runs[i], find(d, q))
			}
		}
	}})

	// P01: any key of objects, also such as are numbers
	notations := []struct {
		name string
		path func(k string) jp.Path
	}{
		{"KeySelectorPath(k)", func(k string) jp.Path { return jp.Append(jp.SelectRootPath, jp.KeySelectorPath(k)) }},
		{"$['k']", func(k string) jp.Path { return parse("$['" + k + "']") }},
		{`$["k"]`, func(k string) jp.Path { return parse(`$["` + k + `"]`) }},
		{"$.'k'", func(k string) jp.Path { return parse("$.'" + k + "'") }},
		{"/'k'", func(k string) jp.Path { return parse("/'" + k + "'") }},
		{"$['k','k']", func(k string) jp.Path { return parse("$['" + k + "','" + k + "']") }},
	}
	add(H{Prop: "P01", Name: "numeric", Bounds: "6 notations of any key of up to 3 of the characters 0 1 7 + - . e x _ a, over objects of two members with such names", Cases: fixed(len(notations)), Setup: func(c int) (string, func()) {
		f := notations[c]
		return f.name, func() {
			name := func(n string) string {
				s := ""
				for i := sym.Choose(n+".len", 4); i > 0; i-- {
					s += string([]byte{byte(sym.RuneIn(n, "017+-.ex_a"))})
				}
				return s
			}
			k, m := name("key"), name("member")
			sym.Assume(m != "other")
			t := &Tree{root: obj([]string{m, "other"}, leaf(1), leaf(2))}
			describe(t)
			got := selected(t, f.path(k))
			sym.Assert((len(got) == 1) == (k == m), "the key selects exactly the member of its name")
			for _, x := range got {
				sym.Assert(x == t.root.kids[0], "the key selects the member of its name")
			}
		}
	}})

	// P05, P04: any member names on the way
	any := []pc{
		{text: "$..a", ref: []step{rDeep, rChild("a")}},
		{text: "$..*", ref: []step{rDeep, rWild}},
		{text: "$..['']", ref: []step{rDeep, rChild("")}},
		{text: "$..['a','']", ref: []step{rDeep, rUnion(rChild("a"), rChild(""))}},
		{text: "$..a.*", ref: []step{rDeep, rChild("a"), rWild}},
		{text: "$..[?(@.a)]", ref: []step{rDeep, exists(rChild("a"))}},
		{text: "$.*..a", ref: []step{rWild, rDeep, rChild("a")}},
	}
	add(H{Prop: "P05", Name: "any-names", Bounds: "7 paths over any chain of 4 containers with any member names of up to one byte, and a value with such a name beside each", Cases: fixed(len(any)), Setup: func(c int) (string, func()) {
		p := parse(any[c].text)
		return any[c].text, func() {
			at := sym.Choose("level", 4)
			t := &Tree{root: linear(4, func(i int) int {
				if i == at {
					return sym.IntRange("kind", 1, 2)
				}
				return kObj
			}, func(i int) string {
				if i == at || i == 3 {
					return anyKey("key", 0)
				}
				return "a"
			})}
			x := t.root
			for i := 0; i < 4; i++ {
				k := "b"
				if i == (at+1)%4 {
					k = anyKey("twig", 0)
				}
				sym.Assume(k != x.keys[0])
				twig(x, k)
				x = x.kids[0]
			}
			describe(t)
			both(t, p, ref(t.root, any[c].ref...))
		}
	}})
}
