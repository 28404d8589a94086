package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// keyABC is one of the names the concrete paths mention, or another one.
func keyABC(name string, i int) string {
	return string([]byte{byte(sym.RuneIn(name, "abc"))})
}

func shapes(tree, treeT, mapm, mapmT []int, key func(string, int) string) func(int) (shape, shape) {
	return func(tier int) (shape, shape) {
		if tier > 0 {
			return shape{widths: treeT, key: key}, shape{widths: mapmT, key: key}
		}
		return shape{widths: tree, key: key}, shape{widths: mapm, key: key}
	}
}

func init() {
	a, b := rChild("a"), rChild("b")
	structural("P01", "child-parsed", "any object/array/value tree of depth 2 and width 2 (MapModel: 2,1), member names from {a,b,c}",
		shapes([]int{2, 2}, []int{3, 2, 1}, []int{2, 1}, []int{2, 2}, keyABC), []pc{
			{text: "$.a", ref: []step{a}, ordered: true},
			{text: "$['a']", ref: []step{a}, ordered: true},
			{text: `$["a"]`, ref: []step{a}, ordered: true},
			{text: "/a", ref: []step{a}, ordered: true},
			{text: "$.a.b", ref: []step{a, b}, ordered: true},
			{text: "/a/b", ref: []step{a, b}, ordered: true},
			{text: `$.a["b"]`, ref: []step{a, b}, ordered: true},
			{text: `$['b'].a`, ref: []step{b, a}, ordered: true},
			{text: `$[a]`, ref: []step{a}, ordered: true},
			{text: `$."a".'b'`, ref: []step{a, b}, ordered: true},
			{text: `/"a"/'b'`, ref: []step{a, b}, ordered: true},
		})
	structural("P04", "wildcard", "any tree of depth 2 and width 2",
		shapes([]int{2, 2}, []int{3, 2, 2}, []int{2, 1}, []int{2, 2}, nil), []pc{
			{text: "$.*", ref: []step{rWild}, ordered: true},
			{text: "$[*]", ref: []step{rWild}, ordered: true},
			{text: "/*", ref: []step{rWild}, ordered: true},
			{text: "$.*.*", ref: []step{rWild, rWild}, ordered: true},
			{text: "$[*].a", ref: []step{rWild, a}, ordered: true},
			{text: "$.a[*]", ref: []step{a, rWild}, ordered: true},
			{text: "/*/b", ref: []step{rWild, b}, ordered: true},
			{text: "$.*[1]", ref: []step{rWild, rIndex(1)}, ordered: true},
		})
	deep := func(s ...step) []step { return append([]step{rDeep}, s...) }
	structural("P05", "descend", "any tree of depth 3 and widths 2,1,1",
		shapes([]int{2, 1, 1}, []int{2, 2, 1}, []int{2, 1}, []int{2, 2}, nil), []pc{
			{text: "$..*", ref: deep(rWild)},
			{text: "$..[*]", ref: deep(rWild)},
			{text: "$..", ref: deep(rWild)},
			{text: "$..a", ref: deep(a)},
			{text: "$..['a']", ref: deep(a)},
			{text: "$..a.b", ref: deep(a, b)},
			{text: "$..[0]", ref: deep(rIndex(0))},
			{text: "$..[0:1]", ref: deep(rIndex(0))},
			{text: "$.a..a", ref: []step{a, rDeep, a}},
			{text: "$.*..*", ref: []step{rWild, rDeep, rWild}},
			{text: "$..a[0]", ref: deep(a, rIndex(0))},
			{text: "$..['a','b']", ref: deep(rUnion(a, b))},
			{text: "$.a..", ref: []step{a, rDeep, rWild}},
		})
	structural("P06", "union", "any tree of depth 2 and width 3,1",
		shapes([]int{3, 1}, []int{4, 2}, []int{3}, []int{3, 1}, nil), []pc{
			{text: "$['a','b']", ref: []step{rUnion(a, b)}, ordered: true},
			{text: "$['b','a','a']", ref: []step{rUnion(a, b)}, ordered: true},
			{text: "$[0,1]", ref: []step{rUnion(rIndex(0), rIndex(1))}, ordered: true},
			{text: "$[1,-1]", ref: []step{rUnion(rIndex(1), rIndex(-1))}, ordered: true},
			{text: "$[-3,2]", ref: []step{rUnion(rIndex(-3), rIndex(2))}, ordered: true},
			{text: "$[0:2,1:]", ref: []step{rUnion(rIndex(0), rIndex(1), rIndex(2), rIndex(3))}, ordered: true},
			{text: "$[*,0]", ref: []step{rWild}, ordered: true},
			{text: "$['c',0]", ref: []step{rUnion(rChild("c"), rIndex(0))}, ordered: true},
			{text: "$['a','c'].a", ref: []step{rUnion(a, rChild("c")), a}, ordered: true},
			{text: "$[0,2].a", ref: []step{rUnion(rIndex(0), rIndex(2)), a}, ordered: true},
		})

	// any key, any object: builders
	add(H{Prop: "P01", Name: "child-builder", Bounds: "two-step paths of arbitrary one-byte keys over any tree of width 2 whose member names are arbitrary bytes", Cases: fixed(1), Setup: func(c int) (string, func()) {
		return "KeySelectorPath(k1), KeySelectorPath(k2)", func() {
			k1, k2 := sym.ASCII("k1", 1), sym.ASCII("k2", 1)
			isDigit := func(s string) bool { return sym.And(s[0] >= '0', s[0] <= '9') }
			sym.Assume(sym.Not(sym.Or(isDigit(k1), isDigit(k2))))
			p := jp.Append(jp.SelectRootPath, jp.KeySelectorPath(k1), jp.KeySelectorPath(k2))
			t := newTree(shape{widths: []int{2, 2}, key: key1})
			describe(t)
			sameList(selected(t, p), ref(t.root, rChild(k1), rChild(k2)))
		}
	}})
}
