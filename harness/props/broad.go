package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// Broad instances: arrays and objects with more children than a buffer, a small
// integer or a guard in an implementation could expect.

// broadDoc has n children: one of any kind, the others values.
func broadDoc(kind, n, pos int) *Tree {
	x := &T{kind: kind, n: n}
	for i := 0; i < n; i++ {
		k := leaf(i)
		if i == pos {
			v := sym.Int("value")
			sym.Assume(v != 0)
			k.val = v
			if k.kind = sym.IntRange("kind", 0, 2); k.kind != kVal {
				for j := 0; j < 2; j++ {
					l := leaf(true)
					l.parent, l.pos = k, j
					k.kids, k.keys, k.n = append(k.kids, l), append(k.keys, []string{"a", "b"}[j]), j+1
				}
			}
		}
		k.parent, k.pos = x, i
		x.kids, x.keys = append(x.kids, k), append(x.keys, "k"+sym.Itoa(i))
	}
	return &Tree{root: x}
}

// above is the children whose value is an int above v.
func above(v int) func(*T) bool {
	return func(x *T) bool {
		i, ok := x.val.(int)
		return x.kind == kVal && ok && i > v
	}
}

// rWhere is a slice of an array as a condition on the index.
func rWhere(f func(i int) bool) step {
	return func(x *T) []*T {
		if !isArr(x) {
			return nil
		}
		return rFilter(func(k *T) bool { return f(k.pos) })(x)
	}
}

func init() {
	sizes := []int{17, 33, 65, 129, 257, 300}
	odd := func(i int) bool { return i%2 == 1 }
	tail := func(i int) bool { return i >= 1 }
	// below adds a container level above the broad one
	below := func(t *Tree) *Tree {
		up := obj([]string{"a"}, t.root)
		t.root = up
		return t
	}
	broad := func(prop, name string, cases []pc) {
		add(H{Prop: prop, Name: name, Bounds: sym.Itoa(len(cases)) + " paths over arrays and objects of 17 to 300 children, one of which, the first, the middle one, the last or one next to them, is any int but 0, an object or an array", Cases: fixed(len(cases) * len(sizes)), Setup: func(c int) (string, func()) {
			pc, n := cases[c%len(cases)], sizes[c/len(cases)]
			p := pc.path()
			if len(pc.text) > 5 && pc.text[:5] == "$[?($" {
				n = min(n, 65)
			}
			return pc.text + " over " + sym.Itoa(n) + " children", func() {
				t := broadDoc(sym.IntRange("container", 1, 2), n, []int{0, 1, n / 2, n - 2, n - 1}[sym.Choose("pos", 5)])
				if len(pc.text) > 3 && pc.text[:3] == "$.a" {
					t = below(t)
				}
				want := ref(t.root, pc.ref...)
				if sym.Choose("model", 2) == 1 {
					sameSet(t, selectedMap(t, p), want)
					return
				}
				got := selected(t, p)
				if pc.set {
					got = dedup(got)
				}
				sameSet(t, got, want)
				if pc.ordered {
					sameList(got, want)
				}
			}
		}})
	}
	broad("P04", "broad", []pc{
		{text: "$.*", ref: []step{rWild}, ordered: true}, {text: "$[*]", ref: []step{rWild}, ordered: true}, {text: "/*", ref: []step{rWild}, ordered: true},
		{text: "$.*.*", ref: []step{rWild, rWild}, ordered: true}, {text: "$.a.*", ref: []step{rChild("a"), rWild}, ordered: true}, {text: "$[*].a", ref: []step{rWild, rChild("a")}, ordered: true},
		{text: "Append(root, wildcard)", build: func() jp.Path { return jp.Append(jp.SelectRootPath, jp.WildcardPath) }, ref: []step{rWild}, ordered: true},
	})
	broad("P05", "broad", []pc{
		{text: "$..*", ref: []step{rDeep, rWild}}, {text: "$..a", ref: []step{rDeep, rChild("a")}}, {text: "$..[0]", ref: []step{rDeep, rIndex(0)}, digits: true}, {text: "$..[-1]", ref: []step{rDeep, rIndex(-1)}},
		{text: "$..['a',-1]", ref: []step{rDeep, rUnion(rChild("a"), rIndex(-1))}}, {text: "$..[1:]", ref: []step{rDeep, rWhere(tail)}}, {text: "$..[1::2]", ref: []step{rDeep, rWhere(odd)}},
		{text: "$..[?(@ > 3)]", ref: []step{rDeep, rFilter(above(3))}}, {text: "$..[?(@.a)]", ref: []step{rDeep, exists(rChild("a"))}}, {text: "$.a..*", ref: []step{rChild("a"), rDeep, rWild}}, {text: "$.*..a", ref: []step{rWild, rDeep, rChild("a")}},
	})
	broad("P06", "broad", []pc{
		{text: "$[*,0]", ref: []step{rWild}, ordered: true}, {text: "$[0,*]", ref: []step{rWild}, ordered: true}, {text: "$[-1,?(@.a)]", ref: []step{rUnion(rIndex(-1), exists(rChild("a")))}, ordered: true},
		{text: "$[?(@ > 3),?(@.a)]", ref: []step{rUnion(rFilter(above(3)), exists(rChild("a")))}, ordered: true}, {text: "$[1:,0]", ref: []step{rUnion(rWhere(tail), rIndex(0))}, ordered: true}, {text: "$[1::2,?(@.a)]", ref: []step{rUnion(rWhere(odd), exists(rChild("a")))}, ordered: true},
		{text: "$.*['a',-1]", ref: []step{rWild, rUnion(rChild("a"), rIndex(-1))}, ordered: true}, {text: "$.a[-1,-2,'k0']", ref: []step{rChild("a"), rUnion(rIndex(-1), rIndex(-2), rChild("k0"))}, ordered: true},
	})
	// unions of single elements and members, far apart
	rUn := func(ix []int, names ...string) step {
		parts := []step{}
		for _, i := range ix {
			parts = append(parts, rIndex(i))
		}
		for _, k := range names {
			parts = append(parts, rChild(k))
		}
		return rUnion(parts...)
	}
	broad("P06", "broad-few", []pc{
		{text: "$[0,-1]", ref: []step{rUn([]int{0, -1})}, ordered: true}, {text: "$[-1,-2]", ref: []step{rUn([]int{-1, -2})}, ordered: true}, {text: "$[200,100,40,20,10,5]", ref: []step{rUn([]int{5, 10, 20, 40, 100, 200})}, ordered: true},
		{text: "$[64,0]", ref: []step{rUn([]int{0, 64})}, ordered: true}, {text: "$[32,0,32]", ref: []step{rUn([]int{0, 32})}, ordered: true}, {text: "$[256,0,-256]", ref: []step{rUn([]int{0, 256, -256})}, ordered: true}, {text: "$..[-1,0]", ref: []step{rDeep, rUn([]int{0, -1})}},
		{text: "$[0:2,-2:]", ref: []step{rUnion(rIndex(0), rIndex(1), rIndex(-1), rIndex(-2))}, ordered: true}, {text: "$[-1:,0:1,16:17]", ref: []step{rUn([]int{0, 16, -1})}, ordered: true}, {text: "$[0:2,-1]", ref: []step{rUn([]int{0, 1, -1})}, ordered: true},
		{text: "$['k0','k16']", ref: []step{rUn(nil, "k0", "k16")}, ordered: true}, {text: "$['k100','k16','k200']", ref: []step{rUn(nil, "k16", "k100", "k200")}, ordered: true},
	})
	broad("P07", "broad", []pc{
		{text: "$[?(@.a)]", ref: []step{exists(rChild("a"))}, ordered: true}, {text: "$[?(@ > 3)]", ref: []step{rFilter(above(3))}, ordered: true}, {text: "$[?(!(@ > 250))]", ref: []step{rFilter(func(x *T) bool { return !above(250)(x) })}, ordered: true},
		{text: "$[?(@.*)]", ref: []step{exists(rWild)}, ordered: true}, {text: "$[?(@..a)]", ref: []step{exists(rDeep, rChild("a"))}, ordered: true}, {text: "$.*[?(@)]", ref: []step{rWild, rWild}, ordered: true},
		{text: "$[?($[-1])]", ref: []step{onRoot(rIndex(-1))}, ordered: true}, {text: "$[?($.*.a)]", ref: []step{onRoot(rWild, rChild("a"))}, ordered: true}, {text: "$.a[?(@[?(@)])]", ref: []step{rChild("a"), exists(rWild)}, ordered: true},
		{text: "$[?($[?(@.a)])]", ref: []step{onRoot(exists(rChild("a")))}, ordered: true},
	})

	// P13: the document paths
	texts := []string{"$.*", "$..*", "$[?(@ > 3)]", "$[*,0]", "$[::-1]", "$.*.*", "$..a", "$..[-1]"}
	add(H{Prop: "P13", Name: "docpath-broad", Bounds: sym.Itoa(len(texts)) + " paths over arrays and objects of 17 to 300 children, one of which is any int but 0, an object or an array", Cases: fixed(len(texts) * len(sizes)), Setup: func(c int) (string, func()) {
		text, n := texts[c%len(texts)], sizes[c/len(texts)]
		p := parse(text)
		return text + " over " + sym.Itoa(n) + " children", func() {
			t := broadDoc(sym.IntRange("container", 1, 2), n, []int{0, n / 2, n - 1}[sym.Choose("pos", 3)])
			captures(t, p)
		}
	}})

	// P13: member names that differ in any way
	named := []string{"$.*", "$..*", "$[?(@)]", "$[*,0]", "$.*.*", "$.*[?(@)]", "$..[?(@)]", "$..", "$.*..*", "$[?(!@)]"}
	add(H{Prop: "P13", Name: "docpath-names", Bounds: sym.Itoa(len(named)) + " paths over two members of one object, or of two objects next to each other, with any names of 1 to 3 bytes", Cases: fixed(2 * len(named)), Setup: func(c int) (string, func()) {
		text, mapm := named[c/2], c%2 == 1
		p := parse(text)
		return text, func() {
			n := 1 + sym.Choose("len", 3)
			k, l := sym.String("k", n), sym.String("l", 1+sym.Choose("len2", 3))
			sym.Assume(k != l)
			var root *T
			val := func() *T { return obj([]string{"x"}, leaf(1)) }
			if sym.Choose("shape", 2) == 0 {
				root = obj([]string{"a"}, obj([]string{k, l}, val(), val()))
			} else {
				root = obj([]string{"a", "b"}, obj([]string{k}, val()), obj([]string{l}, val()))
			}
			if mapm {
				mapCaptures(&Tree{root: root}, p)
			} else {
				captures(&Tree{root: root}, p)
			}
		}
	}})
}
