package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// A bstep is one step as the path builders make it.
type bstep struct {
	desc string
	p    func() jp.Path
	text string // its text in brackets
	ref  step
}

func bsteps() []bstep {
	return []bstep{
		{"key a", func() jp.Path { return jp.KeySelectorPath("a") }, "['a']", rChild("a")},
		{"index 0", func() jp.Path { return jp.IndexSelectorPath(0) }, "[0]", rIndex(0)},
		{"index -1", func() jp.Path { return jp.IndexSelectorPath(-1) }, "[-1]", rIndex(-1)},
		{"wildcard", func() jp.Path { return jp.WildcardPath }, "[*]", rWild},
		{"key b", func() jp.Path { return jp.KeySelectorPath("b") }, "['b']", rChild("b")},
		{"index 1", func() jp.Path { return jp.IndexSelectorPath(1) }, "[1]", rIndex(1)},
		{"key c", func() jp.Path { return jp.KeySelectorPath("c") }, "['c']", rChild("c")},
	}
}

// A chain is a sequence of builder steps; deep[i] puts .. before step i.
type chain struct {
	steps []bstep
	deep  []bool
}

func (c chain) text() string {
	s := "$"
	for i, x := range c.steps {
		if c.deep[i] {
			s += ".."
		}
		s += x.text
	}
	return s
}

func (c chain) refs() []step {
	var out []step
	for i, x := range c.steps {
		if c.deep[i] {
			out = append(out, rDeep)
		}
		out = append(out, x.ref)
	}
	return out
}

func (c chain) deeps() int {
	n := 0
	for _, d := range c.deep {
		if d {
			n++
		}
	}
	return n
}

var nestings = []string{"flat", "to the left", "to the right", "descent over the prefix"}

// build composes the chain in one of the nestings; all mean the same.
func (c chain) build(how int) jp.Path {
	// part i with the descent that follows it
	part := func(i int) jp.Path {
		p := jp.SelectRootPath
		if i > 0 {
			p = c.steps[i-1].p()
		}
		if i < len(c.steps) && c.deep[i] {
			p = jp.RecursiveDescent(p)
		}
		return p
	}
	n := len(c.steps)
	switch how {
	case 0:
		var all []jp.Path
		for i := 0; i <= n; i++ {
			all = append(all, part(i))
		}
		return jp.Append(all...)
	case 1:
		p := part(0)
		for i := 1; i <= n; i++ {
			p = jp.Append(p, part(i))
		}
		return p
	case 2:
		p := part(n)
		for i := n - 1; i >= 0; i-- {
			p = jp.Append(part(i), p)
		}
		return p
	}
	p := jp.SelectRootPath
	for i, s := range c.steps {
		if c.deep[i] {
			p = jp.RecursiveDescent(p)
		}
		p = jp.Append(p, s.p())
	}
	return p
}

// chains lists all sequences of n of the first k steps, with .. in every subset of places.
func chainsOf(n, k int) []chain {
	if n == 0 {
		return []chain{{}}
	}
	var out []chain
	for _, c := range chainsOf(n-1, k) {
		for _, s := range bsteps()[:k] {
			for d := 0; d < 2; d++ {
				out = append(out, chain{steps: append(append([]bstep{}, c.steps...), s), deep: append(append([]bool{}, c.deep...), d == 1)})
			}
		}
	}
	return out
}

func init() {
	// P15: sequences of builder steps in every nesting
	short := append(chainsOf(1, 7), chainsOf(2, 4)...)
	var long []chain
	for i, c := range chainsOf(3, 4) {
		if i%3 == 0 || c.deeps() == 0 {
			long = append(long, c)
		}
	}
	add(H{Prop: "P15", Name: "build", Bounds: "all sequences of one or two builder steps with and without .., in four nestings, against the reference and the parsed text, over any tree of depth 3 and widths 2,1,1 (thorough: 2,2,1 and also a third of the sequences of three)", Cases: func(t int) int {
		if t > 0 {
			return len(short) + len(long)
		}
		return len(short)
	}, Setup: func(c int) (string, func()) {
		var ch chain
		if c < len(short) {
			ch = short[c]
		} else {
			ch = long[c-len(short)]
		}
		var built []jp.Path
		for how := range nestings {
			built = append(built, ch.build(how))
		}
		built = append(built, jp.Append(ch.build(1)), jp.Append(ch.build(3), jp.Path{}), jp.Append(jp.Path{}, ch.build(0)))
		parsed := parse(ch.text())
		sh := filled(2, 1, 1)
		if sym.Tier() > 0 {
			sh = filled(2, 2, 1)
		}
		return ch.text(), func() {
			t := newTree(sh)
			describe(t)
			want := ref(t.root, ch.refs()...)
			again := ch.deeps() > 1 // how often a node comes is not specified
			for _, p := range append(built, parsed) {
				got := selected(t, p)
				if again {
					got = dedup(got)
				}
				sameSet(t, got, dedup(want))
			}
		}
	}})

	// builder steps in any place, for the properties of the steps themselves
	builders := func(prop string, in func(chain) bool) {
		var l []pc
		for _, ch := range append(chainsOf(1, 7), chainsOf(2, 4)...) {
			if in(ch) {
				ch := ch
				l = append(l, pc{text: "built " + ch.text(), build: func() jp.Path { return ch.build(0) }, ref: ch.refs(), set: ch.deeps() > 1})
			}
		}
		structural(prop, "builders", "built paths of one or two steps, with and without ..; any tree of depth 2 and widths 3,2", func(tier int) (shape, shape) {
			if tier > 0 {
				return filled(3, 3), filled(2, 2)
			}
			return filled(3, 2), filled(2, 2)
		}, l)
	}
	builders("P02", func(c chain) bool {
		return c.deeps() == 0 && (c.steps[0].desc[0] == 'i' || c.steps[len(c.steps)-1].desc[0] == 'i')
	})
	builders("P05", func(c chain) bool { return c.deeps() > 0 })
	add(H{Prop: "P05", Name: "built-any", Bounds: "RecursiveDescent of the root, or of a key below it, followed by IndexSelectorPath or KeySelectorPath of any value; any tree of depth 3 and widths 2,2,1", Cases: fixed(4), Setup: func(c int) (string, func()) {
		desc := []string{"$..[any int]", "$.a..[any int]", "$..[any key]", "$.a..[any key]"}[c]
		return desc, func() {
			base := jp.SelectRootPath
			refs := []step{rDeep}
			if c%2 == 1 {
				base = jp.Append(base, jp.KeySelectorPath("a"))
				refs = []step{rChild("a"), rDeep}
			}
			base = jp.RecursiveDescent(base)
			t := newTree(filled(2, 2, 1))
			describe(t)
			if c < 2 {
				i := sym.Int("i")
				base = jp.Append(base, jp.IndexSelectorPath(i))
				refs = append(refs, rIndex(i))
			} else {
				k := sym.ASCII("key", sym.Choose("key.len", 3))
				sym.Assume(sym.Not(sym.And(len(k) > 0, numericKey(k))))
				base = jp.Append(base, jp.KeySelectorPath(k))
				refs = append(refs, rChild(k))
			}
			sameSet(t, selected(t, base), ref(t.root, refs...))
		}
	}})

	// P15: results of the builders keep their meaning whatever is built from them
	bases := []struct {
		desc string
		mk   func(n int) jp.Path
	}{
		{"parsed", func(n int) jp.Path {
			s := "$"
			for i := 1; i < n; i++ {
				s += ".*"
			}
			return parse(s)
		}},
		{"appended one by one", func(n int) jp.Path {
			p := jp.SelectRootPath
			for i := 1; i < n; i++ {
				p = jp.Append(p, jp.WildcardPath)
			}
			return p
		}},
		{"appended at once", func(n int) jp.Path {
			l := []jp.Path{jp.SelectRootPath}
			for i := 1; i < n; i++ {
				l = append(l, jp.WildcardPath)
			}
			return jp.Append(l...)
		}},
		{"appended in halves", func(n int) jp.Path {
			p, q := jp.SelectRootPath, jp.Path{}
			for i := 1; i < n; i++ {
				if i%2 == 0 {
					p = jp.Append(p, jp.WildcardPath)
				} else {
					q = jp.Append(q, jp.WildcardPath)
				}
			}
			return jp.Append(p, q)
		}},
		{"of a descent", func(n int) jp.Path {
			p := jp.SelectRootPath
			for i := 1; i < n; i++ {
				p = jp.Append(p, jp.WildcardPath)
			}
			jp.RecursiveDescent(p)
			return p
		}},
	}
	const maxBase = 6
	add(H{Prop: "P15", Name: "independent", Bounds: "bases of 1 to 6 steps made in five ways, extended by two different steps and by a descent, the earlier results used after the later ones were made; any tree that is 5 levels of one child above any level of two", Cases: fixed(maxBase * len(bases)), Setup: func(c int) (string, func()) {
		n, b := 1+c/len(bases), bases[c%len(bases)]
		base := b.mk(n)
		x := jp.Append(base, jp.KeySelectorPath("a"))
		y := jp.Append(base, jp.KeySelectorPath("b"))
		d := jp.RecursiveDescent(base)
		dx := jp.Append(d, jp.KeySelectorPath("a"))
		dy := jp.Append(d, jp.IndexSelectorPath(0), jp.KeySelectorPath("b"))
		z := jp.Append(base, base, jp.KeySelectorPath("b"))
		w := jp.Append(x, jp.KeySelectorPath("b"))
		v := jp.Append(x, jp.IndexSelectorPath(0))
		return "base of " + sym.Itoa(n) + " steps " + b.desc, func() {
			widths := []int{}
			for i := 1; i < n; i++ {
				widths = append(widths, 1)
			}
			t := newTree(shape{widths: append(widths, 2, 2), val: one})
			describe(t)
			var pre []step
			for i := 1; i < n; i++ {
				pre = append(pre, rWild)
			}
			to := func(s ...step) []*T { return ref(t.root, append(append([]step{}, pre...), s...)...) }
			sameSet(t, selected(t, base), to())
			sameSet(t, selected(t, x), to(rChild("a")))
			sameSet(t, selected(t, y), to(rChild("b")))
			sameSet(t, dedup(selected(t, dx)), dedup(to(rDeep, rChild("a"))))
			sameSet(t, dedup(selected(t, dy)), dedup(to(rDeep, rIndex(0), rChild("b"))))
			sameSet(t, selected(t, w), to(rChild("a"), rChild("b")))
			sameSet(t, selected(t, v), to(rChild("a"), rIndex(0)))
			_ = z
		}
	}})

	// P14: a path in use is the path as parsed
	var used []string
	for _, s := range psteps() {
		used = append(used, "$"+s.text, "$.."+s.deep)
	}
	for _, s := range few() {
		for _, u := range few() {
			used = append(used, "$"+s.text+u.text)
		}
	}
	used = append(used, "/0", "/*/0", "$.0", "$['-1']", "$.*.'-1'", "$..['0']", "$[?(@['-1'])]", "$[?(@.0)]", "$['-1','0']", "$[?(length($) == 2)]", "$[?(@.length() == 1)]", "$[?($[-1])]")
	warmUp("P14", "$.a", "$..a")
	add(H{Prop: "P14", Name: "reuse", Bounds: sym.Itoa(len(used)) + " paths of every kind, each used on an arbitrary document of depth 2 and widths 3,1 and on one of five fixed ones in turn and inside a capture, against the same text parsed anew", Cases: fixed(len(used)), Setup: func(c int) (string, func()) {
		p := parse(used[c])
		f1, f2, f3 := parse(used[c]), parse(used[c]), parse(used[c])
		return used[c], func() {
			t := newTree(filled(3, 1))
			describe(t)
			u := &Tree{root: []*T{
				arr(leaf(1)), arr(obj([]string{"a", "b"}, leaf(1), arr(leaf(2))), leaf(3), leaf(4), leaf(5)), obj([]string{"a"}, arr(leaf(1), leaf(2))), obj([]string{"b", "-1", "0"}, leaf(1), leaf(2), obj([]string{"a"}, leaf(3))), arr(),
			}[sym.Choose("other", 5)]}
			equal := func(x, y []*T) {
				sym.Assert(len(x) == len(y), "every search selects as many nodes")
				for i := range x {
					sym.Assert(x[i] == y[i], "every search selects the same nodes")
				}
			}
			first := selected(t, p)
			equal(selected(u, p), selected(u, f1))
			equal(selected(t, p), first)
			n := 0
			jp.Search(t, p, func(dp jp.DocPath) {
				if n == 0 {
					equal(selected(u, p), selected(u, f2))
				}
				sym.Assert(n < len(first) && any(first[n]) == dp.Last().Node, "a search inside a capture does not disturb the outer one")
				n++
			})
			sym.Assert(n == len(first), "a search inside a capture does not disturb the outer one")
			equal(selected(t, f3), first)
		}
	}})
}

// numericKey tells whether a nonempty key reads as an integer.
func numericKey(k string) bool {
	all := true
	for i := range k {
		ch := k[i]
		sign := sym.And(sym.Or(ch == '-', ch == '+'), i == 0 && len(k) > 1)
		all = sym.And(all, sym.Or(sym.And(ch >= '0', ch <= '9'), sign))
	}
	return all
}

// arr is an array node.
func arr(kids ...*T) *T {
	x := &T{kind: kArr, n: len(kids), kids: kids}
	for i, k := range kids {
		k.parent, k.pos = x, i
		x.keys = append(x.keys, "")
	}
	return x
}
