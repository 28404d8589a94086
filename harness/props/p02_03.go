package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// arrayDoc is an object {v: array of 0..max values, i, j, k: ints} or, with
// nest, {w: {v: array, ...}}.
func leaf(v any) *T { return &T{val: v} }

func obj(keys []string, kids ...*T) *T {
	x := &T{kind: kObj, n: len(keys), keys: keys, kids: kids}
	for i, k := range kids {
		k.parent, k.pos = x, i
	}
	return x
}

// array is an array of min..max elements made by elem.
func array(name string, min, max int, elem func(i int) *T) *T {
	x := &T{kind: kArr, n: sym.IntRange(name+".n", min, max)}
	for i := 0; i < max; i++ {
		k := elem(i)
		k.parent, k.pos = x, i
		x.kids = append(x.kids, k)
		x.keys = append(x.keys, "")
	}
	return x
}

func leaves(i int) *T { return leaf(i) }

// counts returns how often each child of x is selected.
func counts(got []*T, x *T) []int {
	c := make([]int, len(x.kids))
	for _, g := range got {
		for i, k := range x.kids {
			if g == k {
				c[i]++
			}
		}
	}
	return c
}

// selects asserts, for each element that can exist, that it is selected exactly
// when want says so, once, and that nothing but elements of x is selected.
func selects(got []*T, x *T, want func(i int) bool) {
	c := counts(got, x)
	total := 0
	exact := true
	for i := range x.kids {
		sym.Assert(c[i] <= 1, "no element is selected twice")
		exact = sym.And(exact, sym.Iff(c[i] == 1, sym.And(i < x.n, want(i))))
		total += c[i]
	}
	sym.Assert(exact, "an element is selected exactly when the path addresses it")
	sym.Assert(total == len(got), "nothing but elements of the array is selected")
}

func wantIndex(ix, n int) func(int) bool {
	return func(i int) bool { return sym.Or(ix == i, sym.And(ix < 0, ix+n == i)) }
}

// sliceRef is the slice rule: bounds count from the end if negative, are
// clamped to the array, and default to the whole array in the direction of
// the step; step 0 selects nothing.
type sliceRef struct {
	start, end, step          int
	hasStart, hasEnd, hasStep bool
}

func (s sliceRef) norm(n int) (from, to, step int) {
	step = 1
	if s.hasStep {
		step = s.step
	}
	up := step > 0
	lo := sym.IteInt(up, 0, -1)
	hi := sym.IteInt(up, n, n-1)
	bound := func(given bool, v, def int) int {
		if !given {
			return def
		}
		v = sym.IteInt(v < 0, v+n, v)
		v = sym.IteInt(v < lo, lo, v)
		return sym.IteInt(v > hi, hi, v)
	}
	from = bound(s.hasStart, s.start, sym.IteInt(up, lo, hi))
	to = bound(s.hasEnd, s.end, sym.IteInt(up, hi, lo))
	return
}

// want tells whether element i (of at most max) is in the slice.
func (s sliceRef) want(n, max int) func(int) bool {
	from, to, step := s.norm(n)
	return func(i int) bool {
		up := sym.And(sym.And(i >= from, i < to), multiple(i-from, step, max))
		down := sym.And(sym.And(i <= from, i > to), multiple(from-i, -step, max))
		return sym.Or(sym.And(step > 0, up), sym.And(step < 0, down))
	}
}

// split separates the values of x up to max from each other and from the rest.
func split(x, max int) int {
	if x > max || x < -max {
		return x
	}
	return sym.ConcreteInt(x)
}

// multiple tells whether d, known to be in 0..max, is a multiple of step > 0.
func multiple(d, step, max int) bool {
	r := d == 0
	for q := 1; q <= max; q++ {
		for t := 1; q*t <= max; t++ {
			r = sym.Or(r, sym.And(step == t, d == q*t))
		}
	}
	return r
}

func init() {
	maxLen := func(tier int) int {
		if tier > 0 {
			return 8
		}
		return 5
	}
	sliceLen := func(tier int) int {
		if tier > 0 {
			return 8
		}
		return 4
	}
	setTier := fixed

	// P02: arbitrary index through the builder, all selection contexts
	add(H{Prop: "P02", Name: "index-builder", Bounds: "any int index, arrays of 0..5 (thorough 0..8) elements", Cases: setTier(4), Setup: func(c int) (string, func()) {
		desc := []string{"IndexSelectorPath(i)", "IndexSelectorPath(i) below a key", "RecursiveDescent then IndexSelectorPath(i)", "IndexSelectorPath(i) on an object or a value"}[c]
		return desc, func() {
			i := sym.Int("i")
			v := array("v", 0, maxLen(sym.Tier()), leaves)
			switch c {
			case 0:
				selects(selected(&Tree{root: v}, jp.Append(jp.SelectRootPath, jp.IndexSelectorPath(i))), v, wantIndex(i, v.n))
			case 1:
				t := &Tree{root: obj([]string{"x", "v"}, leaf(1), v)}
				selects(selected(t, jp.Append(jp.SelectRootPath, jp.KeySelectorPath("v"), jp.IndexSelectorPath(i))), v, wantIndex(i, v.n))
			case 2:
				t := &Tree{root: obj([]string{"x", "v"}, leaf(1), v)}
				selects(selected(t, jp.Append(jp.RecursiveDescent(jp.SelectRootPath), jp.IndexSelectorPath(i))), v, wantIndex(i, v.n))
			case 3:
				x := sym.Choose("root", 2)
				t := &Tree{root: leaf(1)}
				if x == 1 {
					t.root = obj([]string{sym.ASCII("key", 1), ""}, leaf(1), leaf(2))
				}
				sym.Assert(len(selected(t, jp.Append(jp.SelectRootPath, jp.IndexSelectorPath(i)))) == 0, "an index selects nothing in objects and values")
			}
		}
	}})

	// P02: indexes in the path text, with symbolic digits
	type form struct {
		pre, post string
		deep      bool
	}
	forms := []form{{"$[", "]", false}, {"$.", "", false}, {"/", "", false}, {"$.v[", "]", true}, {"$..[", "]", true}, {"$[99,", "]", false}, {"/v/", "", true}, {"$['v'].", "", true}, {"$[ ", " ]", false}}
	add(H{Prop: "P02", Name: "index-text", Bounds: "indexes of 1 or 2 decimal digits, with and without a minus sign, in 9 notations; arrays of 0..5 (thorough 0..8) elements", Cases: setTier(4 * len(forms)), Setup: func(c int) (string, func()) {
		f := forms[c/4]
		neg, two := c%2 == 1, c/2%2 == 1
		desc := f.pre + "d" + f.post
		if neg {
			desc = f.pre + "-d" + f.post
			if f.pre[0] == '/' {
				return desc + " (not a simple path)", func() { sym.Assert(true, "nothing to check") }
			}
		}
		return desc, func() {
			d := int(sym.RuneIn("d0", "0123456789") - '0')
			text := f.pre
			if neg {
				text += "-"
			}
			text += string([]byte{byte('0' + d)})
			if two {
				e := int(sym.RuneIn("d1", "0123456789") - '0')
				text += string([]byte{byte('0' + e)})
				d = 10*d + e
			}
			p, err := jp.Parse(text + f.post)
			sym.Assert(err == nil, "the path is valid")
			if neg {
				// -0 is the index 0
				d = -d
			}
			v := array("v", 0, maxLen(sym.Tier()), leaves)
			t := &Tree{root: v}
			if f.deep {
				t.root = obj([]string{"x", "v"}, leaf(1), v)
			}
			selects(selected(t, p), v, wantIndex(d, v.n))
		}
	}})

	// P03: slices with arbitrary int bounds taken from the document
	type sform struct {
		text   string
		s      [3]bool
		inList bool // evaluated as part of a list or a descent: document order
	}
	sforms := []sform{
		{"$.v[$.i:$.j:$.k]", [3]bool{true, true, true}, false},
		{"$.v[$.i:$.j]", [3]bool{true, true, false}, false},
		{"$.v[$.i:$.j:]", [3]bool{true, true, false}, false},
		{"$.v[$.i:]", [3]bool{true, false, false}, false},
		{"$.v[$.i::]", [3]bool{true, false, false}, false},
		{"$.v[:$.j]", [3]bool{false, true, false}, false},
		{"$.v[:$.j:]", [3]bool{false, true, false}, false},
		{"$.v[:]", [3]bool{false, false, false}, false},
		{"$.v[::]", [3]bool{false, false, false}, false},
		{"$.v[::$.k]", [3]bool{false, false, true}, false},
		{"$.v[$.i::$.k]", [3]bool{true, false, true}, false},
		{"$.v[:$.j:$.k]", [3]bool{false, true, true}, false},
		{"$.v[99,$.i:$.j:$.k]", [3]bool{true, true, true}, true},
		{"$.v[99,::$.k]", [3]bool{false, false, true}, true},
		{"$.v[99,$.i:$.j]", [3]bool{true, true, false}, true},
		{"$..[$.i:$.j:$.k]", [3]bool{true, true, true}, true},
		{"$..[$.i:]", [3]bool{true, false, false}, true},
		{"$..[:$.j:$.k]", [3]bool{false, true, true}, true},
	}
	add(H{Prop: "P03", Name: "slice", Bounds: "any int start, end and step, present or omitted; arrays of 0..4 (thorough 0..8) elements", Cases: setTier(len(sforms)), Setup: func(c int) (string, func()) {
		f := sforms[c]
		p := parse(f.text)
		return f.text, func() {
			s := sliceRef{hasStart: f.s[0], hasEnd: f.s[1], hasStep: f.s[2]}
			s.start, s.end, s.step = sym.Int("i"), sym.Int("j"), sym.Int("k")
			max := sliceLen(sym.Tier())
			v := array("v", 0, max, leaves)
			v.n = sym.ConcreteInt(v.n)
			// small values one by one, everything else at once
			if f.s[2] {
				s.step = split(s.step, max)
			}
			if f.inList {
				s.start = split(s.start, max)
			}
			t := &Tree{root: obj([]string{"i", "j", "k", "v"}, leaf(s.start), leaf(s.end), leaf(s.step), v)}
			got := selected(t, p)
			selects(got, v, s.want(v.n, sliceLen(sym.Tier())))
			// array order, reversed when the step is negative
			for i := 1; i < len(got); i++ {
				if f.inList || !f.s[2] {
					sym.Assert(got[i-1].pos < got[i].pos, "elements come in array order")
				} else {
					sym.Assert(sym.Iff(got[i-1].pos < got[i].pos, s.step > 0), "elements come in the direction of the step")
				}
			}
		}
	}})

	// P03: slices written with literals
	lits := []string{"$[d:]", "$[:d]", "$[-d:]", "$[:-d]", "$[d:e]", "$[-d:e]", "$[d:-e]", "$[::d]", "$[::-d]", "$[d::-e]", "$[:d:-e]", "$[ d : e ]"}
	add(H{Prop: "P03", Name: "slice-text", Bounds: "slices with literal bounds of one symbolic digit; arrays of 0..4 (thorough 0..8) elements", Cases: setTier(len(lits)), Setup: func(c int) (string, func()) {
		form := lits[c]
		return form, func() {
			text := ""
			s := sliceRef{}
			part := 0
			neg := false
			for i := 0; i < len(form); i++ {
				ch := form[i]
				switch {
				case ch == ' ':
					continue // the grammar has no blanks around the colon
				case ch == 'd' || ch == 'e':
					d := int(sym.RuneIn(string([]byte{ch}), "0123456789") - '0')
					text += string([]byte{byte('0' + d)})
					if neg {
						d = -d
					}
					neg = false
					switch part {
					case 0:
						s.hasStart, s.start = true, d
					case 1:
						s.hasEnd, s.end = true, d
					case 2:
						s.hasStep, s.step = true, d
					}
					continue
				case ch == '-':
					neg = true
				case ch == ':':
					part++
				}
				text += string([]byte{ch})
			}
			p, err := jp.Parse(text)
			sym.Assert(err == nil, "the path is valid")
			v := array("v", 0, sliceLen(sym.Tier()), leaves)
			v.n = sym.ConcreteInt(v.n)
			if s.hasStep {
				s.step = sym.ConcreteInt(s.step)
			}
			selects(selected(&Tree{root: v}, p), v, s.want(v.n, sliceLen(sym.Tier())))
		}
	}})

	// P03: slices of anything but arrays
	add(H{Prop: "P03", Name: "slice-non-array", Bounds: "any tree of depth 1 and width 2", Cases: fixed(4), Setup: func(c int) (string, func()) {
		text := []string{"$[0:2]", "$[::-1]", "$[0:1,1:2]", "$..[0:2]"}[c]
		p := parse(text)
		return text, func() {
			t := newTree(shape{widths: []int{2}})
			sym.Assume(t.root.kind != kArr)
			describe(t)
			sym.Assert(len(selected(t, p)) == 0, "a slice selects nothing in objects and values")
		}
	}})
}
