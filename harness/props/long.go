package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// Long and wide instances: the bounds that buffers, counters and bit sets in an
// implementation could have.

// join puts sep between the parts.
func join(parts []string, sep string) string {
	out := ""
	for i, p := range parts {
		if i > 0 {
			out += sep
		}
		out += p
	}
	return out
}

// repeat is n times what f makes.
func repeat(n int, f func(i int) string) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, f(i))
	}
	return out
}

func init() {
	// P01: paths of many steps; the document leaves the path at any level, or not
	lens := []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65}
	forms := []struct {
		name string
		path func(n int) (string, jp.Path)
	}{
		{"$.a.b", func(n int) (string, jp.Path) {
			t := "$" + join(repeat(n, func(i int) string { return "." + name2(i) }), "")
			return t, parse(t)
		}},
		{"$['a']['b']", func(n int) (string, jp.Path) {
			t := "$" + join(repeat(n, func(i int) string { return "['" + name2(i) + "']" }), "")
			return t, parse(t)
		}},
		{"/a/b", func(n int) (string, jp.Path) {
			t := join(repeat(n, func(i int) string { return "/" + name2(i) }), "")
			return t, parse(t)
		}},
		{"$[?(@.a.b)]", func(n int) (string, jp.Path) {
			t := "$[?(@" + join(repeat(n, func(i int) string { return "." + name2(i) }), "") + ")]"
			return t, parse(t)
		}},
		{"Append(root, a, b)", func(n int) (string, jp.Path) {
			ps := []jp.Path{jp.SelectRootPath}
			for i := 0; i < n; i++ {
				ps = append(ps, jp.KeySelectorPath(name2(i)))
			}
			return "Append", jp.Append(ps...)
		}},
		{"Append(Append(root, a), b)", func(n int) (string, jp.Path) {
			p := jp.SelectRootPath
			for i := 0; i < n; i++ {
				p = jp.Append(p, jp.KeySelectorPath(name2(i)))
			}
			return "Append", p
		}},
	}
	add(H{Prop: "P01", Name: "long", Bounds: "paths of 1 to 65 key steps in " + sym.Itoa(len(forms)) + " notations, over chains of objects with any member names", Cases: fixed(len(lens) * len(forms)), Setup: func(c int) (string, func()) {
		f, n := forms[c%len(forms)], lens[c/len(forms)]
		_, p := f.path(n)
		return f.name + ", " + sym.Itoa(n) + " steps", func() {
			// one member at a time is not what the path names
			at := sym.Choose("level", n+1)
			root := linear(n, func(int) int { return kObj }, func(i int) string {
				if i == at {
					return sym.ASCII("key", 1)
				}
				return name2(i)
			})
			end := root
			same := true
			for i := 0; i < n; i++ {
				same = same && end.keys[0] == name2(i)
				end = end.kids[0]
			}
			t := &Tree{root: root}
			if f.name == "$[?(@.a.b)]" {
				x := &T{kind: kArr, n: 1, kids: []*T{root}, keys: []string{""}}
				root.parent = x
				t.root = x
				end = root
			}
			got := selected(t, p)
			if !same {
				sym.Assert(len(got) == 0, "nothing is selected if a member has another name")
				return
			}
			sym.Assert(len(got) == 1 && got[0] == end, "the named member is selected")
		}
	}})
	warmUp("P01", "$.a.b.c.d.e.f.g.h")

	// P06: wide unions
	add(H{Prop: "P06", Name: "wide", Bounds: "unions of 1 to 33 indexes, names, or both, over arrays of 0 to 16 elements and objects of 8 members, one of any name", Cases: fixed(3 * len(widths)), Setup: func(c int) (string, func()) {
		n, kind := widths[c/3], c%3
		ix := func(i int) int { return (i*7)%19 - 9 } // -9..9, all different up to 19 of them
		name := func(i int) string { return "k" + sym.Itoa((i*5)%12) }
		in := func(x int, l []int) bool {
			for _, y := range l {
				if x == y {
					return true
				}
			}
			return false
		}
		var nums []int
		names := map[string]bool{}
		var parts []string
		for i := 0; i < n; i++ {
			if kind == 0 || kind == 2 && i%2 == 0 {
				nums = append(nums, ix(i))
				parts = append(parts, sym.Itoa(ix(i)))
			} else {
				names[name(i)] = true
				parts = append(parts, "'"+name(i)+"'")
			}
		}
		text := "$[" + join(parts, ",") + "]"
		if n == 1 {
			text = "$[" + parts[0] + "," + parts[0] + "]"
		}
		p := parse(text)
		return text, func() {
			if sym.Choose("kind", 2) == 0 {
				a := array("v", 0, 16, leaves)
				a.n = sym.ConcreteInt(a.n)
				selects(selected(&Tree{root: a}, p), a, func(i int) bool { return i < a.n && (in(i, nums) || in(i-a.n, nums)) })
				return
			}
			x := &T{kind: kObj, n: 8}
			k := sym.ASCII("digits", sym.Choose("len", 3))
			for i := 0; i < 8; i++ {
				key := "k" + sym.Itoa(2*i)
				if i == 3 {
					key = "k" + k
					for _, o := range []string{"k0", "k2", "k4", "k8", "k10", "k12", "k14"} {
						sym.Assume(key != o)
					}
				}
				x.keys = append(x.keys, key)
				x.kids = append(x.kids, &T{parent: x, pos: i})
			}
			selects(selected(&Tree{root: x}, p), x, func(i int) bool {
				found := false
				for o := range names {
					found = sym.Or(found, x.keys[i] == o)
				}
				return found
			})
		}
	}})

	// P10: many operands
	add(H{Prop: "P10", Name: "long", Bounds: "&& and || of 2 to 17 operands, any bools, and up to 9 ! in a row", Cases: fixed(2*len(chains) + 9), Setup: func(c int) (string, func()) {
		if c >= 2*len(chains) {
			n := c - 2*len(chains) + 1
			text := "$[?(" + join(repeat(n, func(int) string { return "!" }), "") + "@.a)]"
			p := parse(text)
			return text, func() {
				a := sym.Bool("a")
				sym.Assert(holds(p, map[string]any{"a": a}) == (a == (n%2 == 0)), "each ! negates")
			}
		}
		n, op := chains[c/2], []string{" && ", " || "}[c%2]
		text := "$[?(" + join(repeat(n, func(i int) string { return "@[" + sym.Itoa(i) + "]" }), op) + ")]"
		p := parse(text)
		return text, func() {
			and, or := true, false
			var l []any
			for i := 0; i < n; i++ {
				b := sym.Bool("b" + sym.Itoa(i))
				l = append(l, b)
				and, or = sym.And(and, b), sym.Or(or, b)
			}
			want := and
			if op == " || " {
				want = or
			}
			sym.Assert(holds(p, l) == want, "a chain of operands is true exactly if all (one) of them are")
		}
	}})

	// P11: many terms
	add(H{Prop: "P11", Name: "long", Bounds: "sums, differences and products of 2 to 17 terms, the first any int; up to 9 unary minuses in a row and 33 pairs of parentheses", Cases: fixed(3*len(chains) + 9 + 4), Setup: func(c int) (string, func()) {
		text, n := "", 0
		var f func(a int) int
		switch {
		case c < 3*len(chains):
			n = chains[c/3]
			op := []string{" + ", " - ", " * "}[c%3]
			text = "@.a" + op + join(repeat(n-1, func(i int) string { return sym.Itoa(i + 2) }), op)
			f = func(a int) int {
				for i := 0; i < n-1; i++ {
					switch c % 3 {
					case 0:
						a += i + 2
					case 1:
						a -= i + 2
					default:
						a *= i + 2
					}
				}
				return a
			}
		case c < 3*len(chains)+9:
			n = c - 3*len(chains) + 1
			text = join(repeat(n, func(int) string { return "-" }), " ") + " @.a"
			f = func(a int) int {
				if n%2 == 1 {
					return -a
				}
				return a
			}
		default:
			n = []int{1, 8, 17, 33}[c-3*len(chains)-9]
			text = join(repeat(n, func(int) string { return "(" }), "") + "@.a + 1" + join(repeat(n, func(int) string { return ")" }), "")
			f = func(a int) int { return a + 1 }
		}
		p := parse("$[?(" + text + " === @.b)]")
		return text, func() {
			a := sym.Int("a")
			sym.Assert(holds(p, map[string]any{"a": a, "b": f(a)}), "the expression has the value Go computes")
		}
	}})

	// P12: long lists
	add(H{Prop: "P12", Name: "long", Bounds: "lists of 0 to 33 elements, literal and of the document, one of them any int, against any int", Cases: fixed(2 * len(sizes)), Setup: func(c int) (string, func()) {
		n, lit := sizes[c/2], c%2 == 0
		text := "$[?(@.x in @.l)]"
		if lit {
			text = "$[?(@.x in [" + join(repeat(n, func(i int) string {
				if i == n*3/4 {
					return "@.y"
				}
				return sym.Itoa(i * 3)
			}), ",") + "])]"
			if n == 0 {
				text = "$[?(@.x in @.l)]"
			}
		}
		p := parse(text)
		return text, func() {
			x, y := sym.Int("x"), sym.Int("y")
			l := []any{}
			in := false
			for i := 0; i < n; i++ {
				v := i * 3
				if i == n*3/4 {
					v = y
				}
				l = append(l, v)
				in = sym.Or(in, x == v)
			}
			sym.Assert(holds(p, map[string]any{"x": x, "y": y, "l": l}) == in, "in is true exactly for the elements")
		}
	}})

	// P17: long literals
	add(H{Prop: "P17", Name: "long", Bounds: "string literals of 5, 17 and 65 pieces of every kind, with one any character among them, compared with the string they spell", Cases: fixed(6), Setup: func(c int) (string, func()) {
		n, q := []int{5, 17, 65}[c/2], []string{"'", "\""}[c%2]
		return sym.Itoa(n) + " pieces in " + q, func() {
			ch := sym.ASCII("c", 1)
			for _, bad := range []string{"\\", "\r", "\n", q} {
				sym.Assume(ch != bad)
			}
			lit, want := q, ""
			for i := 0; i < n; i++ {
				switch i % 8 {
				case 0:
					lit, want = lit+"ab", want+"ab"
				case 1:
					lit, want = lit+"\\n", want+"\n"
				case 2:
					lit, want = lit+"\\x4a", want+"J"
				case 3:
					lit, want = lit+"\\u00e9", want+"é"
				case 4:
					lit, want = lit+ch, want+ch
				case 5:
					lit, want = lit+"\\u{1F600}", want+"😀"
				case 6:
					lit, want = lit+"\\"+q, want+q
				case 7:
					lit, want = lit+"日\\\\", want+"日\\"
				}
			}
			lit += q
			p, err := jp.Parse("$[?(@ == " + lit + ")]")
			sym.Assert(err == nil, "the literal is valid")
			sym.Assert(holds(p, want), "the literal is the string it spells")
			p, err = jp.Parse("$[" + lit + "]")
			sym.Assert(err == nil, "the literal is valid")
			r, err := jp.Find(jp.MapModel{Doc: map[string]any{want: 1}}, p)
			sym.Assert(err == nil && len(r) == 1, "the literal is the key it spells")
		}
	}})

	// P22: long paths
	add(H{Prop: "P22", Name: "long", Bounds: "Key, Index, Push and Pop with any arguments on paths of 1 to 257 segments", Cases: fixed(len(bases)), Setup: func(c int) (string, func()) {
		n := bases[c]
		return sym.Itoa(n) + " segments", func() {
			dp := jp.DocPath{}
			var model []jp.Segment
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					dp = dp.Key("k"+sym.Itoa(i), i, jp.NodeType(i%3))
					model = append(model, jp.Segment{Node: i, Type: jp.NodeType(i % 3), Name: "k" + sym.Itoa(i)})
				} else {
					dp = dp.Index(i, i, jp.NodeType(i%3))
					model = append(model, jp.Segment{Node: i, Type: jp.NodeType(i % 3), Index: i})
				}
			}
			v, ix, name, ty := sym.Int("v"), sym.Int("ix"), sym.ASCII("name", 1), jp.NodeType(sym.IntRange("t", 0, 2))
			old := dp
			switch sym.Choose("op", 4) {
			case 0:
				dp, model = dp.Key(name, v, ty), append(model, jp.Segment{Node: v, Type: ty, Name: name})
			case 1:
				dp, model = dp.Index(ix, v, ty), append(model, jp.Segment{Node: v, Type: ty, Index: ix})
			case 2:
				s := jp.Segment{Node: v, Type: ty, Name: name, Index: ix}
				dp, model = dp.Push(s), append(model, s)
			case 3:
				dp, model = dp.Pop(), model[:n-1]
			}
			sym.Assert(old.Len() == n, "the operand is unchanged")
			sym.Assert(dp.Len() == len(model), "Len is the number of segments")
			for i := range model {
				sameSegment(dp.P[i], model[i])
			}
			if len(model) > 0 {
				sameSegment(dp.Last(), model[len(model)-1])
			}
		}
	}})

	// P23: long arrays
	add(H{Prop: "P23", Name: "long", Bounds: "length of arrays of 6 to 130 elements, compared with any int", Cases: fixed(4), Setup: func(c int) (string, func()) {
		text := []string{"length(@.a)", "@.a.length()", "length($[0].a)", "length(@.a) + 0"}[c]
		p := parse("$[?(" + text + " === @.n)]")
		return text, func() {
			n := []int{6, 7, 8, 9, 15, 16, 17, 64, 127, 128, 130}[sym.Choose("length", 11)]
			a := make([]any, n)
			k := sym.Int("n")
			sym.Assert(holds(p, map[string]any{"a": a, "n": k}) == (k == n), "length is the number of elements")
		}
	}})
}

var (
	widths = []int{1, 2, 3, 7, 8, 9, 16, 17, 33}
	chains = []int{2, 3, 4, 5, 8, 9, 17}
	sizes  = []int{0, 1, 2, 3, 4, 7, 8, 9, 16, 17, 33}
	bases  = []int{1, 2, 3, 4, 7, 8, 9, 16, 32, 64, 126, 127, 128, 129, 255, 256, 257}
)

func name2(i int) string { return string([]byte{"abc"[i%3]}) }
