package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// onlyMember asserts that p selects the member called key of an object, and
// only that, whatever the name of the other member.
func onlyMember(p jp.Path, key, other string, wrap func(*T) *T) {
	sym.Assume(key != other)
	want := leaf(1)
	// the models look names up in an unspecified order
	o := obj([]string{key, other}, want, leaf(2))
	t := &Tree{root: o}
	if wrap != nil {
		t.root = wrap(o)
	}
	sameList(selected(t, p), []*T{want})
}

func init() {
	tiered := fixed
	for _, prop := range []string{"P16", "P17"} {
		warmUp(prop, "$[?(@ == 'a')]", "$['a','b']", "$..a", "$..'a'", "$.a['b']", "$.*.'a'", "/a/'b'")
	}

	// P16: any key, quoted by MakeKeyString or Join, addresses exactly the member of that name
	type form struct {
		desc string
		text func(k string) string
		wrap func(*T) *T
	}
	under := func(k string) func(*T) *T { return func(x *T) *T { return obj([]string{k}, x) } }
	quote := []form{
		{"Join(k)", func(k string) string { return jp.Join(k) }, nil},
		{"Join('a', k)", func(k string) string { return jp.Join("a", k) }, under("a")},
		{"$.K", func(k string) string { return "$." + jp.MakeKeyString(k) }, nil},
		{"$[K]", func(k string) string { return "$[" + jp.MakeKeyString(k) + "]" }, nil},
		{"$.a[K]", func(k string) string { return "$.a[" + jp.MakeKeyString(k) + "]" }, under("a")},
		{"/a/K", func(k string) string { return "/a/" + jp.MakeKeyString(k) }, under("a")},
		{"$..K", func(k string) string { return "$.." + jp.MakeKeyString(k) }, nil},
		{"$.*.K", func(k string) string { return "$.*." + jp.MakeKeyString(k) }, under("a")},
		{"$['zzzzz',K]", func(k string) string { return "$['zzzzz'," + jp.MakeKeyString(k) + "]" }, nil},
	}
	add(H{Prop: "P16", Name: "quote", Bounds: "any key of up to 2 Unicode characters, up to 3 (thorough 4) ASCII characters (the longest in 2 notations; thorough: 9); 9 notations; another member with any other name of up to as many characters", Cases: func(t int) int {
		if t == 0 {
			return len(quote)*3 + 2
		}
		return len(quote) * 4
	}, Setup: func(c int) (string, func()) {
		f, n := quote[c%len(quote)], c/len(quote)
		return f.desc + " of " + sym.Itoa(n), func() {
			var k string
			switch {
			case n < 3:
				k = sym.Runes("k", n)
			default:
				k = sym.ASCII("k", 3+sym.Tier())
			}
			text := f.text(k)
			p, err := jp.Parse(text)
			sym.Assert(err == nil, "the path is valid")
			onlyMember(p, k, sym.ASCII("other", sym.Choose("other.len", n+1)), f.wrap)
		}
	}})
	// keys that read like something else
	words := []string{"null", "true", "false", "in", "length", "nul", "nulla", "True", "inn", "*", "$", "@", "..", "0", "1", "-1", "00", "0x1", "1e5", "1.5", "a-b", "a b", " ", "/", "a/b", "'", "\"", "'\"", "\\", "\\n", "\n", "\r", "\t", "\x00", "a.b", "a[0]", "?(@)", "é", "日本", "\u2028", "\u200c", "a\u0301", "_", "$a", "_1", "ab1"}
	add(H{Prop: "P16", Name: "words", Bounds: "46 keys that read like keywords, numbers, operators, escapes or identifiers; 9 notations; next to any other member name of up to 2 ASCII characters", Cases: fixed(len(quote)), Setup: func(c int) (string, func()) {
		f := quote[c]
		return f.desc, func() {
			k := words[sym.Choose("word", len(words))]
			p, err := jp.Parse(f.text(k))
			sym.Assert(err == nil, "the path is valid")
			onlyMember(p, k, sym.ASCII("other", sym.Choose("other.len", 3)), f.wrap)
		}
	}})
	// P16: long keys, many keys
	add(H{Prop: "P16", Name: "long", Bounds: "keys of 1 to 130 characters, plain ones and ones to be quoted, with one any ASCII character at the start, in the middle or at the end; 9 notations; Join of up to 33 such keys", Cases: fixed(len(quote) + 1), Setup: func(c int) (string, func()) {
		if c == len(quote) {
			return "Join", func() {
				n := []int{2, 3, 8, 17, 33}[sym.Choose("parts", 5)]
				at := sym.Choose("at", 2) * (n - 1)
				k := sym.ASCII("k", 1)
				ks := repeat(n, func(i int) string {
					if i == at {
						return k
					}
					return []string{"a", "b c", "\"", "1x"}[i%4]
				})
				p, err := jp.Parse(jp.Join(ks...))
				sym.Assert(err == nil, "the path is valid")
				x := linear(n, func(int) int { return kObj }, func(i int) string { return ks[i] })
				end := x
				for i := 0; i < n; i++ {
					end = end.kids[0]
				}
				got := selected(&Tree{root: x}, p)
				sym.Assert(len(got) == 1 && got[0] == end, "Join addresses the member")
			}
		}
		f := quote[c]
		return f.desc, func() {
			n := []int{3, 8, 16, 17, 63, 64, 130}[sym.Choose("length", 7)]
			at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
			fill := []string{"x", " "}[sym.Choose("fill", 2)]
			ch := sym.ASCII("k", 1)
			k := join(repeat(n, func(i int) string {
				if i == at {
					return ch
				}
				return fill
			}), "")
			p, err := jp.Parse(f.text(k))
			sym.Assert(err == nil, "the path is valid")
			other := k[:n-1] + sym.ASCII("other", 1)
			onlyMember(p, k, other, f.wrap)
		}
	}})

	// MakeKeyString leaves what may stay, and two different keys never look alike
	add(H{Prop: "P16", Name: "join", Bounds: "Join of up to 3 keys of one ASCII character each", Cases: fixed(4), Setup: func(c int) (string, func()) {
		return "Join of " + sym.Itoa(c) + " keys", func() {
			var ks []string
			x := leaf(1)
			want := x
			for i := 0; i < c; i++ {
				ks = append(ks, sym.ASCII("k", 1))
			}
			for i := c - 1; i >= 0; i-- {
				o := sym.ASCII("other", 1)
				sym.Assume(o != ks[i])
				x = obj([]string{o, ks[i]}, leaf(2), x)
			}
			p, err := jp.Parse(jp.Join(ks...))
			sym.Assert(err == nil, "the path is valid")
			sameList(selected(&Tree{root: x}, p), []*T{want})
		}
	}})

	// P17: string literals
	type ctx struct {
		pre, post string
		q         byte
	}
	ctxs := []ctx{{"$[", "]", '\''}, {"$[", "]", '"'}, {"$.", "", '\''}, {"/", "", '"'}, {"$..", "", '"'}, {"$['zzzzz',", "]", '\''}}
	pieces := []string{"plain", "escape", "hex", "u4", "u{}", "continuation", "plain, escape", "escape, plain", "hex, plain", "escape, escape", "u4s, u4s", "hex, hex", "u{}, plain"}
	piece := func(kind string, q byte, i int) (text, val string) {
		name := kind + sym.Itoa(i)
		hexDigit := func(j int) (byte, int) {
			d := byte(sym.RuneIn(name+"."+sym.Itoa(j), "0123456789abcdefABCDEF"))
			switch {
			case d <= '9':
				return d, int(d - '0')
			case d >= 'a':
				return d, int(d - 'a' + 10)
			}
			return d, int(d - 'A' + 10)
		}
		switch kind {
		case "plain":
			r := sym.Rune(name)
			sym.Assume(r != rune(q))
			sym.Assume(r != '\\')
			sym.Assume(r != '\n')
			sym.Assume(r != '\r')
			return string(r), string(r)
		case "escape":
			r := sym.Rune(name)
			sym.Assume(sym.Not(sym.And(r >= '1', r <= '9')))
			sym.Assume(sym.Not(sym.Or(r == 'x', r == 'u')))
			sym.Assume(sym.Not(sym.Or(sym.Or(r == '\n', r == '\r'), sym.Or(r == 0x2028, r == 0x2029))))
			v := int(r)
			v = sym.IteInt(r == '0', 0, v)
			v = sym.IteInt(r == 'b', 8, v)
			v = sym.IteInt(r == 't', 9, v)
			v = sym.IteInt(r == 'n', 10, v)
			v = sym.IteInt(r == 'v', 11, v)
			v = sym.IteInt(r == 'f', 12, v)
			v = sym.IteInt(r == 'r', 13, v)
			return "\\" + string(r), string(rune(v))
		case "hex", "u4", "u4s":
			n := 2
			text = "\\x"
			v := 0
			switch kind {
			case "u4":
				n, text = 4, "\\u"
			case "u4s":
				text, v = "\\u20", 0x20
			}
			for j := 0; j < n; j++ {
				d, x := hexDigit(j)
				text += string([]byte{d})
				v = 16*v + x
			}
			sym.Assume(sym.Or(v < 0xD800, v > 0xDFFF))
			return text, string(rune(v))
		case "u{}":
			n := 1 + sym.Choose(name+".n", 6)
			text = "\\u{"
			v := 0
			for j := 0; j < n; j++ {
				d, x := byte('0'), 0
				if j >= n-2-2*sym.Tier() {
					d, x = hexDigit(j)
				} else if j == n-5 || n == 3 || n == 4 {
					d, x = '1', 1
				}
				text += string([]byte{d})
				v = 16*v + x
			}
			sym.Assume(sym.Or(v < 0xD800, v > 0xDFFF))
			sym.Assume(v <= 0x10FFFF)
			return text + "}", string(rune(v))
		case "continuation":
			return "\\" + []string{"\n", "\r", "\r\n", "\u2028", "\u2029"}[sym.Choose(name, 5)], ""
		}
		panic(kind)
	}
	var lcases [][2]int
	for i := range ctxs {
		for j, ps := range pieces {
			if i < 2 || ps == "plain" || ps == "escape" || ps == "hex" || ps == "continuation" {
				lcases = append(lcases, [2]int{i, j})
			}
		}
	}
	add(H{Prop: "P17", Name: "literal", Bounds: "string literals of one or two pieces: any plain character, any escaped character, any \\xHH, \\uHHHH, \\u{H...} (up to 6 digits; the last 2 arbitrary, thorough the last 4), line continuations; both quotes; 6 positions in a path (4 of them with single pieces)", Cases: tiered(len(lcases)), Setup: func(c int) (string, func()) {
		x, ps := ctxs[lcases[c][0]], pieces[lcases[c][1]]
		return x.pre + string([]byte{x.q}) + ps + string([]byte{x.q}) + x.post, func() {
			text, key := x.pre+string([]byte{x.q}), ""
			if len(ps) < 13 && sym.Choose("lead", 2) == 1 {
				text, key = text+"a", "a"
			}
			start := 0
			for i := 0; i <= len(ps); i++ {
				if i == len(ps) || ps[i] == ',' {
					t, v := piece(ps[start:i], x.q, i)
					text, key = text+t, key+v
					start = i + 2
				}
			}
			p, err := jp.Parse(text + string([]byte{x.q}) + x.post)
			sym.Assert(err == nil, "the literal is valid")
			onlyMember(p, key, sym.ASCII("other", sym.Choose("other.len", 3)), nil)
		}
	}})
	add(H{Prop: "P17", Name: "literal-value", Bounds: "the same literals compared with any string of up to 2 characters (quick: single pieces)", Cases: func(t int) int {
		if t == 0 {
			return 2 * 5
		}
		return 2 * len(pieces)
	}, Setup: func(c int) (string, func()) {
		q, ps := "'\""[c%2], pieces[c/2]
		return "$[?(@ == LITERAL)] " + ps, func() {
			text, val := "", ""
			start := 0
			for i := 0; i <= len(ps); i++ {
				if i == len(ps) || ps[i] == ',' {
					t, v := piece(ps[start:i], q, i)
					text, val = text+t, val+v
					start = i + 2
				}
			}
			p, err := jp.Parse("$[?(@ == " + string([]byte{q}) + text + string([]byte{q}) + ")]")
			sym.Assert(err == nil, "the literal is valid")
			sym.Assert(holds(p, val), "the literal equals the string it stands for")
			other := sym.Runes("other", sym.Choose("other.len", 3))
			sym.Assert(sym.Iff(holds(p, other), other == val), "and no other string")
		}
	}})
}
