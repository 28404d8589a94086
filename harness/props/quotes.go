package props

import (
	jp "github.com/bserdar/gojsonpath"
	"verif/harness/sym"
)

// P17: literals whose pieces could be mistaken for the end of the literal, with
// any characters next to them
func init() {
	leads := []struct{ text, val string }{{"\\'", "'"}, {"\\\"", "\""}, {"\\\\", "\\"}, {"\\\\\\'", "\\'"}, {"\\\\\\\\", "\\\\"}, {"\\x27", "'"}, {"\\u0022", "\""}, {"\\u{5C}", "\\"}, {"\\'\\\"\\'", "'\"'"}, {"OTHER", "OTHER"}, {"", ""}}
	shapes := []string{"Lcd", "cdL", "cLd", "Lcccc", "ccccL", "LcLd", "Laccb"}
	add(H{Prop: "P17", Name: "near-quotes", Bounds: sym.Itoa(len(leads)) + " escapes and quotes with up to two of any ASCII characters, or four of one, before, after and between them; both quotes; as keys and as operands", Cases: fixed(2 * len(leads)), Setup: func(c int) (string, func()) {
		q, other := "'", "\""
		if c%2 == 1 {
			q, other = other, q
		}
		l := leads[c/2]
		if l.text == "OTHER" {
			l.text, l.val = other, other
		}
		return q + l.text + " next to any characters" + q, func() {
			plain := func(name string) string {
				ch := sym.ASCII(name, 1)
				for _, bad := range []string{"\\", "\r", "\n", q} {
					sym.Assume(ch != bad)
				}
				return ch
			}
			var x, y string
			lit, want := q, ""
			for _, s := range shapes[sym.Choose("shape", len(shapes))] {
				switch s {
				case 'L':
					lit, want = lit+l.text, want+l.val
				case 'c':
					if x == "" {
						x = plain("c")
					}
					lit, want = lit+x, want+x
				case 'd':
					if y == "" {
						y = plain("d")
					}
					lit, want = lit+y, want+y
				default:
					lit, want = lit+string(s), want+string(s)
				}
			}
			lit += q
			if sym.Choose("place", 2) == 0 {
				p, err := jp.Parse("$[" + lit + "]")
				sym.Assert(err == nil, "the literal is valid")
				r, err := jp.Find(jp.MapModel{Doc: map[string]any{want: 1}}, p)
				sym.Assert(err == nil && len(r) == 1, "the literal is the key it spells")
				return
			}
			p, err := jp.Parse("$[?(@ == " + lit + ")]")
			sym.Assert(err == nil, "the literal is valid")
			sym.Assert(holds(p, want), "the literal is the string it spells")
		}
	}})
}
