package props

import (
	jp "github.com/bserdar/gojsonpath"
	"verif/harness/sym"
)

// P01: identifiers of any characters. Whether a character can be part of an
// identifier depends on the version of Unicode; if it can, the identifier is
// the name of the member, as it is.
func init() {
	forms := []struct{ pre, post string }{{"$.", ""}, {"$..", ""}, {"/", ""}, {"$[", "]"}, {"$[zzz,", "]"}, {"$[?(@.", ")]"}, {"$.", ".zzz"}}
	shapes := []string{"r", "ra", "ar", "arb", "rr", "a-r", "$r", "r0"}
	warmUp("P01", "$.é", "/é-a", "$[é,$a0]")
	add(H{Prop: "P01", Name: "identifiers", Bounds: "identifiers with any one Unicode character, alone or next to others, in " + sym.Itoa(len(forms)) + " notations", Cases: fixed(len(forms) * len(shapes)), Setup: func(c int) (string, func()) {
		f, s := forms[c/len(shapes)], shapes[c%len(shapes)]
		return f.pre + s + f.post + ", r any character", func() {
			r := sym.Rune("r")
			sym.Assume(r >= 0x80)
			name := ""
			for _, ch := range s {
				if ch == 'r' {
					name += string(r)
				} else {
					name += string(ch)
				}
			}
			in := func(lo, hi rune) bool { return sym.And(r >= lo, r <= hi) }
			letter := sym.Or(sym.Or(in(0xC0, 0xD6), in(0x391, 0x3A1)), sym.Or(in(0x4E00, 0x9FA5), in(0xAC00, 0xD7A3)))
			p, err := jp.Parse(f.pre + name + f.post)
			if err != nil {
				sym.Assert(sym.Not(letter), "letters make identifiers")
				return
			}
			// blanks and the like are no identifiers
			sym.Assert(sym.Not(sym.Or(in(0x2000, 0x200B), sym.Or(in(0x2028, 0x202F), in(0x2190, 0x21FF)))), "blanks and arrows make no identifiers")
			other := []string{"ab", "a", "", "é", "e"}[sym.Choose("other", 5)]
			sym.Assume(other != name)
			val := any(map[string]any{"zzz": true})
			doc := map[string]any{name: val}
			switch {
			case f.pre == "$[?(@.":
				doc = map[string]any{"m": doc, "n": map[string]any{other: val}}
			default:
				doc[other] = 2
			}
			found, err := jp.Find(jp.MapModel{Doc: doc}, p)
			sym.Assert(err == nil && len(found) == 1, "the identifier selects the member of that name, and nothing else")
			none, err := jp.Find(jp.MapModel{Doc: map[string]any{other: val}}, p)
			sym.Assert(err == nil && len(none) == 0, "and no other")
		}
	}})
}
