package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// The language of paths, as Jsonpath.g4 describes it, for texts of ASCII
// characters. Sets of positions are bit masks.

type token struct {
	kind string // punctuation stands for itself; num, str, id, word (null, true, false), sp
	text string
}

func letter(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '$' || c == '_'
}
func digit(c byte) bool { return c >= '0' && c <= '9' }
func hex(c byte) bool   { return digit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }
func hex_(c byte) bool  { return hex(c) || c == '_' }
func blankByte(c byte) bool {
	return c == ' ' || c == '\t' || c == '\r' || c == '\n'
}

var puncts = []string{"...", "===", "!==", "..", "?(", "**", "<=", ">=", "==", "!=", "&&", "||", ".", "/", "*", "@", "(", ")", ",", ":", "[", "]", "+", "-", "~", "!", "%", "<", ">", "&", "^", "|"}

func run(s string, i int, in func(byte) bool) int {
	for i < len(s) && in(s[i]) {
		i++
	}
	return i
}

// stringEnd returns the position after the string literal at i, 0 if there is none.
func stringEnd(s string, i int) int {
	q := s[i]
	i++
	for i < len(s) {
		c := s[i]
		switch {
		case c == q:
			return i + 1
		case c == '\r' || c == '\n':
			return 0
		case c != '\\':
			i++
		default:
			i++
			if i >= len(s) {
				return 0
			}
			e := s[i]
			i++
			switch {
			case e == '\r' || e == '\n':
				i = run(s, i, func(c byte) bool { return c == '\r' || c == '\n' })
			case e == 'x':
				if i+2 > len(s) || !hex_(s[i]) || !hex_(s[i+1]) {
					return 0
				}
				i += 2
			case e == 'u':
				if i < len(s) && s[i] == '{' {
					j := run(s, i+1, hex_)
					if j == i+1 || j >= len(s) || s[j] != '}' {
						return 0
					}
					i = j + 1
					continue
				}
				for k := 0; k < 4; k++ {
					if i >= len(s) || !hex_(s[i]) {
						return 0
					}
					i++
				}
			case digit(e) && e != '0':
				return 0
			}
		}
	}
	return 0
}

// numberEnd returns the position after the number literal at i.
func numberEnd(s string, i int) int {
	if s[i] == '0' && i+2 < len(s) {
		c, d := s[i+1], s[i+2]
		switch {
		case (c == 'x' || c == 'X') && hex(d):
			return run(s, i+3, hex_)
		case (c == 'o' || c == 'O') && d >= '0' && d <= '7':
			return run(s, i+3, func(c byte) bool { return c >= '0' && c <= '7' || c == '_' })
		case (c == 'b' || c == 'B') && (d == '0' || d == '1'):
			return run(s, i+3, func(c byte) bool { return c == '0' || c == '1' || c == '_' })
		}
	}
	digit_ := func(c byte) bool { return digit(c) || c == '_' }
	i = run(s, i, digit_)
	if i+1 < len(s) && s[i] == '.' && digit(s[i+1]) {
		i = run(s, i+2, digit_)
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		j := i + 1
		if j < len(s) && (s[j] == '+' || s[j] == '-') {
			j++
		}
		if k := run(s, j, digit_); k > j {
			i = k
		}
	}
	return i
}

// tokens splits a text; it fails if there is a character no token has.
func tokens(s string) ([]token, bool) {
	var out []token
	for i := 0; i < len(s); {
		c := s[i]
		j, kind := 0, ""
		switch {
		case blankByte(c):
			kind, j = "sp", run(s, i, blankByte)
		case digit(c):
			kind, j = "num", numberEnd(s, i)
		case c == '\'' || c == '"':
			kind, j = "str", stringEnd(s, i)
		case letter(c):
			j = run(s, i, func(c byte) bool { return letter(c) || digit(c) || c == '-' })
			kind = "id"
			switch s[i:j] {
			case "null", "true", "false":
				kind = "word"
			case "in", "$":
				kind = s[i:j]
			}
		default:
			for _, p := range puncts {
				if i+len(p) <= len(s) && s[i:i+len(p)] == p {
					kind, j = p, i+len(p)
					break
				}
			}
		}
		if j == 0 {
			return nil, false
		}
		out = append(out, token{kind, s[i:j]})
		i = j
	}
	return out, true
}

type recognizer struct {
	t    []token
	memo map[int]int
}

func (r *recognizer) is(i int, kinds ...string) bool {
	if i >= len(r.t) {
		return false
	}
	for _, k := range kinds {
		if r.t[i].kind == k {
			return true
		}
	}
	return false
}

// tok steps over a token of one of the kinds.
func (r *recognizer) tok(set int, kinds ...string) int {
	out := 0
	for i := 0; i < len(r.t); i++ {
		if set>>i&1 == 1 && r.is(i, kinds...) {
			out |= 2 << i
		}
	}
	return out
}

func (r *recognizer) opt(set int, kinds ...string) int { return set | r.tok(set, kinds...) }
func (r *recognizer) sp(set int) int                   { return r.opt(set, "sp") }

func (r *recognizer) star(set int, f func(int) int) int {
	for {
		n := set | f(set)
		if n == set {
			return set
		}
		set = n
	}
}

var binaries = []string{".", "..", "**", "*", "/", "%", "+", "-", "<", ">", "<=", ">=", "in", "==", "!=", "===", "!==", "&", "^", "|", "&&", "||"}

// exprs returns where expressions that start in set can end.
func (r *recognizer) exprs(set int) int {
	out := 0
	for i := 0; i < len(r.t); i++ {
		if set>>i&1 == 1 {
			out |= r.expr(i)
		}
	}
	return out
}

func (r *recognizer) expr(i int) int {
	if e, ok := r.memo[i]; ok {
		return e
	}
	at := 1 << i
	e := r.tok(at, "num", "str", "word", "id", "$", "@", "*")
	e |= r.tok(r.exprs(r.tok(at, "(", "?(")), ")")
	if r.is(i, "[") {
		e |= r.tok(r.sp(r.elements(r.sp(r.tok(at, "[")))), "]")
	}
	e |= r.exprs(r.sp(r.tok(at, "+", "-", "~", "!")))
	e = r.star(e, func(e int) int {
		s := r.sp(e)
		out := r.exprs(r.sp(r.tok(s, binaries...)))
		out |= r.tok(s, "..")
		out |= r.bracket(r.tok(s, "[")) | r.bracket(r.tok(r.sp(r.tok(s, "..")), "["))
		if open := r.tok(e, "("); open != 0 {
			args := r.star(r.exprs(open), func(s int) int { return r.exprs(r.tok(s, ",")) })
			out |= r.tok(open|r.opt(args, ","), ")")
		}
		return out
	})
	r.memo[i] = e
	return e
}

func (r *recognizer) elements(set int) int {
	commas := func(set int) int { return r.star(set, func(s int) int { return r.tok(s, ",") }) }
	set = r.sp(commas(set))
	set |= r.exprs(set)
	set = r.star(set, func(s int) int { return r.exprs(r.sp(commas(r.tok(r.sp(s), ",")))) })
	return commas(set)
}

// bracket is the rest of [...] after the opening bracket.
func (r *recognizer) bracket(open int) int {
	item := func(set int) int {
		set = r.sp(set)
		e := r.exprs(set)
		s := r.tok(set|e, ":")
		s |= r.exprs(s)
		s = r.opt(s, ":")
		s |= r.exprs(s)
		return e | s
	}
	if open == 0 {
		return 0
	}
	set := r.star(item(open), func(s int) int { return item(r.tok(r.sp(s), ",")) })
	return r.tok(r.sp(set), "]")
}

func newRecognizer(s string) (*recognizer, bool) {
	t, ok := tokens(s)
	return &recognizer{t, map[int]int{}}, ok
}

// inLanguage tells whether the grammar has the text.
func inLanguage(s string) bool {
	if s == "/" {
		return true
	}
	r, ok := newRecognizer(s)
	if !ok || len(r.t) == 0 {
		return false
	}
	end := 1 << len(r.t)
	if r.is(0, "/") {
		name := func(set int) int { return r.tok(set, "num", "str", "word", "id", "*") }
		set := r.star(name(2), func(s int) int { return name(r.sp(r.tok(r.sp(s), "/"))) })
		return r.sp(set)&end != 0
	}
	return r.sp(r.exprs(1))&end != 0
}

// plain tells whether the text is a path of names, indexes, slices, wildcards
// and recursive descents, which no later step of Parse may reject.
func plain(s string) bool {
	r, ok := newRecognizer(s)
	if !ok || len(r.t) == 0 {
		return false
	}
	end := 1 << len(r.t)
	if r.is(0, "/") {
		return inLanguage(s)
	}
	set := r.star(r.tok(1, "$", "@"), func(set int) int {
		name := func(set int) int { return r.tok(set, "num", "str", "word", "id", "*") }
		num := func(set int) int { return r.tok(r.opt(set, "-"), "num") }
		item := func(set int) int {
			s := r.tok(set|num(set), ":")
			s |= num(s)
			s |= r.tok(s, ":")
			s |= num(s)
			return name(set) | num(set) | s
		}
		out := name(r.tok(set, ".", ".."))
		open := r.tok(set|r.tok(set, ".."), "[")
		if open != 0 {
			out |= r.tok(r.star(item(open), func(s int) int { return item(r.tok(s, ",")) }), "]")
		}
		return out
	})
	return set&end != 0
}

func init() {
	type ctx struct{ pre, post string }
	ctxs := []ctx{{"", ""}, {"$", ""}, {"/", ""}, {"$.", ""}, {"$[", "]"}, {"$..", ""}, {"/a", "a"}, {"$.a", ""}, {"$['", "']"}, {"$[?(@.a", "1)]"}, {"$[?(", ")]"}, {"$[0", "0]"}, {"$.a", ".a"}, {"$[?(a", ")]"}}
	for i, x := range ctxs {
		for k, m := range []string{"", ".", "[0]", "a", "1", "'", "@.a", " ", "..", ":", ",", "]", "(", ")", "*", "-", "==", "!", "#", "?", "/", "+1"} {
			if x.pre != "$['" || k < 4 || i == 0 {
				warmUp("P19", x.pre+m+x.post)
			}
		}
	}
	tiered := fixed
	add(H{Prop: "P19", Name: "texts", Bounds: "every ASCII text of up to 2 (thorough: 3) characters between " + sym.Itoa(len(ctxs)) + " prefixes and suffixes", Cases: tiered(len(ctxs) * 4), Setup: func(c int) (string, func()) {
		x, n := ctxs[c/4], c%4
		return x.pre + "<" + sym.Itoa(n) + ">" + x.post, func() {
			if n > 2+sym.Tier() {
				sym.Assert(true, "")
				return
			}
			text := x.pre + sym.ASCII("t", n) + x.post
			judge(text)
		}
	}})

	// one edit of a valid path
	bases := []string{"$.a.b", "$['a'].b", "$[0][-1]", "$[1:2]", "$[0::2]", "$..a", "$..[0]", "$.*", "$[*,'a']", "/a/0/*", "/'a'/b", "$[?(@.a)]", "$[?(@.a==1)]", "$[?(@['a']<'x')]", "$[?(!@.a&&@.b)]", "$[?(length(@.a)>0)]", "$[?(@.a in [1])]", "$[?(@.b+1==$.c)]", "$.length()"}
	type edit struct {
		base string
		at   int
		kind int // 0 delete, 1 insert, 2 replace
	}
	var edits []edit
	quick := 0
	for kind := 0; kind < 3; kind++ {
		for _, b := range bases {
			for at := 0; at <= len(b); at++ {
				if at < len(b) || kind == 1 {
					edits = append(edits, edit{b, at, kind})
				}
			}
		}
		if kind == 1 {
			quick = len(edits)
		}
	}
	for _, b := range bases {
		warmUp("P19", b, b[:len(b)-1], b+"'", b+"]", b+"#")
	}
	add(H{Prop: "P19", Name: "edits", Bounds: sym.Itoa(len(bases)) + " paths with any one character removed, or any ASCII character inserted anywhere (thorough: or replaced by any ASCII character)", Cases: func(tier int) int {
		if tier > 0 {
			return len(edits)
		}
		return quick
	}, Setup: func(c int) (string, func()) {
		e := edits[c]
		desc := e.base[:e.at] + "<" + sym.Itoa(e.kind) + ">" + e.base[e.at:]
		return desc, func() {
			text := e.base[:e.at]
			if e.kind > 0 {
				text += sym.ASCII("c", 1)
			}
			if e.kind != 1 {
				text += e.base[e.at+1:]
			} else {
				text += e.base[e.at:]
			}
			judge(text)
		}
	}})

	// characters that no token has
	add(H{Prop: "P19", Name: "stray", Bounds: sym.Itoa(len(bases)) + " paths with a symbol or emoji (U+2190..U+2BFF, U+1F300..U+1F64F) inserted anywhere outside of quotes", Cases: fixed(len(bases)), Setup: func(c int) (string, func()) {
		b := bases[c]
		return b, func() {
			at := sym.Choose("at", len(b)+1)
			quotes := 0
			for i := 0; i < at; i++ {
				if b[i] == '\'' {
					quotes++
				}
			}
			r := sym.Rune("r")
			sym.Assume(sym.Or(sym.And(r >= 0x2190, r <= 0x2bff), sym.And(r >= 0x1f300, r <= 0x1f64f)))
			text := b[:at] + string(r) + b[at:]
			_, err := jp.Parse(text)
			sym.Assert((err == nil) == (quotes%2 == 1), "a character that belongs to no token is rejected")
			r2, err2 := jp.ParseAndFind(jp.MapModel{Doc: map[string]any{"a": 1}}, text)
			sym.Assert((err2 == nil) == (quotes%2 == 1), "ParseAndFind rejects what Parse rejects")
			sym.Assert(err2 == nil || len(r2) == 0, "ParseAndFind returns nothing with an error")
		}
	}})
}

// judge compares what Parse makes of a text with the grammar.
func judge(text string) {
	_, err := jp.Parse(text)
	if inLanguage(text) {
		sym.Assert(err == nil || !plain(text), "a valid path is accepted")
	} else {
		sym.Assert(err != nil, "an invalid path is rejected")
	}
}
