package props

import (
	"math"

	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// robust are paths of every kind, many of them odd; some may not parse.
var robust = []string{
	"$", "@", "*", "$.a", "$.a.b", "$['a']", "$[0]", "$[-1]", "$[0:2]", "$[::-1]", "$[2:0:-1]", "$.*", "$[*]", "$..a", "$..*", "$..", "$..[0]", "$..[0:1]", "$..['a',0]", "$[0,'a',*]",
	"/", "/a", "/a/b", "/*", "/0", "/a/*", "/'a'", "/null", "/true", "a", "0", "'a'", "a.b", "$.0", "$.'a'", "$.null", "$.true", "$.-1", "$.$", "$.@", "$[$]", "$[@]", "$..$", "$..@", "$.a.$.b", "$[a]",
	"$['a':'b']", "$[@:]", "$[$:]", "$[1.5:2.5]", "$[null:true]", "$[[1]:]", "$[::'x']", "$[$.a:$.b:$.c]", "$[@.a:]", "$[:@.b:@.c]", "$[1.5]", "$[null]", "$[true]", "$[''] ", "$[[0]]", "$[(0)]", "$[1+1]", "$[-$.a]", "$[+1]", "$[!0]", "$[1e3:]", "$[0:1e30]", "$[-1.5:]",
	"length(@)", "$.length()", "$.a.length()", "$[length(@)]", "$[?(@.length())]", "$[?(length())]", "$[?(length(@,1,2))]", "$[?(@.a.length() > 0)]", "$[?(nope(@))]", "$[?(@.nope())]", "$[?(nope())]",
	"$[?(@)]", "$[?($)]", "$[?(*)]", "$[?(@.*)]", "$[?(@..a)]", "$[?(@[?(@.a)])]", "$[?(1)]", "$[?('a')]", "$[?(null)]", "$[?([])]", "$[?([1])]", "$[?([,])]", "$[?(@[1:])]", "$[?(@[@.a])]", "$[?(@[$.a])]", "$[?(@['a','b'])]", "?(@.a)", "$.?(@.a)", "$..?(@.a)",
	"$[?(@.a == @.b)]", "$[?(@.a === @.b)]", "$[?(@.a != @.b)]", "$[?(@.a !== @.b)]", "$[?(@.a < @.b)]", "$[?(@.a >= @.b)]", "$[?(@.a && @.b)]", "$[?(@.a || @.b)]", "$[?(!@.a)]", "$[?(-@.a)]", "$[?(+@.a)]", "$[?(~@.a)]",
	"$[?(@.a + @.b)]", "$[?(@.a - @.b)]", "$[?(@.a * @.b)]", "$[?(@.a / @.b)]", "$[?(@.a % @.b)]", "$[?(@.a ** @.b)]", "$[?(@.a & @.b)]", "$[?(@.a | @.b)]", "$[?(@.a ^ @.b)]", "$[?(@.a in @.b)]", "$[?(@.a in [@.b])]", "$[?(@ == @)]", "$[?(@ < @)]", "$[?(@ in @)]", "$[?(@ + @)]", "$[?(@.* == @.*)]", "$[?(@.* < 1)]", "$[?(@.* + 1)]", "$[?(-@.*)]", "$[?(@.* in @.*)]", "$[?([1] == [1])]", "$[?([1] < 1)]", "$[?(@.a / 0)]", "$[?(@.a % 0)]",
}

// pairs are expressions over the members a and b of the element.
var pairs = []string{
	"@.a", "!@.a", "@.a == @.b", "@.a != @.b", "@.a === @.b", "@.a !== @.b", "@.a < @.b", "@.a <= @.b", "@.a > @.b", "@.a >= @.b", "@.a && @.b", "@.a || @.b",
	"@.a + @.b == 3", "@.a - @.b == 3", "@.a * 2 == @.b", "@.a / 2 === @.b", "@.a % 3 === @.b", "-@.a === @.b", "@.a in [@.b, 1]", "@.a in @.b", "@.a == null", "@.a == 'x'", "@.a == 2.5", "@.a < 7", "@.a === true", "length(@.a) == 1", "@.a.length() == 1", "@['a']", "@[?(@ == 1)]", "@.* == @.a",
}

// node is the document node of an operand.
func (r R) node() *T {
	x := &T{val: r.any()}
	switch r.kind {
	case 'a':
		x = &T{kind: kArr, n: 1, kids: []*T{leaf(1)}}
	case 'o':
		x = obj([]string{"q"}, leaf(1))
	}
	for i, k := range x.kids {
		k.parent, k.pos = x, i
	}
	return x
}

// small is an int of 0..max, a bool, 'x', or nothing.
func small(name string, max int, kinds string, concrete bool) R {
	switch kinds[sym.Choose(name+".kind", len(kinds))] {
	case 'i':
		i := sym.IntRange(name, 0, max)
		if concrete {
			i = sym.ConcreteInt(i)
		}
		return R{kind: 'i', i: i}
	case 'b':
		return R{kind: 'b', b: sym.Bool(name)}
	case 's':
		return R{kind: 's', s: "x"}
	}
	return R{kind: 'm'}
}

// hardOp tells operators whose terms are too hard for the solver.
func hardOp(op string) bool { return op == "**" || op == "/" || op == "%" }

// term is any int, or -1..2 if concrete, or a bool.
func term(name string, concrete bool) R {
	if sym.Choose(name+".kind", 2) == 1 {
		return R{kind: 'b', b: sym.Bool(name)}
	}
	if concrete {
		return R{kind: 'i', i: sym.ConcreteInt(sym.IntRange(name, -1, 2))}
	}
	return R{kind: 'i', i: sym.Int(name)}
}

// scalar is value with strings and floats from short lists.
func scalar(name, kinds string) R {
	k := kinds[sym.Choose(name+".kind", len(kinds))]
	if k == 's' {
		return R{kind: 's', s: []string{"", "x", "7", "-1.5"}[sym.Choose(name, 4)]}
	}
	if k == 'f' {
		return R{kind: 'f', f: []float64{0.5, math.NaN(), math.Inf(1), -1e300}[sym.Choose(name, 4)]}
	}
	if k == 'j' {
		return R{kind: 'i', i: []int{0, -7, 7, 1 << 62}[sym.Choose(name, 4)]}
	}
	return value(name, string([]byte{k}))
}

type oddStruct struct{ A int }

func init() {
	quickShape := func(tier int) shape {
		if tier > 0 {
			return shape{widths: []int{2, 2, 1}}
		}
		return shape{widths: []int{2, 1}}
	}
	tiered := fixed

	// P20: no path and no document makes a search panic or hang
	parseAny := func(text string) (jp.Path, bool) {
		p, err := jp.Parse(text)
		return p, err == nil
	}
	add(H{Prop: "P20", Name: "robust-tree", Bounds: sym.Itoa(len(robust)) + " paths of all kinds over any tree of depth 2 and widths 2,1 (thorough: 2,2,1) with null values", Cases: tiered(len(robust)), Setup: func(c int) (string, func()) {
		p, ok := parseAny(robust[c])
		return robust[c], func() {
			if !ok {
				return
			}
			t := newTree(quickShape(sym.Tier()))
			t.strict = true
			describe(t)
			n := 0
			jp.Search(t, p, func(dp jp.DocPath) {
				faithful(t, dp)
				n++
			})
			r, _ := jp.Find(t, p)
			sym.Assert(len(r) == n, "Find and Search select as many nodes")
		}
	}})
	add(H{Prop: "P20", Name: "robust-values", Bounds: sym.Itoa(len(robust)) + " paths of all kinds over documents that are null, any bool, any int (4 where it meets a string in < or >=), one of 4 float64s or 4 strings, an array, an object, a record of two of these, or Go values of other types", Cases: fixed(len(robust)), Setup: func(c int) (string, func()) {
		p, ok := parseAny(robust[c])
		return robust[c], func() {
			if !ok {
				return
			}
			var doc any
			switch sym.Choose("doc", 4) {
			case 0:
				x := scalar("root", "nbifsao")
				doc = x.any()
			case 1:
				if text := robust[c]; text == "$[?(@.a < @.b)]" || text == "$[?(@.a >= @.b)]" {
					// strings are compared with the decimal form of ints
					doc = []any{record("ab", scalar("a", "nbjfsaom"), scalar("b", "njsaom"))}
					break
				}
				doc = []any{record("ab", scalar("a", "nbifsaom"), scalar("b", "nisaom"))}
			case 2:
				doc = record("abc", scalar("a", "ifs"), scalar("b", "nia"), scalar("c", "im"))
			case 3:
				odd := []any{int64(5), float32(1.5), uint8(3), []string{"a"}, map[string]int{"a": 1}, oddStruct{1}, &oddStruct{2}, (*int)(nil), []any(nil), map[string]any(nil), []byte("x"), 'r'}
				x := odd[sym.Choose("odd", len(odd))]
				switch sym.Choose("at", 3) {
				case 0:
					doc = x
				case 1:
					doc = []any{map[string]any{"a": x, "b": 1}}
				case 2:
					doc = map[string]any{"a": x, "b": x}
				}
			}
			jp.Find(jp.MapModel{Doc: doc}, p)
			sym.Assert(true, "Find returned")
		}
	}})

	// P21: what is selected depends on the document, not on its model
	add(H{Prop: "P21", Name: "models-agree", Bounds: sym.Itoa(len(pairs)) + " filters over two operands, each null, any bool, int, float64, string of up to 2 bytes, array, object or nothing (arithmetic: no floats and strings); MapModel against a model with nodes and values of its own", Cases: fixed(len(pairs)), Setup: func(c int) (string, func()) {
		text := "$[?(" + pairs[c] + ")]"
		p := parse(text)
		ordered := c >= 6 && c <= 9
		return text, func() {
			kinds := "nbifsaom"
			if c >= 12 && c <= 17 {
				kinds = "nbiaom"
			}
			x, y := value("a", kinds), value("b", kinds)
			if ordered {
				sym.Assume(x.numeric() && y.numeric() || x.kind == 's' && y.kind == 's')
			}
			var names []string
			var ks []*T
			if x.kind != 'm' {
				names, ks = append(names, "a"), append(ks, x.node())
			}
			if y.kind != 'm' {
				names, ks = append(names, "b"), append(ks, y.node())
			}
			elem := obj(names, ks...)
			root := &T{kind: kArr, n: 1, kids: []*T{elem}}
			elem.parent = root
			got := selected(&Tree{root: root}, p)
			sym.Assert(len(got) <= 1, "one element is selected at most once")
			sym.Assert((len(got) == 1) == holds(p, record("ab", x, y)), "both models select the same")
		}
	}})
	add(H{Prop: "P21", Name: "mapmodel", Bounds: "MapModel over any tree of depth 1 and width 2 (thorough: 3) and values of other Go types, an empty container nil or not; any keys of up to one byte", Cases: tiered(1), Setup: func(c int) (string, func()) {
		return "MapModel", func() {
			t := newTree(shape{widths: []int{2 + sym.Tier()}, key: anyKey, val: func(name string) any { return value(name, "nbifs").any() }})
			describe(t)
			doc := toAny(t.root)
			if sym.Choose("nil", 2) == 1 {
				doc = toNil(t.root)
			}
			m := jp.MapModel{Doc: doc}
			sym.Assert(sym.Same(m.Root(), doc), "Root is the document")
			sym.Assert(int(m.Type(doc)) == t.root.kind, "Type is the type of the node")
			k := anyKey("k", 0)
			switch t.root.kind {
			case kObj:
				sym.Assert(m.Len(doc) == t.root.n, "Len is the number of members")
				keys := m.Keys(doc)
				sym.Assert(len(keys) == t.root.n, "Keys has every key once")
				for i := 0; i < t.root.n; i++ {
					found := 0
					for _, key := range keys {
						if key == t.root.keys[i] {
							found++
						}
					}
					sym.Assert(found == 1, "Keys has every key once")
				}
				v, ok := m.Key(doc, k)
				want := rChild(k)(t.root)
				sym.Assert(ok == (len(want) == 1), "Key tells whether there is such a member")
				if ok {
					sym.Assert(sym.Same(v, want[0].val), "Key returns the member")
				}
			case kArr:
				sym.Assert(m.Len(doc) == t.root.n, "Len is the number of elements")
				for i := 0; i < t.root.n; i++ {
					sym.Assert(sym.Same(m.Elem(doc, i), t.root.kids[i].val), "Elem returns the element")
				}
			default:
				sym.Assert(sym.Same(m.Value(doc), doc), "Value returns the value")
			}
		}
	}})

	// P23: functions
	type fn struct {
		text string
		arg  func(a *T, n int) *T // the document
		n    func(n int) int
	}
	same := func(n int) int { return n }
	elemA := func(a *T, n int) *T {
		e := obj([]string{"a", "n"}, a, leaf(n))
		r := &T{kind: kArr, n: 1, kids: []*T{e}}
		e.parent = r
		return r
	}
	fns := []fn{
		{"$[?(length(@.a) === @.n)]", elemA, same},
		{"$[?(@.a.length() === @.n)]", elemA, same},
		{"$[?(@['a'].length() === @.n)]", elemA, same},
		{"$[?(length(@['a']) === @.n)]", elemA, same},
		{"$[?(@.n === length(@.a))]", elemA, same},
		{"$[?(length($[0].a) === @.n)]", elemA, same},
		{"$[?($[0].a.length() === @.n)]", elemA, same},
		{"$[?(length(@.x) === @.n)]", elemA, func(int) int { return 0 }},
		{"$[?(@.x.length() === @.n)]", elemA, func(int) int { return 0 }},
		{"$[?(length([1,@.a,3]) === @.n)]", elemA, func(int) int { return 3 }},
		{"$[?(length([]) === @.n)]", elemA, func(int) int { return 0 }},
		{"$[?(length(@.a) + 1 === @.n)]", elemA, func(n int) int { return n + 1 }},
		{"$[?(@..a.length() === @.n)]", elemA, same},
		{"$[?(length(@..a) === @.n)]", elemA, same},
		{"$[?($..a.length() === @.n)]", elemA, same},
		{"$[?($[0]..a.length() === @.n)]", elemA, same},
		{"$[?(@['a','a'].length() === @.n)]", elemA, same},
		{"$[?($.*.a.length() === @.n)]", elemA, same},
		{"$[?($[*]['a'].length() === @.n)]", elemA, same},
		{"$[?($[-1:].a.length() === @.n)]", elemA, same},
		{"$[?($[?(@.a)].a.length() === @.n)]", elemA, same},
		{"$[?(@.a.length() * 2 === @.n)]", elemA, func(n int) int { return 2 * n }},
	}
	add(H{Prop: "P23", Name: "length", Bounds: "arrays of 0..5 elements compared with any int; 22 calls, over MapModel and another model", Cases: fixed(len(fns)), Setup: func(c int) (string, func()) {
		f := fns[c]
		p := parse(f.text)
		return f.text, func() {
			a := array("v", 0, 5, leaves)
			n := sym.Int("n")
			t := &Tree{root: f.arg(a, n)}
			want := sym.IteInt(n == f.n(a.n), 1, 0)
			if sym.Choose("model", 2) == 0 {
				sym.Assert(len(selected(t, p)) == want, "length is the number of elements")
				return
			}
			r, err := jp.Find(jp.MapModel{Doc: toAny(t.root)}, p)
			sym.Assert(err == nil, "Find reports no error")
			sym.Assert(len(r) == want, "length is the number of elements")
		}
	}})
	unknown := []string{"$[?(nope(@.a))]", "$[?(@.a.nope())]", "$[?(nope())]", "$[?(!nope(@.a))]", "$[?(nope(@.a) == null)]", "$[?(@.nope() != 1)]", "$[?(Length(@.a) == 0)]", "$..[?(nope(@))]", "$[?(lengt(@.a) == 0)]"}
	add(H{Prop: "P23", Name: "unknown-function", Bounds: "9 calls of functions that do not exist, over null, any bool, int, float64, string, array, object or nothing", Cases: fixed(len(unknown)), Setup: func(c int) (string, func()) {
		p := parse(unknown[c])
		return unknown[c], func() {
			r, _ := jp.Find(jp.MapModel{Doc: []any{record("a", value("a", "nbifsaom"))}}, p)
			sym.Assert(len(r) == 0, "a filter that cannot be evaluated selects nothing")
		}
	}})

	// P24: blanks. A _ in a template is a place where blanks may be.
	type blank struct {
		text  string
		exprs bool // over records of values, else over trees
	}
	blanks := []blank{
		{"$_._a_", false}, {"$_._a_._b_", false}, {"$_._*_", false}, {"$_[_'a'_]_", false}, {"$_[_0_,_-1_]_", false}, {"$_[_*_]_._a", false}, {"$_.._a_", false}, {"$_.._*_", false}, {"$_.._['a'_]_", false}, {"$.._[_0_]", false}, {"$_[_a_,_'b'_]_", false}, {"$[_0:1_]", false}, {"$_[_?(@_._a)_]_", false}, {"$[_?(@_[_0_])_]", false},
		{"/a_/_b_", false}, {"/*_/_'a'_/_0_", false}, {"$_._'a'_[_0_]", false}, {"$..a_[_0_]_.._b", false},
		{"$[?(@.a_==_@.b)]", true}, {"$[?(@.a_!=_@.b)]", true}, {"$[?(@.a_===_@.b)]", true}, {"$[?(@.a_!==_@.b)]", true}, {"$[?(@.a_<_@.b)]", true}, {"$[?(@.a_<=_@.b)]", true}, {"$[?(@.a_>_@.b)]", true}, {"$[?(@.a_>=_@.b)]", true}, {"$[?(@.a_&&_@.b)]", true}, {"$[?(@.a_||_@.b)]", true}, {"$[?(!_@.a)]", true}, {"$[?(-_@.a_==_@.b)]", true}, {"$[?(+_@.a_==_@.b)]", true},
		{"$[?(@.a_+_@.b_==_3)]", true}, {"$[?(@.a -_@.b_==_3)]", true}, {"$[?(@.a_*_2_==_@.b)]", true}, {"$[?(@.a_/_2_==_@.b)]", true}, {"$[?(@.a_%_3_==_@.b)]", true}, {"$[?(@.a_**_2_==_@.b)]", true}, {"$[?(@.a in_[_@.b_,_1_])]", true}, {"$[?(@_._a_==_'x')]", true},
	}
	slots := func(s string) (plain string, at []int) {
		for i := 0; i < len(s); i++ {
			if s[i] == '_' {
				at = append(at, len(plain))
			} else {
				plain += s[i : i+1]
			}
		}
		return
	}
	type bcase struct {
		blank
		plain string
		at    []int
		slot  int // the slot with arbitrary blanks; -1: all slots
	}
	var bcases []bcase
	for _, b := range blanks {
		plain, at := slots(b.text)
		spaced := ""
		for i := range b.text {
			if b.text[i] == '_' {
				spaced += " \t\n\r \r\n\t "
			} else {
				spaced += b.text[i : i+1]
			}
		}
		warmUp("P24", plain, spaced)
		for k := -1; k < len(at); k++ {
			bcases = append(bcases, bcase{b, plain, at, k})
		}
	}
	add(H{Prop: "P24", Name: "blanks", Bounds: sym.Itoa(len(blanks)) + " paths with one or two arbitrary blank characters at any one place, or any one at all places, against the path without; any tree of objects and arrays with 2 children and 1 grandchild each, or two operands, the first 0..9, 'x' or nothing, the second 0..9, true or false", Cases: fixed(len(bcases)), Setup: func(c int) (string, func()) {
		b := bcases[c]
		plain := parse(b.plain)
		desc := b.text
		if b.slot >= 0 {
			desc = b.plain[:b.at[b.slot]] + "_" + b.plain[b.at[b.slot]:]
		}
		pow := false
		for i := range desc {
			pow = pow || i > 0 && desc[i-1:i+1] == "**"
		}
		return desc, func() {
			text, last := "", 0
			every := ""
			if b.slot < 0 {
				every = string([]byte{byte(sym.RuneIn("blank", " \t\n\r"))})
			}
			for k, at := range b.at {
				text += b.plain[last:at]
				last = at
				text += every
				if k == b.slot {
					n := 1 + sym.Choose("n", 2)
					for i := 0; i < n; i++ {
						text += string([]byte{byte(sym.RuneIn("blank"+sym.Itoa(i), " \t\n\r"))})
					}
				}
			}
			text += b.plain[last:]
			p, err := jp.Parse(text)
			sym.Assert(err == nil, "the path is valid")
			if b.exprs {
				doc := record("ab", small("a", 9, "ism", pow), small("b", 9, "ib", pow))
				sym.Assert(holds(p, doc) == holds(plain, doc), "blanks do not change what is selected")
				return
			}
			full := func(name string, depth, w int) int { return w }
			inner := func(name string, depth int) int { return sym.IntRange(name, 1, 2) }
			t := newTree(shape{widths: []int{2, 1}, val: one, size: full, kind: inner})
			describe(t)
			x, y := selected(t, p), selected(t, plain)
			sym.Assert(len(x) == len(y), "blanks do not change what is selected")
			for i := range x {
				sym.Assert(x[i] == y[i], "blanks do not change what is selected")
			}
		}
	}})

	// P25: precedence and associativity
	type oper struct {
		op   string
		prec int
	}
	opers := []oper{{"**", 9}, {"*", 8}, {"/", 8}, {"%", 8}, {"+", 7}, {"-", 7}, {"<", 6}, {"<=", 6}, {">", 6}, {">=", 6}, {"in", 5}, {"==", 4}, {"!=", 4}, {"===", 4}, {"!==", 4}, {"&&", 1}, {"||", 0}}
	add(H{Prop: "P25", Name: "precedence", Bounds: "every pair of the 17 binary operators between three operands, each true, false or any int (-1..2 with ** / %), against the expression with parentheses", Cases: fixed(len(opers) * len(opers)), Setup: func(c int) (string, func()) {
		o1, o2 := opers[c/len(opers)], opers[c%len(opers)]
		text := "$[?(@.a " + o1.op + " @.b " + o2.op + " @.c)]"
		full := "$[?((@.a " + o1.op + " @.b) " + o2.op + " @.c)]"
		if o1.prec < o2.prec || o1.op == "**" && o2.op == "**" {
			full = "$[?(@.a " + o1.op + " (@.b " + o2.op + " @.c))]"
		}
		p, q := parse(text), parse(full)
		hard := hardOp(o1.op) || hardOp(o2.op)
		return text, func() {
			doc := record("abc", term("a", hard), term("b", hard), term("c", hard))
			sym.Assert(holds(p, doc) == holds(q, doc), "the operators are grouped by precedence: "+full)
		}
	}})
	// group writes x op x op x op x with parentheses
	group := func(ops []oper) string {
		args := []string{"@.a", "@.b", "@.c", "@.d"}[:len(ops)+1]
		for len(ops) > 0 {
			// the tightest operator, the rightmost ** or the leftmost other
			k := 0
			for i, o := range ops {
				if o.prec > ops[k].prec || o.prec == ops[k].prec && o.op == "**" {
					k = i
				}
			}
			args[k] = "(" + args[k] + " " + ops[k].op + " " + args[k+1] + ")"
			args = append(args[:k+1], args[k+2:]...)
			ops = append(append([]oper(nil), ops[:k]...), ops[k+1:]...)
		}
		return args[0]
	}
	levels := []oper{opers[0], opers[1], opers[5], opers[6], opers[10], opers[11], opers[15], opers[16]}
	lv := func(tier int) []oper {
		if tier > 0 {
			return opers
		}
		return levels
	}
	add(H{Prop: "P25", Name: "precedence-3", Bounds: "every three operators of the 8 levels (thorough: of all 17) between four operands, each true, false or any int (-1..2 with ** / %), against the expression with parentheses", Cases: func(tier int) int { return len(lv(tier)) * len(lv(tier)) * len(lv(tier)) }, Setup: func(c int) (string, func()) {
		l := lv(sym.Tier())
		o := []oper{l[c/len(l)/len(l)], l[c/len(l)%len(l)], l[c%len(l)]}
		text, full := "$[?(@.a "+o[0].op+" @.b "+o[1].op+" @.c "+o[2].op+" @.d)]", "$[?("+group(o)+")]"
		p, q := parse(text), parse(full)
		hard := hardOp(o[0].op) || hardOp(o[1].op) || hardOp(o[2].op)
		return text, func() {
			doc := record("abcd", term("a", hard), term("b", hard), term("c", hard), term("d", hard))
			sym.Assert(holds(p, doc) == holds(q, doc), "the operators are grouped by precedence: "+full)
		}
	}})
	unary := []string{"-", "!", "+"}
	for i, o := range opers {
		warmUp("P25", "$[?(@.a "+o.op+" @.b "+o.op+" @.c)]", "$[?((@.a "+o.op+" @.b) "+opers[(i+1)%len(opers)].op+" (@.b "+o.op+" @.c))]")
	}
	warmUp("P25", "$[?(-@.a == (-@.b))]", "$[?(!@.a == (!@.b))]", "$[?(+@.a == (+@.b))]")
	add(H{Prop: "P25", Name: "precedence-unary", Bounds: "3 unary operators before each of the 17 binary operators, and after it; operands true, false or any int (-1..2 with ** / %)", Cases: fixed(2 * len(opers) * len(unary)), Setup: func(c int) (string, func()) {
		o, u := opers[c/2/len(unary)], unary[c/2%len(unary)]
		text, full := u+"@.a "+o.op+" @.b", "("+u+"@.a) "+o.op+" @.b"
		if c%2 == 1 {
			text, full = "@.a "+o.op+" "+u+"@.b", "@.a "+o.op+" ("+u+"@.b)"
		}
		p, q := parse("$[?("+text+")]"), parse("$[?("+full+")]")
		return text, func() {
			doc := record("ab", term("a", hardOp(o.op)), term("b", hardOp(o.op)))
			sym.Assert(holds(p, doc) == holds(q, doc), "unary operators bind tighter: "+full)
		}
	}})
}
