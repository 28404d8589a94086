package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// A number literal is described by a form: d a decimal digit, h a hex digit, o
// an octal digit, t a binary digit; everything else stands for itself.
type numForm struct {
	form  string
	float bool
	// how many digits precede the point; the exponent
	exp int
}

func pow10(n int) float64 {
	p := 1.0
	for i := 0; i < n; i++ {
		p *= 10
	}
	return p
}

// number makes a literal of the form and the value it stands for.
func number(f numForm) (string, R) {
	text := ""
	base, v, frac, point := 10, 0, 0, false
	body := f.form
	if len(body) > 1 && body[0] == '0' {
		switch body[1] {
		case 'x', 'X':
			base = 16
		case 'o', 'O':
			base = 8
		case 'b', 'B':
			base = 2
		}
	}
	if base != 10 {
		text, body = body[:2], body[2:]
	}
	for i := 0; i < len(body); i++ {
		ch := body[i]
		set := ""
		switch ch {
		case 'd':
			set = "0123456789"
		case 'h':
			set = "0123456789abcdefABCDEF"
		case 'o':
			set = "01234567"
		case 't':
			set = "01"
		case '.':
			point = true
		case '_':
		case 'e', 'E':
			return finish(text+body[i:], v, frac, f)
		default:
			x := int(ch - '0')
			if ch >= 'a' {
				x = int(ch - 'a' + 10)
			}
			v = v*base + x
			if point {
				frac++
			}
		}
		if set == "" {
			text += body[i : i+1]
			continue
		}
		d := byte(sym.RuneIn(string([]byte{ch})+sym.Itoa(i), set))
		x := int(d - '0')
		if ch == 'h' {
			switch {
			case d <= '9':
			case d >= 'a':
				x = int(d - 'a' + 10)
			default:
				x = int(d - 'A' + 10)
			}
		}
		if f.float && d == '0' {
			x = 0
		}
		text += string([]byte{d})
		v = v*base + x
		if point {
			frac++
		}
	}
	return finish(text, v, frac, f)
}

func finish(text string, v, frac int, f numForm) (string, R) {
	if !f.float {
		return text, R{kind: 'i', i: v}
	}
	e := f.exp - frac
	if e < 0 {
		return text, R{kind: 'f', f: float64(v) / pow10(-e)}
	}
	return text, R{kind: 'f', f: float64(v) * pow10(e)}
}

func init() {
	warmUp("P18", "$[?(@ === 1)]", "$[?(@ === 0x1)]", "$[?(@ === 0o1)]", "$[?(@ === 0b1)]", "$[?(@ === -1)]", "$[1]", "$[0x1]", "$[0o1]", "$[0b1]", "$[-1]", "$[1:2]", "$[0x1:]")
	ints := []numForm{
		{form: "d"}, {form: "dd"}, {form: "ddd"}, {form: "d_d"}, {form: "dd__d"}, {form: "d_"}, {form: "1dddddd"}, {form: "922337203685477580d"},
		{form: "0xh"}, {form: "0xhh"}, {form: "0Xhh"}, {form: "0xh_h"}, {form: "0x7fffffffffffff0h"},
		{form: "0oo"}, {form: "0ooo"}, {form: "0Oo_oo"}, {form: "0bt"}, {form: "0bttt"}, {form: "0Bt_tt"},
		{form: "d_d_d"}, {form: "1_2_3_d_"}, {form: "0xh_h_h"}, {form: "0Xh__h_"}, {form: "0oo_o_o"}, {form: "0o7_7_7_o"}, {form: "0bt_t_t"}, {form: "0b1_0_1_t_"}, {form: "0b1__t__t"}, {form: "0b111111111111111111111111111111111111111111111111111111111111110"}, {form: "0b1010101010101010101010101010101010101010t"}, {form: "0o77777777777777777777o"}, {form: "0xffffffffffffffh"}, {form: "00000000000000000000000000000d"}, {form: "429496729d"}, {form: "214748364d"}, {form: "3276d"}, {form: "9_223_372_036_854_775_80d"},
	}
	floats := []numForm{
		{form: "d.d", float: true}, {form: "4d.d", float: true}, {form: "d.2d", float: true}, {form: "d_5.2_d", float: true}, {form: "0d.50", float: true},
		{form: "de2", float: true, exp: 2}, {form: "dE2", float: true, exp: 2}, {form: "de+1", float: true, exp: 1}, {form: "de-3", float: true, exp: -3}, {form: "d.de1_0", float: true, exp: 10},
		{form: "d.dE-2", float: true, exp: -2}, {form: "d.2dE+5", float: true, exp: 5}, {form: "0.00d", float: true}, {form: "de0", float: true},
		{form: "1_2_3.4_5_d", float: true}, {form: "d.1_2_3e1", float: true, exp: 1}, {form: "12345678901234.d", float: true}, {form: "de22", float: true, exp: 22}, {form: "de-22", float: true, exp: -22}, {form: "d.000000000001", float: true}, {form: "de+0_0_2", float: true, exp: 2}, {form: "00d.d", float: true}, {form: "4294967296d.5", float: true},
	}
	forms := append(append([]numForm{}, ints...), floats...)
	add(H{Prop: "P18", Name: "number-value", Bounds: "" + sym.Itoa(len(ints)) + " integer and " + sym.Itoa(len(floats)) + " float notations with one or two arbitrary digits (up to 20 in all, underscores, prefixes and exponents as given), compared by type and value with the number; integers also with any other", Cases: fixed(2 * len(forms)), Setup: func(c int) (string, func()) {
		f, neg := forms[c/2], c%2 == 1
		desc := "$[?(@ === " + f.form + ")]"
		if neg {
			desc = "$[?(@ === -" + f.form + ")]"
		}
		return desc, func() {
			text, v := number(f)
			sym.Assume(v.i >= 0) // 9223372036854775808 and more are no ints
			if neg {
				text, v = "-"+text, negate(v)
			}
			p, err := jp.Parse("$[?(@ === " + text + ")]")
			sym.Assert(err == nil, "the literal is valid")
			sym.Assert(holds(p, v.any()), "the literal is the number it reads as")
			if v.kind == 'f' {
				// that the float compares with nothing else is decided by P08
				sym.Assert(!holds(p, sym.Int("int")), "a float literal is a float")
				return
			}
			other := sym.Int("other")
			sym.Assume(other != v.i)
			sym.Assert(!holds(p, other), "and no other number")
			sym.Assert(!holds(p, float64(v.i)), "an integer literal is an int")
		}
	}})
	// floats that do not come out of a few exact steps
	exact := []struct {
		text string
		val  float64
	}{
		{"0.1", 0.1}, {"0.2", 0.2}, {"0.3", 0.3}, {"1e23", 1e23}, {"1.7976931348623157e308", 1.7976931348623157e308}, {"5e-324", 5e-324}, {"2.2250738585072014e-308", 2.2250738585072014e-308}, {"123456789.123456789", 123456789.123456789}, {"9007199254740993.0", 9007199254740993.0}, {"9_007_199_254_740_993e0", 9007199254740993.0}, {"3.141592653589793", 3.141592653589793}, {"1e-7", 1e-7}, {"16777217.0", 16777217.0}, {"1e100", 1e100}, {"4.35", 4.35}, {"0.000001", 0.000001}, {"1E+3_0", 1e30}, {"340282366920938463463374607431768211456.0", 340282366920938463463374607431768211456.0},
	}
	add(H{Prop: "P18", Name: "float-exact", Bounds: sym.Itoa(len(exact)) + " float literals, with and without a minus sign, against every float64", Cases: fixed(2 * len(exact)), Setup: func(c int) (string, func()) {
		text, v := exact[c/2].text, exact[c/2].val
		if c%2 == 1 {
			text, v = "-"+text, -v
		}
		p := parse("$[?(@ === " + text + ")]")
		return text, func() {
			f := sym.Float64("f")
			sym.Assert(sym.Iff(holds(p, f), f == v), "the literal is the float64 nearest to the number it reads as")
		}
	}})
	const perCase = 12
	add(H{Prop: "P18", Name: "float-more", Bounds: sym.Itoa(len(moreFloats)) + " float literals of 1 to 36 digits and exponents of -324 to 308, against every float64", Cases: fixed((len(moreFloats) + perCase - 1) / perCase), Setup: func(c int) (string, func()) {
		list := moreFloats[c*perCase:]
		if len(list) > perCase {
			list = list[:perCase]
		}
		ps := make([]jp.Path, len(list))
		for j := range list {
			ps[j] = parse("$[?(@ === " + list[j].text + ")]")
		}
		return list[0].text + " and others", func() {
			j := sym.Choose("literal", len(list))
			f := sym.Float64("f")
			sym.Assert(sym.Iff(holds(ps[j], f), f == list[j].val), "the literal is the float64 nearest to the number it reads as")
		}
	}})
	small := []string{"$[N]", "$[-N]", "$[N:]", "$[:N]", "$['x',N]", "$..[N]"}
	ifs := []numForm{{form: "0xh"}, {form: "0Xh"}, {form: "0oo"}, {form: "0Oo"}, {form: "0bt"}, {form: "0btt"}, {form: "0d"}, {form: "0_d"}, {form: "d_"}, {form: "00d"}, {form: "0b_t"[:2] + "t_t"}}
	add(H{Prop: "P18", Name: "number-index", Bounds: "hex, octal, binary and underscored integers of 1 or 2 arbitrary digits as indexes and slice bounds; arrays of 0..5 elements", Cases: fixed(len(small) * len(ifs)), Setup: func(c int) (string, func()) {
		form, f := small[c/len(ifs)], ifs[c%len(ifs)]
		k := 0
		for form[k] != 'N' {
			k++
		}
		return form[:k] + f.form + form[k+1:], func() {
			text, v := number(f)
			p, err := jp.Parse(form[:k] + text + form[k+1:])
			sym.Assert(err == nil, "the path is valid")
			a := array("v", 0, 5, leaves)
			got := selected(&Tree{root: a}, p)
			var want func(int) bool
			switch form {
			case "$[-N]":
				want = wantIndex(-v.i, a.n)
			case "$[N:]":
				want = func(i int) bool { return i >= v.i }
			case "$[:N]":
				want = func(i int) bool { return i < v.i }
			default:
				want = wantIndex(v.i, a.n)
			}
			selects(got, a, want)
		}
	}})
}
