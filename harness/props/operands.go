package props

import (
	"strings"

	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// Operands that are none, and operands that cannot be evaluated, at every
// place where an expression has an operand.

var binaryOps = []string{"==", "!=", "===", "!==", "<", "<=", ">", ">=", "in", "&&", "||", "+", "-", "*", "/", "%", "**"}

// noOperands are neither paths nor literals, lists or calls.
var noOperands = []string{"a", "1()", "'a'()", "(1)()", "@()", "@.*()", "@[0:1]()", "1[0]", "'a'.b", "[1][0]", "(1)[0]", "@.(a)", "~@.a", "a.b", "a[0]", "@[(1)]", "@[@.a]", "length", "length().a", "length()[0]", "f(1)(2)"}

func init() {
	var places []string
	for _, o := range binaryOps {
		places = append(places, "X "+o+" 1", "@.a "+o+" X", "length(1 "+o+" X)")
	}
	places = append(places, "X", "!X", "-X", "+X", "(X)", "((X))", "[X]", "[1, X]", "[X, 1]", "[[X]]", "@.a in [X]", "[X] in @.a", "f(X)", "length(X)", "length(@.a, X)", "length(X, @.a)", "@.a.length(X)", "X.length()", "(X).length()", "length([X])",
		"@[?(X)]", "@[?(X)].b", "@..[?(X)]", "$[?(X)]", "@.a[?(!X)]", "@[0,?(X)]", "@[?(X),0]", "@[?(@.a),?(X)]", "@[?(X == 1)] == 2", "!!X", "@[X:]", "@[:X]", "@[0:X]", "@[0:1:X]", "@[::X]", "@[length(X)]")
	for _, p := range places {
		warmUp("P19", "$[?("+strings.ReplaceAll(p, "X", "a")+")]")
	}
	frames := []string{"$[?(E)]", "$..[?(E)]", "$.a[0,?(E)].b"}
	add(H{Prop: "P19", Name: "no-operands", Bounds: sym.Itoa(len(noOperands)) + " operands that are none, and any name of 1 (thorough: 2) ASCII letters, at " + sym.Itoa(len(places)) + " places of expressions, in 3 paths in turn", Cases: fixed(len(places)), Setup: func(c int) (string, func()) {
		return places[c], func() {
			x := ""
			if n := sym.Choose("operand", len(noOperands)+1); n < len(noOperands) {
				x = noOperands[n]
			} else {
				for i := 0; i < 1+sym.Tier(); i++ {
					b := sym.ASCII("letter", 1)
					sym.Assume(b[0] >= 'a' && b[0] <= 'z' || b[0] >= 'A' && b[0] <= 'Z' || b[0] == '_')
					x += b
				}
			}
			f := frames[c%3]
			_, err := jp.Parse(strings.ReplaceAll(f, "E", strings.ReplaceAll(places[c], "X", x)))
			sym.Assert(err != nil, "an operand that is none is reported")
		}
	}})

	// P23: calls that cannot be evaluated
	calls := []string{"nope(@.a)", "@.a.nope()", "nope()", "length(nope())", "nope().length()"}
	var around []string
	for _, o := range binaryOps {
		switch o {
		case "&&":
			around = append(around, "X && @.b", "true && X", "!(X && @.b)", "!(true && X)", "!(X && true)", "!(X && false)")
		case "||":
			around = append(around, "X || @.b", "false || X", "!(X || @.b)", "!(false || X)", "X || true")
		case "in":
			around = append(around, "X in [@.b]", "X in [null]", "@.b in X", "!(X in [1])", "!(@.b in X)", "null in [X]", "null in [1, X]", "!(1 in [X, 2])", "!([X] in [1])")
		default:
			around = append(around, "X "+o+" @.b", "@.b "+o+" X", "!(X "+o+" @.b)", "!(@.b "+o+" X)", "(X "+o+" 1) == null", "(1 "+o+" X) == null", "(X "+o+" null) != 1")
		}
	}
	around = append(around, "X", "!X", "!!X", "-X", "!(-X)", "+X", "!(+X)", "-X == null", "+X == null", "(X)", "!(X)", "[X]", "![X]", "[1, X]", "![[X]]", "length(X)", "!length(X)", "length([X]) == 1", "length(X) == 0", "(X).length() == 0", "[X].length() == 1", "length(@.a, X) == 0", "@[0:X] == null", "!(X == X)")
	for _, p := range around {
		warmUp("P23", "$[?("+strings.ReplaceAll(p, "X", "nope(@.a)")+")]")
	}
	add(H{Prop: "P23", Name: "not-evaluated", Bounds: sym.Itoa(len(around)) + " expressions around 5 calls of functions that do not exist, over null, any bool, int, string, array, object or nothing", Cases: fixed(len(around)), Setup: func(c int) (string, func()) {
		var ps []jp.Path
		for _, x := range calls {
			p, err := jp.Parse("$[?(" + strings.ReplaceAll(around[c], "X", x) + ")]")
			if err != nil {
				p = jp.Path{}
			}
			ps = append(ps, p)
		}
		return around[c], func() {
			p := ps[sym.Choose("call", len(ps))]
			e := record("ab", value("a", "niao"), value("b", "nbisaom"))
			r, _ := jp.Find(jp.MapModel{Doc: []any{e}}, p)
			sym.Assert(len(r) == 0, "a filter that cannot be evaluated selects nothing")
		}
	}})
}
