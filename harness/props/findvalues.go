package props

import (
	jp "github.com/bserdar/gojsonpath"
	"verif/harness/sym"
)

// P13: Find has a result for each capture of Search, also if they are equal
func init() {
	all := pathsOf()
	same := func(x, y any) bool {
		switch v := x.(type) {
		case map[string]any:
			w, ok := y.(map[string]any)
			return ok && len(v) == len(w)
		case []any:
			w, ok := y.([]any)
			return ok && len(v) == len(w)
		}
		return sym.Same(x, y)
	}
	add(H{Prop: "P13", Name: "find-equal", Bounds: sym.Itoa(len(all)) + " paths made of steps of every kind, over any MapModel tree of depth 2 and width 2 (thorough: 2,2,1), the values all the same bool, int, float64 or string, or null", Cases: fixed(len(all)), Setup: func(c int) (string, func()) {
		p := parse(all[c].text)
		return all[c].text, func() {
			var v any
			switch sym.Choose("value", 5) {
			case 0:
				v = sym.Bool("v")
			case 1:
				v = 1
			case 2:
				v = "x"
			case 3:
				v = 0.5
			}
			widths := []int{2, 2}
			if sym.Tier() > 0 {
				widths = []int{2, 2, 1}
			}
			t := newTree(shape{widths: widths, val: func(string) any { return v }})
			describe(t)
			m := jp.MapModel{Doc: toAny(t.root)}
			var want []any
			err := jp.Search(m, p, func(dp jp.DocPath) { want = append(want, dp.Last().Node) })
			sym.Assert(err == nil, "Search reports no error")
			got, err := jp.Find(m, p)
			sym.Assert(err == nil && got != nil, "Find reports no error")
			sym.Assert(len(got) == len(want), "Find has a result for each capture of Search")
			// members come in any order
			for _, x := range want {
				n := 0
				for _, y := range want {
					if same(x, y) {
						n++
					}
				}
				for _, y := range got {
					if same(x, y) {
						n--
					}
				}
				sym.Assert(n == 0, "Find has the nodes that Search captures")
			}
		}
	}})
}
