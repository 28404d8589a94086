package props

import (
	"math"

	"verif/harness/sym"
)

// P03: slices of large arrays
func init() {
	sizes := []int{17, 33, 64, 65, 129, 257, 300}
	forms := []string{"$.v[$.i:$.j:$.k]", "$.v[-1000,$.i:$.j:$.k]", "$..[$.i:$.j:$.k]"}
	add(H{Prop: "P03", Name: "large", Bounds: "slices of arrays of 17, 33, 64, 65, 129, 257 and 300 elements, alone, in unions and below ..; starts, ends and steps about the ends, the middle, powers of two and the ends of the range of ints; every combination up to 33 elements, 52 combinations above", Cases: fixed(len(sizes) * len(forms)), Setup: func(c int) (string, func()) {
		n, text := sizes[c/len(forms)], forms[c%len(forms)]
		p := parse(text)
		list := c%len(forms) != 0
		bounds := []int{0, 1, -1, n / 2, 64 - n, n - 1, n, n + 1, -n, -n - 1, math.MaxInt, math.MinInt}
		steps := []int{1, -1, 2, -3, 7, n - 1, n, -n, 1 - n, 64, math.MaxInt, math.MinInt, 0}
		v := &T{kind: kArr, n: n}
		for i := 0; i < n; i++ {
			v.kids, v.keys = append(v.kids, &T{val: "e", parent: v, pos: i}), append(v.keys, "")
		}
		return text + " of " + sym.Itoa(n) + " elements", func() {
			var i, j, k int
			if n > 33 {
				at := sym.Choose("slice", len(bounds)*len(steps)/3)
				i, j, k = bounds[at%len(bounds)], bounds[(5*at+at/12+3)%len(bounds)], steps[at%len(steps)]
			} else {
				i, j, k = bounds[sym.Choose("i", len(bounds))], bounds[sym.Choose("j", len(bounds))], steps[sym.Choose("k", len(steps))]
			}
			t := &Tree{root: obj([]string{"i", "j", "k", "v"}, leaf(i), leaf(j), leaf(k), v)}
			got := selected(t, p)
			// the reference counts in steps, so that nothing overflows
			clamp := func(x, lo, hi int) int {
				if x < 0 {
					x += n
				}
				return max(lo, min(hi, x))
			}
			var want []int
			if k > 0 {
				for x, end := clamp(i, 0, n), clamp(j, 0, n); x < end; x += k {
					want = append(want, x)
					if k >= n {
						break
					}
				}
			} else if k < 0 {
				for x, end := clamp(i, -1, n-1), clamp(j, -1, n-1); x > end; x += k {
					want = append(want, x)
					if k <= -n {
						break
					}
				}
			}
			sym.Assert(len(got) == len(want), "as many elements as the slice has")
			same := true
			for x, g := range got {
				w := want[x]
				if list && k < 0 {
					w = want[len(want)-1-x]
				}
				same = same && g == v.kids[w]
			}
			sym.Assert(same, "the elements of the slice, in order")
		}
	}})
}
