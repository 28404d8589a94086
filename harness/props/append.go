package props

import (
	jp "github.com/bserdar/gojsonpath"
	"verif/harness/sym"
)

// P15: many paths put together, in groups of all sizes
func init() {
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17}
	add(H{Prop: "P15", Name: "append-many", Bounds: "1 to 17 steps of keys, indexes and wildcards, up to two of which descend, appended at once or in groups of 1 to 9; chains of as many levels, one of which is an object or array, its member of any name of one character", Cases: fixed(3 * len(sizes)), Setup: func(c int) (string, func()) {
		n, mix := sizes[c/3], c%3
		deep1, deep2 := -1, -1
		if mix > 0 {
			deep1 = n / 2
		}
		if mix > 1 {
			deep2 = n - 1
		}
		parts := []jp.Path{jp.SelectRootPath}
		var steps []step
		for i := 0; i < n; i++ {
			var p jp.Path
			switch (i + mix) % 3 {
			case 0:
				p = jp.KeySelectorPath("a")
				steps = append(steps, rChild("a"))
			case 1:
				p = jp.IndexSelectorPath(-1)
				steps = append(steps, rIndex(-1))
			case 2:
				p = jp.WildcardPath
				steps = append(steps, rWild)
			}
			if (i == deep1 || i == deep2) && i < n-1 {
				p = jp.RecursiveDescent(p)
				steps = append(steps, rDeep)
			}
			parts = append(parts, p)
		}
		all := jp.Append(parts...)
		var paths []jp.Path
		for g := 1; g <= 9 && g <= n; g++ {
			var groups []jp.Path
			for i := 0; i < len(parts); i += g {
				groups = append(groups, jp.Append(parts[i:min(i+g, len(parts))]...))
			}
			paths = append(paths, jp.Append(groups...))
		}
		again := jp.Append(parts...)
		paths = append(paths, all, again, jp.Append(jp.Path{}, all), jp.Append(all, jp.Path{}), jp.Append(all))
		return "$ and " + sym.Itoa(n) + " steps, mix " + sym.Itoa(mix), func() {
			odd := sym.Choose("odd", n)
			x := leaf(1)
			for i := n - 1; i >= 0; i-- {
				switch {
				case i == odd && sym.Choose("kind", 2) == 0:
					x = obj([]string{"~", sym.ASCII("name", 1)}, leaf(2), x)
					sym.Assume(x.keys[1] != "~")
				case i == odd:
					x = arr(leaf(2), x)
				case (i+mix)%3 == 0:
					x = obj([]string{"b", "a"}, leaf(2), x)
				default:
					x = arr(leaf(2), x)
				}
			}
			t := &Tree{root: x}
			want := dedup(ref(t.root, steps...))
			sameSet(t, dedup(selected(t, paths[sym.Choose("grouping", len(paths))])), want)
		}
	}})
}
