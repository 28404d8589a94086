package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// A pc is a path with its reference meaning.
type pc struct {
	text    string
	build   func() jp.Path // instead of text
	ref     []step
	ordered bool // the order of the results is specified (document order)
	set     bool // how often a node is selected is not specified
	digits  bool // an index on an object is not specified
}

func (c pc) path() jp.Path {
	if c.build != nil {
		return c.build()
	}
	return parse(c.text)
}

// structural checks paths against the reference on every tree of a shape.
// Even cases use the contract-checking model, odd ones MapModel.
func structural(prop, name, bounds string, s func(tier int) (tree, mapm shape), cases []pc) {
	n := 2 * len(cases)
	add(H{Prop: prop, Name: name, Bounds: bounds, Cases: fixed(n), Setup: func(c int) (string, func()) {
		pc := cases[c/2]
		p := pc.path()
		st, sm := s(sym.Tier())
		if c%2 == 0 {
			return pc.text + " (any DocModel)", func() {
				t := newTree(st)
				describe(t)
				got := selected(t, p)
				want := ref(t.root, pc.ref...)
				if pc.set {
					got = dedup(got)
				}
				sameSet(t, got, want)
				if pc.ordered {
					sameList(got, want)
				}
			}
		}
		return pc.text + " (MapModel)", func() {
			t := newTree(sm)
			describe(t)
			sym.MapOrder(true)
			got := selectedMap(t, p)
			if pc.set {
				got = dedup(got)
			}
			sameSet(t, got, ref(t.root, pc.ref...))
		}
	}})
}
