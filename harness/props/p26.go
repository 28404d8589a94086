package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

func init() {
	tiered := fixed
	shared := append([]string{
		"$[?(@.a == $.b)]", "$[?(@.a in [1,2])]", "$[?(length(@.a) == 1)]", "$[?(@.a.length() == 1)]", "$[?(@.a + 1 == 2)]", "$[?(-@.a == -1)]", "$[?(@.a < 2 || !@.b)]", "$[?(@[?(@.a)])]", "$[-1]", "$[::-1]", "$[1::2]", "$['a',0,1:]", "/a/0", "/*/'a'",
	}, searchPaths...)
	warmUp("P26", shared...)
	type run struct {
		nodes []any
		err   error
	}
	agree := func(runs []run, want []any) {
		for _, r := range runs {
			sym.Assert(r.err == nil, "Find reports no error")
			sym.Assert(len(r.nodes) == len(want), "concurrent searches select as many nodes")
			for i := range want {
				sym.Assert(r.nodes[i] == want[i], "concurrent searches select the same nodes")
			}
		}
	}
	add(H{Prop: "P26", Name: "concurrent-search", Bounds: sym.Itoa(len(shared)) + " compiled paths, each used by two goroutines to search any tree of depth 2 and widths 2,1 (thorough: 2,2,1), the same or another; every interleaving, as neither search writes to memory the other can reach", Cases: tiered(2 * len(shared)), Setup: func(c int) (string, func()) {
		text := shared[c/2]
		p := parse(text)
		return text, func() {
			s := shape{widths: []int{2, 1}, val: one}
			if sym.Tier() > 0 {
				s.widths = []int{2, 2, 1}
			}
			docs := []*Tree{newTree(s), nil}
			docs[1] = docs[0]
			if c%2 == 1 {
				docs[1] = newTree(shape{widths: []int{1}, val: one})
			}
			runs := make([]run, 2)
			sym.Shared("two searches with one path write to the same memory", func(i int) {
				r, err := jp.Find(docs[i], p)
				runs[i] = run{r, err}
			}, p, docs)
			for i := range runs {
				want, _ := jp.Find(docs[i], p)
				agree(runs[i:i+1], want)
			}
		}
	}})
	add(H{Prop: "P26", Name: "concurrent-mapmodel", Bounds: sym.Itoa(len(shared)) + " compiled paths, each used by two goroutines to search one MapModel document of depth 2 and widths 2,1", Cases: fixed(len(shared)), Setup: func(c int) (string, func()) {
		p := parse(shared[c])
		return shared[c], func() {
			t := newTree(shape{widths: []int{2, 1}, val: one})
			doc := jp.MapModel{Doc: toAny(t.root)}
			runs := make([]run, 2)
			sym.Shared("two searches of one document write to the same memory", func(i int) {
				r, err := jp.Find(doc, p)
				runs[i] = run{r, err}
			}, p, doc)
			want, _ := jp.Find(doc, p)
			for _, r := range runs {
				sym.Assert(r.err == nil, "Find reports no error")
				sym.Assert(len(r.nodes) == len(want), "concurrent searches select as many nodes")
			}
		}
	}})
	add(H{Prop: "P26", Name: "concurrent-parse", Bounds: sym.Itoa(len(shared)) + " texts parsed by two goroutines, and the paths combined with others by both", Cases: fixed(len(shared)), Setup: func(c int) (string, func()) {
		q := parse("$.a.*")
		return shared[c], func() {
			k := "k'"
			if shared[c] == "$.a" {
				k = sym.ASCII("k", 1)
			}
			ps := make([]jp.Path, 2)
			found := make([][]any, 2)
			t := newTree(shape{widths: []int{1, 1}, val: one})
			sym.Shared("two goroutines that parse and combine paths write to the same memory", func(i int) {
				p, err := jp.Parse(shared[c])
				if err != nil {
					panic(err)
				}
				if found[i], err = jp.ParseAndFind(t, shared[c]); err != nil {
					panic(err)
				}
				if _, err = jp.ParseAndFind(t, shared[(c+1+i)%len(shared)]); err != nil {
					panic(err)
				}
				jp.RecursiveDescent(q)
				jp.Append(q, p)
				jp.Append(jp.SelectRootPath, jp.WildcardPath, p)
				jp.RecursiveDescent(jp.SelectRootPath)
				jp.Append(q, jp.KeySelectorPath(k), jp.IndexSelectorPath(i))
				jp.MakeKeyString(k)
				jp.Join("a", k)
				ps[i] = p
			}, q, t)
			a, b := selected(t, ps[0]), selected(t, ps[1])
			sym.Assert(len(a) == len(b) && len(a) == len(found[0]) && len(a) == len(found[1]), "both parse the same path")
			for i := range a {
				sym.Assert(a[i] == b[i] && any(a[i]) == found[0][i] && any(a[i]) == found[1][i], "both find the same nodes")
			}
		}
	}})
}
