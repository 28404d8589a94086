package props

import (
	jp "github.com/bserdar/gojsonpath"

	"verif/harness/sym"
)

// A T is a document node of symbolic shape: its kind, its number of children
// and its member names are solver variables. Every node the shape can need is
// allocated up front, so the shape is whatever kind and n say.
type T struct {
	kind   int // 0 value, 1 object, 2 array
	n      int // number of children of an object or array
	kids   []*T
	keys   []string
	val    any
	parent *T
	pos    int
	hits   int // times the code under test selected this node
	want   int // times the reference selects it
}

const (
	kVal = iota
	kObj
	kArr
)

// Tree is a DocModel over T. A strict one checks the documented contract of
// DocModel: Keys and Key only on objects, Elem only on arrays, Len only on
// objects and arrays, Value only on value nodes; another answers what MapModel
// does. Elem must be within bounds in any case.
type Tree struct {
	root   *T
	strict bool
}

func (t *Tree) Root() any { return t.root }
func (t *Tree) Type(n any) jp.NodeType {
	return jp.NodeType(n.(*T).kind)
}
func (t *Tree) Len(n any) int {
	x := n.(*T)
	if x.kind == kVal {
		sym.Assert(!t.strict, "Len is only asked of objects and arrays")
		if x.val == nil {
			return 0
		}
		return 1
	}
	return x.n
}
func (t *Tree) Key(n any, key string) (any, bool) {
	x := n.(*T)
	if x.kind != kObj {
		sym.Assert(!t.strict, "Key is only asked of objects")
		return nil, false
	}
	for i := 0; i < x.n; i++ {
		if x.keys[i] == key {
			return x.kids[i], true
		}
	}
	return nil, false
}
func (t *Tree) Keys(n any) []string {
	x := n.(*T)
	if x.kind != kObj {
		sym.Assert(!t.strict, "Keys is only asked of objects")
		return nil
	}
	out := make([]string, 0, len(x.keys))
	for i := 0; i < x.n; i++ {
		out = append(out, x.keys[i])
	}
	return out
}
func (t *Tree) Elem(n any, i int) any {
	x := n.(*T)
	if x.kind != kArr {
		sym.Assert(!t.strict, "Elem is only asked of arrays")
		return nil
	}
	sym.Assert(sym.And(i >= 0, i < x.n), "Elem is only asked for existing elements")
	return x.kids[sym.ConcreteInt(i)]
}
func (t *Tree) Value(n any) any {
	x := n.(*T)
	if x.kind != kVal {
		sym.Assert(!t.strict, "Value is only asked of value nodes")
		return x
	}
	return x.val
}

// shape describes how a symbolic tree is bounded.
type shape struct {
	widths []int                               // children per node, by depth; nodes below are values
	key    func(name string, i int) string     // member names; nil: "a", "b", ...
	val    func(name string) any               // values; nil: nil
	kind   func(name string, depth int) int    // nil: any
	size   func(name string, depth, w int) int // nil: 0..w
}

// newTree is any tree within the shape.
func newTree(s shape) *Tree { return &Tree{root: s.node("n", 0)} }

func (s shape) node(name string, depth int) *T {
	x := &T{}
	if s.val != nil {
		x.val = s.val(name)
	}
	if depth >= len(s.widths) {
		return x
	}
	w := s.widths[depth]
	if s.kind != nil {
		x.kind = s.kind(name+".kind", depth)
	} else {
		x.kind = sym.IntRange(name+".kind", 0, 2)
	}
	if s.size != nil {
		x.n = s.size(name+".n", depth, w)
	} else {
		x.n = sym.IntRange(name+".n", 0, w)
	}
	for i := 0; i < w; i++ {
		k := s.node(name+sym.Itoa(i), depth+1)
		k.parent, k.pos = x, i
		x.kids = append(x.kids, k)
		key := string([]byte{byte('a' + i)})
		if s.key != nil {
			key = s.key(name+".k"+sym.Itoa(i), i)
			for _, o := range x.keys {
				sym.Assume(o != key)
			}
		}
		x.keys = append(x.keys, key)
	}
	return x
}

// nodes lists the existing nodes, parents first.
func nodes(x *T) []*T {
	out := []*T{x}
	if x.kind != kVal {
		for i := 0; i < x.n; i++ {
			out = append(out, nodes(x.kids[i])...)
		}
	}
	return out
}

// toAny converts the document to what encoding/json would produce.
func toAny(x *T) any {
	switch x.kind {
	case kObj:
		m := map[string]any{}
		for i := 0; i < x.n; i++ {
			m[x.keys[i]] = toAny(x.kids[i])
		}
		return m
	case kArr:
		a := []any{}
		for i := 0; i < x.n; i++ {
			a = append(a, toAny(x.kids[i]))
		}
		return a
	}
	return x.val
}

// ---- reference semantics ----

type step func(*T) []*T

func isObj(x *T) bool { return x.kind == kObj }
func isArr(x *T) bool { return x.kind == kArr }

func kids(x *T) []*T {
	if x.kind == kVal {
		return nil
	}
	return x.kids[:sym.ConcreteInt(x.n)]
}

func rChild(key string) step {
	return func(x *T) []*T {
		if isObj(x) {
			for i := 0; i < x.n; i++ {
				if x.keys[i] == key {
					return x.kids[i : i+1]
				}
			}
		}
		return nil
	}
}

func rIndex(ix int) step {
	return func(x *T) []*T {
		if !isArr(x) {
			return nil
		}
		i := ix
		if i < 0 {
			i += x.n
		}
		if i < 0 || i >= x.n {
			return nil
		}
		i = sym.ConcreteInt(i)
		return x.kids[i : i+1]
	}
}

func rWild(x *T) []*T { return kids(x) }

// rAny is every descendant-or-self of x, parents first.
func rDeep(x *T) []*T {
	out := []*T{x}
	for _, k := range kids(x) {
		out = append(out, rDeep(k)...)
	}
	return out
}

// rUnion selects each child that one of the parts selects, once, in document order.
func rUnion(parts ...step) step {
	return func(x *T) []*T {
		var out []*T
		for _, k := range kids(x) {
			for _, p := range parts {
				if has(p(x), k) {
					out = append(out, k)
					break
				}
			}
		}
		return out
	}
}

func rFilter(pred func(*T) bool) step {
	return func(x *T) []*T {
		var out []*T
		for _, k := range kids(x) {
			if pred(k) {
				out = append(out, k)
			}
		}
		return out
	}
}

func has(l []*T, x *T) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// ref evaluates steps from x.
func ref(x *T, steps ...step) []*T {
	cur := []*T{x}
	for _, s := range steps {
		var out []*T
		for _, c := range cur {
			out = append(out, s(c)...)
		}
		cur = out
	}
	return cur
}

// ---- running the code under test ----

// locate follows a DocPath from the root by names and indexes only.
func locate(t *Tree, dp jp.DocPath) *T {
	x := t.root
	for i := 1; i < len(dp.P); i++ {
		seg := dp.P[i]
		switch x.kind {
		case kObj:
			var next *T
			for j := 0; j < x.n; j++ {
				if x.keys[j] == seg.Name {
					next = x.kids[j]
				}
			}
			x = next
		case kArr:
			if seg.Index < 0 || seg.Index >= x.n {
				return nil
			}
			x = x.kids[sym.ConcreteInt(seg.Index)]
		default:
			x = nil
		}
		if x == nil {
			return nil
		}
	}
	return x
}

// selected runs Search and returns the selected nodes in order of capture.
func selected(t *Tree, p jp.Path) []*T {
	var out []*T
	err := jp.Search(t, p, func(dp jp.DocPath) {
		x, ok := dp.Last().Node.(*T)
		sym.Assert(ok, "captured node belongs to the document")
		out = append(out, x)
	})
	sym.Assert(err == nil, "Search reports no error")
	return out
}

// selectedMap does the same over MapModel; nodes are identified by location.
func selectedMap(t *Tree, p jp.Path) []*T {
	var out []*T
	err := jp.Search(jp.MapModel{Doc: toAny(t.root)}, p, func(dp jp.DocPath) {
		x := locate(t, dp)
		sym.Assert(x != nil, "captured location exists in the document")
		out = append(out, x)
	})
	sym.Assert(err == nil, "Search reports no error")
	return out
}

// sameSet asserts that got has each node of want exactly once and nothing else.
func sameSet(t *Tree, got, want []*T) {
	for _, x := range got {
		x.hits++
	}
	for _, x := range want {
		x.want++
	}
	for _, x := range got {
		sym.Assert(x.want > 0, "nothing else is selected")
		sym.Assert(x.hits == 1, "nothing is selected twice")
	}
	for _, x := range want {
		sym.Assert(x.hits > 0, "every addressed node is selected")
	}
	for _, x := range got {
		x.hits = 0
	}
	for _, x := range want {
		x.want = 0
	}
}

// sameList asserts equality in order.
func sameList(got, want []*T) {
	sym.Assert(len(got) == len(want), "as many nodes are selected as are addressed")
	for i := range got {
		sym.Assert(got[i] == want[i], "the selected nodes are the addressed ones, in document order")
	}
}

// both checks a path against the reference over the contract-checking model and over MapModel.
func both(t *Tree, p jp.Path, want []*T) {
	sameSet(t, selected(t, p), want)
	sameSet(t, selectedMap(t, p), want)
}

// key1 is a member name of one byte.
func key1(name string, i int) string { return sym.ASCII(name, 1) }

// anyKey is a member name of up to one byte.
func anyKey(name string, i int) string { return sym.ASCII(name, sym.Choose(name+".len", 2)) }

// describe notes the shape of the document for counterexamples.
func describe(t *Tree) {
	if sym.Native() {
		sym.Note("document " + show(t.root))
	}
}

func show(x *T) string {
	switch x.kind {
	case kObj:
		s := "{"
		for i := 0; i < x.n; i++ {
			if i > 0 {
				s += ","
			}
			s += quote(x.keys[i]) + ":" + show(x.kids[i])
		}
		return s + "}"
	case kArr:
		s := "["
		for i := 0; i < x.n; i++ {
			if i > 0 {
				s += ","
			}
			s += show(x.kids[i])
		}
		return s + "]"
	}
	return "v"
}

func quote(s string) string { return "'" + s + "'" }
