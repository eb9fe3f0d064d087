package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value. All values are immutable.
type Value interface{}

type (
	// VInt is an integer given by a linear expression.
	VInt struct{ L Lin }
	// VBool is a known or symbolic boolean.
	VBool struct {
		Known bool
		Val   bool // the value if known, negation of the symbol otherwise
		ID    int
	}
	// VNil is the nil pointer, slice, map, channel, function or interface.
	VNil struct{}
	// VPtr points to a cell of a heap object.
	VPtr struct{ O, P int }
	// VSub is a pointer to the root of a summarised subtree (nil included).
	VSub struct{ ID int }
	// VSeg is a pointer to the root of a summarised path from a tree node down to a hole.
	VSeg struct{ ID int }
	// VStr is a constant string.
	VStr struct{ S string }
	// VOpq is an unknown value which the code doesn't look into.
	VOpq struct{ ID int }
	// VApp is an uninterpreted function applied to values.
	VApp struct {
		F    string
		Args []Value
	}
	// VIface is an interface value with known dynamic type.
	VIface struct {
		T types.Type
		V Value
	}
	// VFunc is a function or closure.
	VFunc struct {
		Fn   *ssa.Function
		Caps []Value
	}
	// VChan is a channel.
	VChan struct{ ID int }
	// VAgg is a struct or array value flattened to its cells.
	VAgg struct{ C []Value }
	// VTuple is a multi-value result.
	VTuple struct{ E []Value }
	// VSlice is a slice of an object's cells.
	VSlice struct {
		O, P          int // object and cell of the array's start
		Off, Len, Cap Lin
	}
	// VGlob is the address of a package variable which isn't folded.
	VGlob struct{ G *ssa.Global }
	// VTop is an unknown value.
	VTop struct{ Why string }
)

// Item is an element of a content word: a run of unknown entries or one entry.
type Item struct {
	A    int    // atom, or 0 for a literal entry
	F    string // how the entry is presented ("" as key and value; other names are representation maps)
	K, V Value  // literal entry
}

// Atom is a piece of the initial content: one entry or a run of entries.
type Atom struct {
	ID   int
	Seq  bool
	NE   bool  // a run of at least one entry
	Mask uint8 // possible order classes relative to the search key
	K, V Value
	X    map[string]Value // theory specific data of a single entry
	Lex  uint8
	Len  uint8
}

// Obj is a concrete (individually tracked) heap object.
type Obj struct {
	ID    int
	T     types.Type
	Cells []Value
	Fresh bool
	Lock  bool // never folded
	Tag   string
}

// Sub is a summarised subtree.
type Sub struct {
	ID     int
	Th     Theory
	W      []Item
	Fresh  bool
	NonNil bool
	KB     bool  // both children of the (black) root are black or nil
	Color  uint8 // 0 unknown, 1 red, 2 black or nil
	BH     Lin
	BHTop  bool
	R      *RadixSub
	T      *TrieSub
	Stale  bool // replaced by another root in place
}

// Seg is a summarised non-empty path with a hole at its lower end.
type Seg struct {
	ID        int
	Th        Theory
	L, R      []Item // content before and after the hole
	Hole      Value
	Fresh     bool // all the path nodes are owned
	SideFresh bool
	Color     uint8
	TopBH     Lin
	HoleBH    Lin
	HoleBlack bool
	BHTop     bool
	X         *RadixSeg
	T         *TrieSeg
}

// Chan is a channel with the word sent so far.
type Chan struct {
	ID     int
	T      types.Type
	W      []Item
	Closed int
	Buf    bool
	Outer  bool    // belongs to the caller of a tabulated function
	In     *Handle // what is received from it are nodes of this kind of tree
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

// Frame is an activation record.
type Frame struct {
	fn     *ssa.Function
	info   *FnInfo
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	regs   []Value
	call   ssa.Instruction // instruction of the caller waiting for the result
	isGo   bool
	defers []deferred
	noRes  bool // the result is dropped (deferred calls)
	cont   func(st *State, res Value)
}

// State is an abstract machine state.
type State struct {
	eng    *Engine
	next   int
	frames []*Frame
	objs   map[int]*Obj
	subs   map[int]*Sub
	segs   map[int]*Seg
	atoms  map[int]*Atom
	chans  map[int]*Chan
	words  map[string][]Item
	ghosts map[string]Value
	zone   *Zone
	lens   map[int]Sym
	facts  *Facts
	entry  *Entry
	trace  []string
	hist   []string // debugging: states at loop heads
	steps  int
	forked bool // since the last loop head
}

func (st *State) id() int { st.next++; return st.next }

func (st *State) newSym() Sym { return Sym(st.id()) }

func (st *State) clone() *State {
	n := &State{eng: st.eng, next: st.next, zone: st.zone.clone(), entry: st.entry, steps: st.steps, hist: st.hist[:len(st.hist):len(st.hist)]}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = append([]Value(nil), f.regs...)
		g.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	n.objs = make(map[int]*Obj, len(st.objs))
	for k, o := range st.objs {
		c := *o
		c.Cells = append([]Value(nil), o.Cells...)
		n.objs[k] = &c
	}
	n.subs = make(map[int]*Sub, len(st.subs))
	for k, o := range st.subs {
		c := *o
		n.subs[k] = &c
	}
	n.segs = make(map[int]*Seg, len(st.segs))
	for k, o := range st.segs {
		c := *o
		n.segs[k] = &c
	}
	n.atoms = make(map[int]*Atom, len(st.atoms))
	for k, o := range st.atoms {
		c := *o
		n.atoms[k] = &c
	}
	n.chans = make(map[int]*Chan, len(st.chans))
	for k, o := range st.chans {
		c := *o
		n.chans[k] = &c
	}
	n.words = make(map[string][]Item, len(st.words))
	for k, w := range st.words {
		n.words[k] = w
	}
	n.ghosts = make(map[string]Value, len(st.ghosts))
	for k, w := range st.ghosts {
		n.ghosts[k] = w
	}
	n.lens = make(map[int]Sym, len(st.lens))
	for k, w := range st.lens {
		n.lens[k] = w
	}
	if st.facts != nil {
		n.facts = st.facts.clone()
	}
	n.trace = append([]string(nil), st.trace...)
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) newObj(t types.Type, cells []Value, fresh bool) *Obj {
	o := &Obj{ID: st.id(), T: t, Cells: cells, Fresh: fresh}
	st.objs[o.ID] = o
	return o
}

func (st *State) newSeq(mask uint8) *Atom {
	a := &Atom{ID: st.id(), Seq: true, Mask: mask, Lex: 7, Len: 7}
	st.atoms[a.ID] = a
	return a
}

func (st *State) newPair(mask uint8, k, v Value) *Atom {
	a := &Atom{ID: st.id(), Mask: mask, K: k, V: v, Lex: 7, Len: 7}
	st.atoms[a.ID] = a
	return a
}

func (st *State) newOpq() VOpq { return VOpq{st.id()} }

// mapVal rewrites a value bottom-up.
func mapVal(v Value, f func(Value) Value) Value {
	switch x := v.(type) {
	case VApp:
		args, ch := mapVals(x.Args, f)
		if ch {
			return f(VApp{x.F, args})
		}
		return f(v)
	case VIface:
		n := mapVal(x.V, f)
		if !valSame(n, x.V) {
			return f(VIface{x.T, n})
		}
		return f(v)
	case VFunc:
		caps, ch := mapVals(x.Caps, f)
		if ch {
			return f(VFunc{x.Fn, caps})
		}
		return f(v)
	case VAgg:
		c, ch := mapVals(x.C, f)
		if ch {
			return f(VAgg{c})
		}
		return f(v)
	case VPack:
		c, ch := mapVals(x.B, f)
		if ch {
			return f(VPack{c})
		}
		return f(v)
	case VTuple:
		c, ch := mapVals(x.E, f)
		if ch {
			return f(VTuple{c})
		}
		return f(v)
	}
	return f(v)
}

func mapVals(vs []Value, f func(Value) Value) ([]Value, bool) {
	var out []Value
	for i, v := range vs {
		if v == nil {
			continue
		}
		n := mapVal(v, f)
		if !valSame(n, v) {
			if out == nil {
				out = append([]Value(nil), vs...)
			}
			out[i] = n
		}
	}
	if out == nil {
		return vs, false
	}
	return out, true
}

// valSame is structural equality of values.
func valSame(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		return ok && x.L.eq(y.L)
	case VApp:
		y, ok := b.(VApp)
		return ok && x.F == y.F && valsSame(x.Args, y.Args)
	case VIface:
		y, ok := b.(VIface)
		return ok && types.Identical(x.T, y.T) && valSame(x.V, y.V)
	case VFunc:
		y, ok := b.(VFunc)
		return ok && x.Fn == y.Fn && valsSame(x.Caps, y.Caps)
	case VAgg:
		y, ok := b.(VAgg)
		return ok && valsSame(x.C, y.C)
	case VTuple:
		y, ok := b.(VTuple)
		return ok && valsSame(x.E, y.E)
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x.O == y.O && x.P == y.P && x.Off.eq(y.Off) && x.Len.eq(y.Len) && x.Cap.eq(y.Cap)
	case VWord:
		y, ok := b.(VWord)
		return ok && x.same(y)
	case VBytes:
		y, ok := b.(VBytes)
		return ok && x.same(y)
	case VPack:
		y, ok := b.(VPack)
		return ok && valsSame(x.B, y.B)
	case VElem:
		y, ok := b.(VElem)
		return ok && x.Tab == y.Tab && x.O == y.O && x.P == y.P && x.I.eq(y.I)
	}
	switch b.(type) {
	case VElem, VInt, VApp, VIface, VFunc, VAgg, VTuple, VSlice, VWord, VBytes, VPack:
		return false
	}
	return a == b
}

func valsSame(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !valSame(a[i], b[i]) {
			return false
		}
	}
	return true
}

// rewrite applies a value rewriting to every value slot of the state.
func (st *State) rewrite(f func(Value) Value) {
	for _, fr := range st.frames {
		if n, ch := mapVals(fr.regs, f); ch {
			fr.regs = n
		}
		for i := range fr.defers {
			d := &fr.defers[i]
			if d.fn != nil {
				d.fn = mapVal(d.fn, f)
			}
			d.args, _ = mapVals(d.args, f)
		}
	}
	for _, o := range st.objs {
		if n, ch := mapVals(o.Cells, f); ch {
			o.Cells = n
		}
	}
	for _, s := range st.segs {
		if s.Hole != nil {
			s.Hole = mapVal(s.Hole, f)
		}
		s.L = mapItems(s.L, f)
		s.R = mapItems(s.R, f)
	}
	for _, s := range st.subs {
		s.W = mapItems(s.W, f)
	}
	for _, c := range st.chans {
		c.W = mapItems(c.W, f)
	}
	for _, a := range st.atoms {
		if a.K != nil {
			a.K = mapVal(a.K, f)
		}
		if a.V != nil {
			a.V = mapVal(a.V, f)
		}
		if a.X != nil {
			x := map[string]Value{}
			for k, v := range a.X {
				x[k] = mapVal(v, f)
			}
			a.X = x
		}
	}
	for k, v := range st.ghosts {
		st.ghosts[k] = mapVal(v, f)
	}
	for k, w := range st.words {
		st.words[k] = mapItems(w, f)
	}
}

func mapItems(w []Item, f func(Value) Value) []Item {
	var out []Item
	for i, it := range w {
		if it.A != 0 {
			continue
		}
		k, v := it.K, it.V
		if k != nil {
			k = mapVal(k, f)
		}
		if v != nil {
			v = mapVal(v, f)
		}
		if !valSame(k, it.K) || !valSame(v, it.V) {
			if out == nil {
				out = append([]Item(nil), w...)
			}
			out[i].K, out[i].V = k, v
		}
	}
	if out == nil {
		return w
	}
	return out
}

// eachWord visits every content word of the state.
func (st *State) eachWord(f func(w []Item) []Item) {
	for k, w := range st.words {
		st.words[k] = f(w)
	}
	for _, s := range st.subs {
		s.W = f(s.W)
	}
	for _, s := range st.segs {
		s.L = f(s.L)
		s.R = f(s.R)
	}
	for _, c := range st.chans {
		c.W = f(c.W)
	}
}

// splitAtom replaces atom a in all words by the given atoms.
func (st *State) splitAtom(a int, by ...int) {
	st.eachWord(func(w []Item) []Item {
		for i, it := range w {
			if it.A == a {
				out := append([]Item(nil), w[:i]...)
				for ; i < len(w); i++ {
					if w[i].A != a {
						out = append(out, w[i])
						continue
					}
					for _, b := range by {
						out = append(out, Item{A: b, F: w[i].F})
					}
				}
				return out
			}
		}
		return w
	})
	delete(st.atoms, a)
}

func sortedKeys[V any](m map[int]V) []int {
	out := make([]int, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func sortedNames[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (st *State) showItem(it Item) string {
	f := it.F
	if it.A == 0 {
		return fmt.Sprintf("%s<%s:%s>", f, st.show(it.K), st.show(it.V))
	}
	a := st.atoms[it.A]
	if a == nil {
		return fmt.Sprintf("?%d", it.A)
	}
	cls := ""
	for i, n := range []string{"<", "=", ">", "/"} {
		if a.Mask&(1<<uint(i)) != 0 {
			cls += n
		}
	}
	if a.Seq {
		return fmt.Sprintf("%s[%d %s]", f, it.A, cls)
	}
	return fmt.Sprintf("%s(%d %s %s:%s)", f, it.A, cls, st.show(a.K), st.show(a.V))
}

func (st *State) showWord(w []Item) string {
	var out []string
	for _, it := range w {
		out = append(out, st.showItem(it))
	}
	return strings.Join(out, " ")
}

func (st *State) show(v Value) string {
	switch x := v.(type) {
	case nil:
		return "_"
	case VInt:
		return x.L.String()
	case VBool:
		if x.Known {
			return fmt.Sprint(x.Val)
		}
		if x.Val {
			return fmt.Sprintf("!b%d", x.ID)
		}
		return fmt.Sprintf("b%d", x.ID)
	case VNil:
		return "nil"
	case VPtr:
		return fmt.Sprintf("&o%d.%d", x.O, x.P)
	case VSub:
		if s := st.subs[x.ID]; s != nil {
			return fmt.Sprintf("sub%d{%s c%d bh=%s fresh=%v nn=%v kb=%v %s}", x.ID, st.showWord(s.W), s.Color, s.BH, s.Fresh, s.NonNil, s.KB, s.R.show())
		}
		return fmt.Sprintf("sub%d", x.ID)
	case VSeg:
		if s := st.segs[x.ID]; s != nil {
			return fmt.Sprintf("seg%d{%s | %s c%d bh=%s->%s}(%s)", x.ID, st.showWord(s.L), st.showWord(s.R), s.Color, s.TopBH, s.HoleBH, st.show(s.Hole))
		}
		return fmt.Sprintf("seg%d", x.ID)
	case VStr:
		return fmt.Sprintf("%q", x.S)
	case VOpq:
		return fmt.Sprintf("q%d", x.ID)
	case VApp:
		return x.F + "(" + st.showAll(x.Args) + ")"
	case VIface:
		return fmt.Sprintf("iface<%s>(%s)", x.T, st.show(x.V))
	case VFunc:
		return x.Fn.Name() + "{" + st.showAll(x.Caps) + "}"
	case VChan:
		return fmt.Sprintf("ch%d", x.ID)
	case VAgg:
		return "{" + st.showAll(x.C) + "}"
	case VTuple:
		return "(" + st.showAll(x.E) + ")"
	case VSlice:
		return fmt.Sprintf("slice(o%d.%d %s:%s:%s)", x.O, x.P, x.Off, x.Len, x.Cap)
	case VGlob:
		return x.G.String()
	case VTop:
		return "T(" + x.Why + ")"
	case VWord:
		return x.String()
	case VBytes:
		return x.String()
	case VPack:
		return "pack[" + st.showAll(x.B) + "]"
	}
	return fmt.Sprintf("%T", v)
}

func (st *State) showAll(vs []Value) string {
	var out []string
	for _, v := range vs {
		out = append(out, st.show(v))
	}
	return strings.Join(out, ", ")
}

// Dump writes the whole state for diagnosis.
func (st *State) Dump() string {
	var b strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&b, "frame %s block %d pc %d\n", f.fn, f.blk.Index, f.pc)
		for i, r := range f.regs {
			if r != nil {
				fmt.Fprintf(&b, "  %s = %s\n", f.info.vals[i].Name(), st.show(r))
			}
		}
	}
	for _, k := range sortedKeys(st.objs) {
		o := st.objs[k]
		fmt.Fprintf(&b, "o%d %s fresh=%v: %s\n", k, o.T, o.Fresh, st.showAll(o.Cells))
	}
	for _, k := range sortedNames(st.words) {
		fmt.Fprintf(&b, "word %s: %s\n", k, st.showWord(st.words[k]))
	}
	for _, k := range sortedKeys(st.chans) {
		fmt.Fprintf(&b, "ch%d closed=%d: %s\n", k, st.chans[k].Closed, st.showWord(st.chans[k].W))
	}
	for _, k := range sortedNames(st.ghosts) {
		fmt.Fprintf(&b, "ghost %s: %s\n", k, st.show(st.ghosts[k]))
	}
	fmt.Fprintf(&b, "zone: %s\n", st.zone)
	if st.facts != nil {
		fmt.Fprintf(&b, "facts: %s\n", st.facts)
	}
	return b.String()
}
