package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Theory gives the meaning of a summarised node type: its invariant and its content.
type Theory interface {
	Name() string
	Node(t types.Type) bool
	Kids() [2]int
	UnfoldSub(st *State, id int)
	UnfoldSeg(st *State, id int)
	// FoldNode summarises a node with two summarised children; tolerant folding reports a broken invariant.
	FoldNode(st *State, o *Obj, a, b *Sub, final bool) *Sub
	// FoldPath makes a one-node path; the hole is child h, the other one is summarised.
	FoldPath(st *State, o *Obj, h int, side *Sub) *Seg
	Concat(st *State, a, b *Seg) *Seg
	Plug(st *State, s *Seg, hole *Sub, final bool) *Sub
	NilSub(st *State) *Sub
	// Keep tells whether a node next to one in use shouldn't be summarised yet.
	Keep(st *State, o *Obj) bool
}

func (e *Engine) theory(t types.Type) Theory {
	for _, th := range e.theories {
		if th.Node(t) {
			return th
		}
	}
	return nil
}

func (st *State) unfoldSub(id int) { st.subs[id].Th.UnfoldSub(st, id) }
func (st *State) unfoldSeg(id int) { st.segs[id].Th.UnfoldSeg(st, id) }

// replace substitutes one tree pointer for another everywhere.
func (st *State) replace(from, to Value) {
	st.rewrite(func(v Value) Value {
		if v == from {
			return to
		}
		return v
	})
}

func replaceable(v Value) bool {
	switch v.(type) {
	case VPtr, VSub, VSeg:
		return true
	}
	return false
}

// collect visits object-like references inside a value.
func refsOf(v Value, f func(Value)) {
	switch x := v.(type) {
	case VPtr, VSub, VSeg, VChan, VSlice, VOpq, VElem, VBytes, VWord, VInt:
		f(v)
	case VApp:
		for _, a := range x.Args {
			refsOf(a, f)
		}
	case VIface:
		refsOf(x.V, f)
	case VFunc:
		for _, a := range x.Caps {
			refsOf(a, f)
		}
	case VAgg:
		for _, a := range x.C {
			refsOf(a, f)
		}
	case VTuple:
		for _, a := range x.E {
			refsOf(a, f)
		}
	case VPack:
		for _, a := range x.B {
			refsOf(a, f)
		}
	}
}

// prune forgets registers which are not needed any more.
func (st *State) prune(atHeader bool) {
	for i, f := range st.frames {
		var live map[int]bool
		if i == len(st.frames)-1 {
			if !atHeader {
				continue
			}
			live = f.info.liveIn[f.blk]
		} else {
			ins := f.blk.Instrs[f.pc]
			if st.frames[i+1].isGo { // already past it
				ins = f.blk.Instrs[f.pc-1]
			}
			live = f.info.after[ins]
		}
		if live == nil {
			continue
		}
		skip := -1
		if i < len(st.frames)-1 && !st.frames[i+1].isGo {
			if v, ok := f.blk.Instrs[f.pc].(ssa.Value); ok {
				skip = f.info.num[v]
			}
		}
		for n := range f.regs {
			if !live[n] || n == skip {
				f.regs[n] = nil
			}
		}
	}
}

// gc drops unreachable entities.
func (st *State) gc() {
	objs, subs, segs, chans := map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}
	var visit func(v Value)
	visit = func(v Value) {
		if v == nil {
			return
		}
		refsOf(v, func(v Value) {
			switch x := v.(type) {
			case VPtr:
				st.markObj(x.O, objs, visit)
			case VSlice:
				st.markObj(x.O, objs, visit)
			case VElem:
				st.markObj(x.O, objs, visit)
			case VSub:
				subs[x.ID] = true
				st.subs[x.ID].T.refs(visit)
			case VSeg:
				if !segs[x.ID] {
					segs[x.ID] = true
					visit(st.segs[x.ID].Hole)
				}
			case VChan:
				if !chans[x.ID] {
					chans[x.ID] = true
					for _, it := range st.chans[x.ID].W {
						if it.A == 0 {
							visit(it.K)
							visit(it.V)
						}
					}
				}
			}
		})
	}
	for _, f := range st.frames {
		for _, r := range f.regs {
			if r != nil {
				visit(r)
			}
		}
		for _, d := range f.defers {
			if d.fn != nil {
				visit(d.fn)
			}
			for _, a := range d.args {
				visit(a)
			}
		}
	}
	for _, g := range st.ghosts {
		visit(g)
	}
	if st.eng.ob.glue {
		for _, a := range st.atoms {
			visit(a.K)
			visit(a.V)
			for _, v := range a.X {
				visit(v)
			}
		}
		st.eachWord(func(w []Item) []Item {
			for _, it := range w {
				visit(it.K)
				visit(it.V)
			}
			return w
		})
	}
	for k := range st.objs {
		if !objs[k] {
			delete(st.objs, k)
		}
	}
	for k := range st.subs {
		if !subs[k] {
			delete(st.subs, k)
		}
	}
	for k := range st.segs {
		if !segs[k] {
			delete(st.segs, k)
		}
	}
	for k := range st.chans {
		if !chans[k] {
			delete(st.chans, k)
		}
	}
	used := map[int]bool{}
	st.eachWord(func(w []Item) []Item {
		for _, it := range w {
			used[it.A] = true
		}
		return w
	})
	for k := range st.atoms {
		if !used[k] {
			delete(st.atoms, k)
		}
	}
	if st.facts != nil {
		st.facts.gc(st)
	}
	if len(st.lens) > 0 {
		live := map[int]bool{}
		st.eachValue(func(v Value) {
			if q, ok := v.(VOpq); ok {
				live[q.ID] = true
			}
		})
		for k := range st.lens {
			if !live[k] {
				delete(st.lens, k)
			}
		}
	}
}

// eachValue visits the references in every slot of the state (atoms included).
func (st *State) eachValue(f func(Value)) {
	vis := func(v Value) {
		if v != nil {
			refsOf(v, f)
		}
	}
	for _, fr := range st.frames {
		for _, r := range fr.regs {
			vis(r)
		}
		for _, d := range fr.defers {
			vis(d.fn)
			for _, a := range d.args {
				vis(a)
			}
		}
	}
	for _, o := range st.objs {
		for _, c := range o.Cells {
			vis(c)
		}
	}
	for _, g := range st.ghosts {
		vis(g)
	}
	for _, s := range st.segs {
		vis(s.Hole)
	}
	for _, s := range st.subs {
		s.T.refs(vis)
	}
	for _, a := range st.atoms {
		vis(a.K)
		vis(a.V)
		for _, v := range a.X {
			vis(v)
		}
	}
	st.eachWord(func(w []Item) []Item {
		for _, it := range w {
			vis(it.K)
			vis(it.V)
		}
		return w
	})
}

func (st *State) markObj(id int, objs map[int]bool, visit func(Value)) {
	if objs[id] || st.objs[id] == nil {
		return
	}
	objs[id] = true
	for _, c := range st.objs[id].Cells {
		visit(c)
	}
}

// fold summarises whatever isn't referenced individually.
func (st *State) fold(final bool) {
	st.gc()
	if st.weaken() {
		st.gc()
	}
	cnt := map[Value]int{}
	pin := map[Value]bool{}
	count := func(v Value) {
		refsOf(v, func(v Value) {
			switch x := v.(type) {
			case VPtr:
				cnt[VPtr{x.O, 0}]++
				if x.P != 0 {
					pin[VPtr{x.O, 0}] = true
				}
			case VSub, VSeg:
				cnt[v]++
			case VSlice:
				pin[VPtr{x.O, 0}] = true
			case VElem:
				pin[VPtr{x.O, 0}] = true
			}
		})
	}
	pinAll := func(v Value) {
		refsOf(v, func(v Value) {
			switch x := v.(type) {
			case VPtr:
				pin[VPtr{x.O, 0}] = true
			case VSub, VSeg:
				pin[v] = true
			}
		})
	}
	for _, f := range st.frames {
		for _, r := range f.regs {
			if r != nil {
				pinAll(r)
			}
		}
		for _, d := range f.defers {
			if d.fn != nil {
				pinAll(d.fn)
			}
			for _, a := range d.args {
				pinAll(a)
			}
		}
	}
	for k, g := range st.ghosts {
		if strings.HasPrefix(k, "tree") {
			count(g)
			continue
		}
		pinAll(g)
	}
	for _, c := range st.chans {
		for _, it := range c.W {
			if it.A == 0 {
				pinAll(it.K)
				pinAll(it.V)
			}
		}
	}
	for _, o := range st.objs {
		for _, c := range o.Cells {
			if replaceable(c) {
				count(c)
			} else {
				pinAll(c)
			}
		}
	}
	for _, s := range st.segs {
		count(s.Hole)
	}
	for _, s := range st.subs {
		s.T.refs(pinAll)
	}
	free := func(v Value) bool { return !pin[v] && cnt[v] <= 1 }
	busy := map[int]bool{}
	var near Value // child of a node in use
	var foldVal func(v Value) (Value, bool)
	sub := func(v Value, th Theory) *Sub {
		switch x := v.(type) {
		case VNil:
			return th.NilSub(st)
		case VSub:
			return st.subs[x.ID]
		}
		return nil
	}
	addSub := func(s *Sub) Value {
		s.ID = st.id()
		st.subs[s.ID] = s
		v := VSub{s.ID}
		cnt[v] = 1
		return v
	}
	addSeg := func(s *Seg) Value {
		s.ID = st.id()
		st.segs[s.ID] = s
		v := VSeg{s.ID}
		cnt[v] = 1
		if h, ok := s.Hole.(VSeg); ok {
			if free(h) {
				lo := st.segs[h.ID]
				if c := s.Th.Concat(st, s, lo); c != nil {
					c.ID = s.ID
					c.Hole = lo.Hole
					st.segs[s.ID] = c
					delete(st.segs, h.ID)
				}
			}
		}
		return v
	}
	foldVal = func(v Value) (Value, bool) {
		switch x := v.(type) {
		case VNil:
			return v, true
		case VSub:
			return v, free(v)
		case VSeg:
			if !free(v) {
				return v, false
			}
			s := st.segs[x.ID]
			h, ok := foldVal(s.Hole)
			s.Hole = h
			if ok {
				if n := s.Th.Plug(st, s, sub(h, s.Th), final); n != nil {
					delete(st.segs, x.ID)
					return addSub(n), true
				}
				return v, false
			}
			if hs, ok := h.(VSeg); ok && free(h) {
				lo := st.segs[hs.ID]
				if c := s.Th.Concat(st, s, lo); c != nil {
					c.ID = s.ID
					c.Hole = lo.Hole
					st.segs[s.ID] = c
					delete(st.segs, hs.ID)
				}
			}
			return v, false
		case VPtr:
			o := st.objs[x.O]
			if o == nil || x.P != 0 || busy[x.O] || o.Lock {
				return v, false
			}
			th := st.eng.theory(o.T)
			if th == nil || !free(v) {
				return v, false
			}
			busy[x.O] = true
			kids := th.Kids()
			var fs [2]bool
			for i := 0; i < 2; i++ {
				o.Cells[kids[i]], fs[i] = foldVal(o.Cells[kids[i]])
			}
			if fs[0] && fs[1] {
				if near == v && !final && th.Keep(st, o) {
					return v, false
				}
				if n := th.FoldNode(st, o, sub(o.Cells[kids[0]], th), sub(o.Cells[kids[1]], th), final); n != nil {
					delete(st.objs, x.O)
					return addSub(n), true
				}
			} else if fs[0] != fs[1] {
				h := 0
				if fs[0] {
					h = 1
				}
				if hv := o.Cells[kids[h]]; replaceable(hv) {
					if s := th.FoldPath(st, o, h, sub(o.Cells[kids[1-h]], th)); s != nil {
						s.Hole = hv
						delete(st.objs, x.O)
						return addSeg(s), false
					}
				}
			}
			return v, false
		}
		return v, false
	}
	for _, k := range sortedKeys(st.objs) {
		o := st.objs[k]
		if o == nil || busy[k] {
			continue
		}
		if st.eng.theory(o.T) != nil && free(VPtr{k, 0}) && cnt[VPtr{k, 0}] == 1 {
			continue // handled from its holder
		}
		for i, c := range o.Cells {
			if replaceable(c) {
				near = nil
				if pin[VPtr{k, 0}] {
					near = c
				}
				o.Cells[i], _ = foldVal(c)
			}
		}
	}
	near = nil
	for _, k := range sortedNames(st.ghosts) {
		if strings.HasPrefix(k, "tree") {
			st.ghosts[k], _ = foldVal(st.ghosts[k])
		}
	}
	st.gc()
	st.mergeAtoms(nil)
}

type mergeLog struct{ z, x, y int }

// mergeAtoms joins atoms which are adjacent wherever they occur.
func (st *State) mergeAtoms(log *[]mergeLog) {
	used := map[int]bool{}
	vis := func(v Value) {
		if v != nil {
			refsOf(v, func(v Value) {
				if q, ok := v.(VOpq); ok {
					used[q.ID] = true
				}
			})
		}
	}
	for _, fr := range st.frames {
		for _, r := range fr.regs {
			vis(r)
		}
		for _, d := range fr.defers {
			vis(d.fn)
			for _, a := range d.args {
				vis(a)
			}
		}
	}
	for _, o := range st.objs {
		for _, c := range o.Cells {
			vis(c)
		}
	}
	for _, g := range st.ghosts {
		vis(g)
	}
	for _, s := range st.subs {
		s.T.refs(vis)
	}
	st.eachWord(func(w []Item) []Item {
		for _, it := range w {
			vis(it.K)
			vis(it.V)
		}
		return w
	})
	if st.facts != nil {
		st.facts.usedWords(st, used)
	}
	busy := func(a *Atom) bool {
		if a.Seq {
			return false
		}
		b := false
		chk := func(v Value) {
			if v != nil {
				refsOf(v, func(v Value) {
					if q, ok := v.(VOpq); ok && used[q.ID] {
						b = true
					}
				})
			}
		}
		if !st.eng.ob.glue {
			chk(a.K)
		}
		chk(a.V)
		return b
	}
	for {
		type nb struct {
			n   int
			bad bool
		}
		next, prev := map[int]nb{}, map[int]nb{}
		st.eachWord(func(w []Item) []Item {
			for i, it := range w {
				if it.A == 0 {
					continue
				}
				n, p := -1, -1
				if i+1 < len(w) && w[i+1].A != 0 && w[i+1].F == it.F {
					n = w[i+1].A
				}
				if i > 0 && w[i-1].A != 0 && w[i-1].F == it.F {
					p = w[i-1].A
				}
				if o, ok := next[it.A]; ok && o.n != n {
					next[it.A] = nb{-1, true}
				} else if !ok {
					next[it.A] = nb{n, n < 0}
				}
				if o, ok := prev[it.A]; ok && o.n != p {
					prev[it.A] = nb{-1, true}
				} else if !ok {
					prev[it.A] = nb{p, p < 0}
				}
			}
			return w
		})
		done := true
		for _, x := range sortedKeys(st.atoms) {
			n, ok := next[x]
			if !ok || n.bad {
				continue
			}
			y := n.n
			if p := prev[y]; p.bad || p.n != x || x == y {
				continue
			}
			a, b := st.atoms[x], st.atoms[y]
			mask := a.Mask
			if a.Mask != b.Mask && st.eng.ob.joinMask != nil && st.eng.ob.joinMask(a.Mask, b.Mask) {
				mask = a.Mask | b.Mask
			} else if a.Mask != b.Mask {
				continue
			}
			if mask&cEQ != 0 && (mask == cEQ || st.eng.ob.joinMask != nil) || busy(a) || busy(b) || !st.eng.ob.mergeable(st, a, b) {
				continue
			}
			z := st.newSeq(mask)
			z.NE = st.eng.ob.radix && (a.NE || b.NE || !a.Seq || !b.Seq)
			if x, y := a.X["ms"], b.X["ms"]; x != nil && y != nil && valSame(x, y) {
				z.X = a.X
			}
			st.eachWord(func(w []Item) []Item {
				var out []Item
				for i, it := range w {
					if it.A == x {
						if out == nil {
							out = append([]Item{}, w[:i]...)
						}
						out = append(out, Item{A: z.ID, F: it.F})
						continue
					}
					if it.A == y {
						continue
					}
					if out != nil {
						out = append(out, it)
					}
				}
				if out == nil {
					return w
				}
				return out
			})
			delete(st.atoms, x)
			delete(st.atoms, y)
			if log != nil {
				*log = append(*log, mergeLog{z.ID, x, y})
			}
			done = false
			break
		}
		if done {
			return
		}
	}
}

// ---- canonical form

type slot struct {
	val int64
	set func(Lin)
}

type canon struct {
	st    *State
	b     strings.Builder
	names map[int]int
	order []int // ids in order of the first visit
	syms  []Sym
	base  map[Sym]int64
	slots []slot
	pre   map[int]string
	queue []func()
}

func (c *canon) name(id int) (int, bool) {
	if n, ok := c.names[id]; ok {
		return n, false
	}
	n := len(c.order) + 1
	c.names[id] = n
	c.order = append(c.order, id)
	return n, true
}

func (c *canon) ref(kind string, id int) bool {
	n, first := c.name(id)
	if p, ok := c.pre[id]; ok && first {
		c.b.WriteString(kind)
		c.b.WriteString(p)
		return true
	}
	c.b.WriteString(kind)
	c.b.WriteString(strconv.Itoa(n))
	return first
}

func (c *canon) lin(l Lin) {
	if len(l.t) == 1 && l.t[0].c == 1 {
		s := l.t[0].s
		if _, ok := c.names[int(s)]; !ok {
			c.name(int(s))
			c.syms = append(c.syms, s)
			if _, isPre := c.pre[int(s)]; !isPre {
				c.base[s] = l.k
			}
		}
		if p, ok := c.pre[int(s)]; ok {
			fmt.Fprintf(&c.b, "(%s", p)
		} else {
			fmt.Fprintf(&c.b, "(i%d", c.names[int(s)])
		}
		fmt.Fprintf(&c.b, "%+d)", l.k-c.base[s])
		return
	}
	k := l.k
	c.b.WriteByte('(')
	if len(l.t) == 0 {
		c.b.WriteString(strconv.FormatInt(k, 10))
		c.b.WriteByte(')')
		return
	}
	for _, t := range l.t {
		if _, ok := c.names[int(t.s)]; !ok {
			c.name(int(t.s))
			c.syms = append(c.syms, t.s)
			c.base[t.s] = 0
		}
		k -= t.c * c.base[t.s]
		if p, ok := c.pre[int(t.s)]; ok {
			fmt.Fprintf(&c.b, "%+d%s", t.c, p)
		} else {
			fmt.Fprintf(&c.b, "%+di%d", t.c, c.names[int(t.s)])
		}
	}
	fmt.Fprintf(&c.b, "%+d)", k)
}

func (c *canon) word(w []Item) {
	c.b.WriteByte('<')
	for _, it := range w {
		if it.F != "" {
			c.b.WriteString(it.F + ":")
		}
		if it.A == 0 {
			c.b.WriteByte('{')
			c.val(it.K)
			c.b.WriteByte(':')
			c.val(it.V)
			c.b.WriteByte('}')
			continue
		}
		if c.ref("a", it.A) {
			a := c.st.atoms[it.A]
			fmt.Fprintf(&c.b, "/%v%d", a.Seq, a.Mask)
			if a.NE && c.st.eng.ob.radix {
				c.b.WriteByte('+')
			}
			if !a.Seq {
				fmt.Fprintf(&c.b, ".%d.%d", a.Lex, a.Len)
				c.val(a.K)
				c.b.WriteByte(':')
				c.val(a.V)
			}
			for _, k := range sortedNames(a.X) {
				c.b.WriteString("," + k + "=")
				c.val(a.X[k])
			}
		}
		c.b.WriteByte(' ')
	}
	c.b.WriteByte('>')
}

func (c *canon) val(v Value) {
	switch x := v.(type) {
	case nil:
		c.b.WriteByte('_')
	case VInt:
		c.lin(x.L)
	case VBool:
		if x.Known {
			fmt.Fprintf(&c.b, "%v", x.Val)
		} else {
			if x.Val {
				c.b.WriteByte('!')
			}
			c.ref("b", x.ID)
		}
	case VNil:
		c.b.WriteString("nil")
	case VPtr:
		if c.ref("o", x.O) {
			c.obj(x.O)
		}
		if x.P != 0 {
			fmt.Fprintf(&c.b, ".%d", x.P)
		}
	case VSub:
		if c.ref("t", x.ID) {
			c.sub(x.ID)
		}
	case VSeg:
		if c.ref("s", x.ID) {
			s := c.st.segs[x.ID]
			fmt.Fprintf(&c.b, "[%s %v%v c%d%v%v", s.Th.Name(), s.Fresh, s.SideFresh, s.Color, s.HoleBlack, s.BHTop)
			c.lin(s.TopBH)
			c.lin(s.HoleBH)
			c.word(s.L)
			c.word(s.R)
			s.X.canon(c)
			c.val(s.Hole)
			c.b.WriteByte(']')
		}
	case VStr:
		fmt.Fprintf(&c.b, "%q", x.S)
	case VOpq:
		if c.ref("q", x.ID) {
			if s, ok := c.st.lens[x.ID]; ok {
				c.b.WriteString("/len")
				c.lin(linS(s))
			}
		}
	case VApp:
		c.b.WriteString(x.F + "(")
		for _, a := range x.Args {
			c.val(a)
			c.b.WriteByte(',')
		}
		c.b.WriteByte(')')
	case VIface:
		c.b.WriteString("I<")
		c.b.WriteString(c.st.eng.typeText(x.T))
		c.b.WriteByte('>')
		c.val(x.V)
	case VFunc:
		c.b.WriteString("F" + x.Fn.String() + "{")
		for _, a := range x.Caps {
			c.val(a)
			c.b.WriteByte(',')
		}
		c.b.WriteByte('}')
	case VChan:
		if c.ref("c", x.ID) {
			h := c.st.chans[x.ID]
			fmt.Fprintf(&c.b, "[%d%v%v", h.Closed, h.Buf, h.Outer)
			if h.In != nil {
				c.b.WriteString(h.In.kind)
			}
			c.word(h.W)
			c.b.WriteByte(']')
		}
	case VAgg:
		c.b.WriteByte('{')
		for _, a := range x.C {
			c.val(a)
			c.b.WriteByte(',')
		}
		c.b.WriteByte('}')
	case VTuple:
		c.b.WriteByte('(')
		for _, a := range x.E {
			c.val(a)
			c.b.WriteByte(',')
		}
		c.b.WriteByte(')')
	case VSlice:
		c.b.WriteString("sl")
		c.val(VPtr{x.O, x.P})
		c.lin(x.Off)
		c.lin(x.Len)
		c.lin(x.Cap)
	case VGlob:
		c.b.WriteString("G" + x.G.String())
	case VTop:
		c.b.WriteString("T")
	case VPack:
		c.b.WriteString("P(")
		for _, a := range x.B {
			c.val(a)
			c.b.WriteByte(',')
		}
		c.b.WriteByte(')')
	default:
		c.extra(v)
	}
}

func (c *canon) slotVal(v Value, set func(Lin)) {
	if x, ok := v.(VInt); ok && x.L.isConst() {
		c.b.WriteByte('#')
		c.b.WriteString(strconv.Itoa(len(c.slots)))
		c.b.WriteByte('#')
		c.slots = append(c.slots, slot{x.L.k, set})
		return
	}
	c.val(v)
}

// slotSlice makes a slot of the length of a slice of an array of text.
func (c *canon) slotSlice(v Value, set func(Value)) bool {
	x, ok := v.(VSlice)
	if !ok || !c.st.eng.ob.text || !x.Len.isConst() || !x.Off.isConst() || !c.st.isBig(x) {
		return false
	}
	c.b.WriteString("sl")
	c.val(VPtr{x.O, x.P})
	c.lin(x.Off)
	c.slotVal(VInt{x.Len}, func(l Lin) { x.Len = l; set(x) })
	c.lin(x.Cap)
	return true
}

func (c *canon) obj(id int) {
	o := c.st.objs[id]
	if o == nil {
		c.b.WriteString("[dangling]")
		return
	}
	c.b.WriteByte('[')
	c.b.WriteString(c.st.eng.typeText(o.T))
	if o.Fresh {
		c.b.WriteByte('f')
	}
	if o.Lock {
		c.b.WriteByte('l')
	}
	c.b.WriteByte(' ')
	c.b.WriteString(o.Tag)
	for i, v := range o.Cells {
		i := i
		c.b.WriteByte(' ')
		c.slotVal(v, func(l Lin) { o.Cells[i] = VInt{l} })
	}
	c.b.WriteByte(']')
}

func (c *canon) sub(id int) {
	s := c.st.subs[id]
	fmt.Fprintf(&c.b, "[%s %v%v%v c%d%v", s.Th.Name(), s.Fresh, s.NonNil, s.KB, s.Color, s.BHTop)
	if s.Stale {
		c.b.WriteByte('!')
	}
	if !s.BHTop {
		c.lin(s.BH)
	}
	c.word(s.W)
	s.R.canon(c)
	s.T.canon(c)
	c.b.WriteByte(']')
}

func (e *Engine) typeText(t types.Type) string {
	s, ok := e.typeTexts[t]
	if !ok {
		if e.typeTexts == nil {
			e.typeTexts = map[types.Type]string{}
		}
		s = types.TypeString(t, nil)
		e.typeTexts[t] = s
	}
	return s
}

// canonical computes the canonical text of a state.
func (st *State) canonical(pre map[int]string) *canon {
	c := &canon{st: st, names: map[int]int{}, base: map[Sym]int64{}, pre: pre}
	for _, k := range sortedNames(st.ghosts) {
		c.b.WriteString("|" + k + "=")
		c.val(st.ghosts[k])
	}
	for _, f := range st.frames {
		fmt.Fprintf(&c.b, "\n%s@%d.%d go%v ", f.fn, f.blk.Index, f.pc, f.isGo)
		for i, r := range f.regs {
			if r == nil {
				continue
			}
			i, f := i, f
			c.b.WriteString(" r")
			c.b.WriteString(strconv.Itoa(i))
			c.b.WriteByte('=')
			if !c.slotSlice(r, func(v Value) { f.regs[i] = v }) {
				c.slotVal(r, func(l Lin) { f.regs[i] = VInt{l} })
			}
		}
		for _, d := range f.defers {
			fmt.Fprintf(&c.b, " defer%d", d.call.Pos())
			c.val(d.fn)
			for _, a := range d.args {
				c.val(a)
			}
		}
	}
	for _, k := range sortedNames(st.words) {
		c.b.WriteString("\n" + k + ":")
		c.word(st.words[k])
	}
	if st.facts != nil {
		c.b.WriteString("\n")
		st.facts.canon(c)
	}
	return c
}

func (c *canon) key() string {
	if len(c.slots) == 0 {
		return c.b.String()
	}
	var b strings.Builder
	b.WriteString(c.b.String())
	b.WriteString("\n#")
	for _, s := range c.slots {
		b.WriteString(strconv.FormatInt(s.val, 10))
		b.WriteByte(',')
	}
	return b.String()
}

// projZone is the zone over the canonical symbols.
func (c *canon) projZone() *Zone {
	to := make([]Sym, len(c.syms))
	for i := range to {
		to[i] = Sym(i + 1)
	}
	z := c.st.zone.project(c.syms, to)
	// x' = x + base
	for i := range z.m {
		for j := range z.m {
			if z.m[i][j] >= inf || i == j {
				continue
			}
			var bi, bj int64
			if i > 0 {
				bi = c.base[c.syms[i-1]]
			}
			if j > 0 {
				bj = c.base[c.syms[j-1]]
			}
			z.m[i][j] += bi - bj
		}
	}
	return z
}

// setZone replaces the state's zone by a canonical one.
func (c *canon) setZone(z *Zone) {
	n := newZone()
	for _, s := range c.syms {
		n.at(s)
	}
	for i := range z.m {
		for j := range z.m {
			if i == j {
				continue
			}
			v := z.m[i][j]
			if v < inf {
				if i > 0 {
					v -= c.base[c.syms[i-1]]
				}
				if j > 0 {
					v += c.base[c.syms[j-1]]
				}
			}
			n.m[i][j] = v
		}
	}
	n.close()
	c.st.zone = n
}

const (
	maxHead = 20000 // abstract states at one loop head
	maxObjs = 40    // nodes and summaries at a loop head
)

func (e *Engine) atHeader(st *State, f *Frame) bool {
	if e.ob.unroll != nil {
		return e.memo(st, true)
	}
	st.prune(true)
	st.normalize()
	if e.ob.headFn != nil {
		e.ob.headFn(st, f)
	}
	st.fold(false)
	st.padSegs()
	st.forgetLens()
	st.forgetSides()
	st.liftHeights()
	where := f.fn.String() + "@" + itoa(f.blk.Index)
	if n := len(st.objs) + len(st.subs) + len(st.segs); n > maxObjs {
		st.abort("undecided", "more than %d nodes can't be summarised", maxObjs)
	} else if n > e.maxObjs {
		e.maxObjs = n
	}
	for round := 0; ; round++ {
		c := st.canonical(nil)
		if len(c.slots) > 0 && round < 30 {
			mk := c.b.String()
			mr := e.masks[mk]
			if mr == nil {
				mr = &maskRec{}
				e.masks[mk] = mr
			}
			changed := false
			for i, s := range c.slots {
				if i >= len(mr.seen) {
					mr.seen = append(mr.seen, map[int64]bool{})
				}
				mr.seen[i][s.val] = true
				if len(mr.seen[i]) > e.ob.maxConsts() {
					n := st.newSym()
					st.zone.assumeEQ0(linS(n).addC(-s.val))
					s.set(linS(n))
					changed = true
				}
			}
			if changed {
				continue
			}
		}
		key := c.key()
		z := c.projZone()
		rec, ok := e.seen[key]
		e.lastKey = key
		if !ok {
			e.heads[where]++
			if e.heads[where] > maxHead {
				st.abort("undecided", "more than %d abstract states at one loop head", maxHead)
			}
			e.seen[key] = &headRec{zone: z.clone()}
			c.setZone(z)
			e.note(st)
			return true
		}
		if z.leq(rec.zone) {
			return false
		}
		rec.joins++
		var nz *Zone
		if thr := e.ob.thr; thr != nil && rec.joins > 1 && rec.joins <= 300 {
			nz = rec.zone.widen(rec.zone.join(z), thr)
		} else if rec.joins <= 1 {
			nz = rec.zone.join(z)
		} else if rec.joins <= 3 {
			nz = rec.zone.widen(rec.zone.join(z), f.info.thr)
		} else {
			nz = rec.zone.widen(rec.zone.join(z), nil)
		}
		rec.zone = nz.clone()
		c.setZone(nz)
		e.note(st)
		return true
	}
}

// forgetSides forgets whether the sides of a summarised radix path are empty.
func (st *State) forgetSides() {
	for _, id := range sortedKeys(st.segs) {
		s := st.segs[id]
		if s.X == nil {
			continue
		}
		if !s.X.holeNN {
			n, x := *s, *s.X
			x.holeNN = true
			n.X = &x
			st.segs[id] = &n
		}
		for _, w := range [][]Item{s.L, s.R} {
			for _, it := range w {
				if a := st.atoms[it.A]; a != nil && a.Seq {
					a.NE = false
				}
			}
		}
	}
	st.facts.gc(st)
}

// forgetLens forgets how the parts of a key compare with the searched one when it's known how the keys do.
func (st *State) forgetLens() {
	ob := st.eng.ob
	if ob.order == "" || ob.syncFn != nil {
		return
	}
	live := map[int]bool{}
	vis := func(v Value) {
		if v != nil {
			refsOf(v, func(v Value) {
				if q, ok := v.(VOpq); ok {
					live[q.ID] = true
				}
			})
		}
	}
	for _, f := range st.frames {
		for _, r := range f.regs {
			vis(r)
		}
	}
	for _, g := range st.ghosts {
		vis(g)
	}
	for _, a := range st.atoms {
		if a.Seq {
			continue
		}
		q, ok := a.K.(VOpq)
		if !ok || live[q.ID] || a.Mask&(a.Mask-1) != 0 {
			continue
		}
		delete(st.lens, q.ID)
		a.Len, a.Lex = 0, 0
		for _, t := range triples(ob.order) {
			if t[2]&a.Mask != 0 {
				a.Len |= t[0]
				a.Lex |= t[1]
			}
		}
	}
}

// padSegs lets all summarised paths have something on both sides, maybe nothing at all.
func (st *State) padSegs() {
	if st.eng.ob.order == "" {
		return
	}
	for _, id := range sortedKeys(st.segs) {
		s := st.segs[id]
		if s.X != nil || s.T != nil {
			continue
		}
		for dir := 0; dir < 2; dir++ {
			if dir == 0 && len(s.L) > 0 || dir == 1 && len(s.R) > 0 {
				continue
			}
			it, ok := st.edgeItem(s.Hole, dir)
			if !ok || it.A == 0 {
				continue
			}
			if _, ok := st.words["orig"]; !ok {
				continue
			}
			if e, ok := st.edgeItem(s.Hole, 1-dir); !ok || e.A == 0 || st.atoms[it.A].Mask == st.atoms[e.A].Mask && st.atoms[it.A].Mask&cEQ == 0 {
				continue // the path isn't the one to the searched key
			}
			// as anything between its neighbours
			m, o := uint8(cLT), st.words["orig"]
			if dir == 1 {
				m = cGT
			}
			pos := 0
			for i := range o {
				if o[i].A == it.A {
					pos = i
				}
			}
			for i := range o {
				if a := st.atoms[o[i].A]; a != nil && (dir == 0 && i < pos || dir == 1 && i > pos) && a.Mask&m == 0 {
					m = cLT | cGT ^ m
					break
				}
			}
			z := st.newSeq(m)
			// z is empty: it may stand anywhere
			st.eachWord(func(w []Item) []Item {
				for i := range w {
					if w[i].A == it.A {
						n := append([]Item{}, w[:i+dir]...)
						n = append(n, Item{A: z.ID, F: w[i].F})
						return append(n, w[i+dir:]...)
					}
				}
				return w
			})
			// the hole's words got it too
			st.dropAtom(s.Hole, z.ID)
			if dir == 0 {
				s.L = []Item{{A: z.ID, F: it.F}}
			} else {
				s.R = []Item{{A: z.ID, F: it.F}}
			}
		}
	}
}

// edgeItem is the first (dir 0) or last item of a structure.
func (st *State) edgeItem(v Value, dir int) (Item, bool) {
	w := []Item{}
	switch x := v.(type) {
	case VSub:
		w = st.subs[x.ID].W
	case VSeg:
		s := st.segs[x.ID]
		w = s.L
		if dir == 1 {
			w = s.R
		}
		if len(w) == 0 {
			return st.edgeItem(s.Hole, dir)
		}
	case VPtr:
		o := st.objs[x.O]
		if o == nil || x.P != 0 {
			return Item{}, false
		}
		r, ok := st.eng.theory(o.T).(*RB)
		if !ok {
			return Item{}, false
		}
		if it, ok := st.edgeItem(o.Cells[r.Kid[dir]], dir); ok {
			return it, true
		} else if _, ok := o.Cells[r.Kid[dir]].(VNil); !ok {
			return Item{}, false
		}
		it := st.entryItem(o.Cells[r.Key], o.Cells[r.Val])
		return it, it.A != 0
	}
	if len(w) == 0 {
		return Item{}, false
	}
	if dir == 1 {
		return w[len(w)-1], true
	}
	return w[0], true
}

// dropAtom removes an empty atom from the words of a structure.
func (st *State) dropAtom(v Value, a int) {
	drop := func(w []Item) []Item {
		for i := range w {
			if w[i].A == a {
				return append(append([]Item{}, w[:i]...), w[i+1:]...)
			}
		}
		return w
	}
	switch x := v.(type) {
	case VSub:
		st.subs[x.ID].W = drop(st.subs[x.ID].W)
	case VSeg:
		s := st.segs[x.ID]
		s.L, s.R = drop(s.L), drop(s.R)
		st.dropAtom(s.Hole, a)
	case VPtr:
		if o := st.objs[x.O]; o != nil && x.P == 0 {
			if r, ok := st.eng.theory(o.T).(*RB); ok {
				for _, k := range r.Kid {
					st.dropAtom(o.Cells[k], a)
				}
			}
		}
	}
}

func (e *Engine) note(st *State) {
	if e.debug {
		st.hist = append(st.hist, st.Dump())
	}
}

// normalize simplifies values: symbols with a single possible value become constants.
func (st *State) normalize() {
	var fix []Sym
	for i := 1; i < len(st.zone.sym); i++ {
		if st.zone.m[i][0] < inf && st.zone.m[0][i] == -st.zone.m[i][0] {
			fix = append(fix, st.zone.sym[i])
		}
	}
	for _, s := range fix {
		_, hi := st.zone.symBounds(s)
		st.substSym(s, linC(hi))
	}
}

// liftHeights names black heights which are constant, or far from the others of the same name, so that
// they can be generalised; how they relate is left to the numeric domain.
func (st *State) liftHeights() {
	var slots []*Lin
	for _, id := range sortedKeys(st.subs) {
		slots = append(slots, &st.subs[id].BH)
	}
	for _, id := range sortedKeys(st.segs) {
		slots = append(slots, &st.segs[id].TopBH, &st.segs[id].HoleBH)
	}
	names := map[int64]Sym{}
	offs := map[Sym][]int64{}
	for _, p := range slots {
		switch {
		case p.isConst() && p.k > 1:
			s, ok := names[p.k]
			if !ok {
				s = st.newSym()
				names[p.k] = s
				st.zone.assumeEQ0(linS(s).addC(-p.k))
			}
			*p = linS(s)
		case len(p.t) == 1 && p.t[0].c == 1:
			offs[p.t[0].s] = append(offs[p.t[0].s], p.k)
		}
	}
	type far struct {
		s Sym
		k int64
	}
	ren := map[far]Lin{}
	for s, ks := range offs {
		sort.Slice(ks, func(i, j int) bool { return ks[i] > ks[j] })
		cur := linS(s)
		for i, k := range ks {
			if i > 0 && ks[i-1]-k >= 2 {
				n := st.newSym()
				st.zone.assumeEQ0(linS(n).sub(linS(s)).addC(-k))
				cur = linS(n).addC(-k)
			}
			ren[far{s, k}] = cur.addC(k)
		}
	}
	for _, p := range slots {
		if len(p.t) == 1 && p.t[0].c == 1 {
			if l, ok := ren[far{p.t[0].s, p.k}]; ok {
				*p = l
			}
		}
	}
}

// weaken forgets links of old nodes to whatever new nodes share with them: the old tree can't change
// (a write to it is a finding on its own), so nothing is lost unless the code goes on reading there.
func (st *State) weaken() bool {
	if st.eng.ob.glue {
		return false
	}
	inplace := st.eng.ob.Inplace
	// in place there is one tree, hence only links of what holds a tree are given up
	isOld := func(o *Obj) bool { return !o.Fresh && (!inplace || st.eng.theory(o.T) == nil) }
	type use struct{ fresh, old int }
	uses := map[Value]*use{}
	each := func(f func(o *Obj, i int, v Value)) {
		for _, id := range sortedKeys(st.objs) {
			o := st.objs[id]
			for i, c := range o.Cells {
				switch x := c.(type) {
				case VPtr:
					if x.P == 0 && (!inplace || st.objs[x.O] != nil && st.eng.theory(st.objs[x.O].T) != nil) {
						f(o, i, c)
					}
				case VSub, VSeg:
					f(o, i, c)
				}
			}
		}
	}
	each(func(o *Obj, i int, v Value) {
		u := uses[v]
		if u == nil {
			u = &use{}
			uses[v] = u
		}
		if isOld(o) {
			u.old++
		} else {
			u.fresh++
		}
	})
	done := false
	each(func(o *Obj, i int, v Value) {
		if u := uses[v]; isOld(o) && u.fresh > 0 && u.old > 0 {
			o.Cells[i] = VTop{"a link of an old node"}
			done = true
		}
	})
	return done
}
