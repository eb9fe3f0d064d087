package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Entry is a summary of a recursive function for one abstract entry state.
type Entry struct {
	key   string
	fn    *ssa.Function
	st    *State // canonical entry state
	ids   []int  // entities of the entry state in canonical order
	syms  []Sym
	base  []int64
	zone  *Zone
	joins int
	exits map[string]*exitRec
	order []string
	deps  []*dependent
	pre   map[int]string
}

type exitRec struct {
	st    *State
	zone  *Zone
	joins int
}

type dependent struct {
	st   *State
	ids  []int
	syms []Sym
	base []int64
	exp  map[int][]int // entry-state atom of this call -> atoms of the caller
	ords []int         // this call's own entry atoms by canonical position
	res  *ssa.Call
}

// tabCall enters a recursive function through its summary table.
func (e *Engine) tabCall(st *State, f *Frame, fn VFunc, args []Value, res *ssa.Call) bool {
	// resolve how the arguments look like first: summarised values are passed as they are
	c := st.clone()
	in := e.info(fn.Fn)
	e.fnsSeen[fn.Fn] = true
	g := &Frame{fn: fn.Fn, info: in, blk: fn.Fn.Blocks[0], regs: make([]Value, len(in.vals))}
	for i, p := range fn.Fn.Params {
		g.regs[in.num[p]] = args[i]
	}
	for i, p := range fn.Fn.FreeVars {
		g.regs[in.num[p]] = fn.Caps[i]
	}
	g.isGo = st.inGo()
	// what the caller itself still refers to
	held := map[int]bool{}
	for k, v := range c.ghosts {
		if strings.HasPrefix(k, "cut") {
			switch x := v.(type) {
			case VPtr:
				held[x.O] = true
			case VSub:
				held[x.ID] = true
			}
			delete(c.ghosts, k)
		}
	}
	{
		d := st.clone()
		d.prune(false)
		top := d.top()
		live := top.info.after[top.blk.Instrs[top.pc]]
		own := top.info.num[ssa.Value(res)]
		for n := range top.regs {
			if !live[n] || n == own {
				top.regs[n] = nil
			}
		}
		for _, fr := range d.frames {
			for _, r := range fr.regs {
				if r != nil {
					refsOf(r, func(v Value) {
						if p, ok := v.(VPtr); ok {
							held[p.O] = true
						}
						if s, ok := v.(VSub); ok {
							held[s.ID] = true
						}
					})
				}
			}
		}
		// objects outside the callee's reach which refer into it
		reach := map[int]bool{}
		for _, a := range args {
			c.reach(a, reach)
		}
		for _, a := range fn.Caps {
			c.reach(a, reach)
		}
		d.frames = d.frames[:len(d.frames)]
		dl := map[int]bool{}
		for _, fr := range d.frames {
			for _, r := range fr.regs {
				if r != nil {
					d.reach(r, dl)
				}
			}
		}
		for id := range dl {
			o := st.objs[id]
			if o == nil || reach[id] {
				continue
			}
			for _, cell := range o.Cells {
				refsOf(cell, func(v Value) {
					switch x := v.(type) {
					case VPtr:
						if reach[x.O] {
							held[x.O] = true
						}
					case VSub:
						if reach[x.ID] {
							held[x.ID] = true
						}
					}
				})
			}
		}
		var cut []int
		for id := range held {
			if !reach[id] {
				continue
			}
			if _, isObj := st.objs[id]; isObj || st.subs[id] != nil && e.ob.Inplace {
				cut = append(cut, id)
			}
		}
		sort.Ints(cut)
		for i, id := range cut {
			if st.objs[id] != nil {
				c.ghosts[fmt.Sprintf("cut%d", i)] = VPtr{id, 0}
			} else {
				c.ghosts[fmt.Sprintf("cut%d", i)] = VSub{id}
			}
		}
	}
	c.frames = []*Frame{g}
	for k := range c.ghosts {
		if strings.HasPrefix(k, "obj") {
			delete(c.ghosts, k)
		}
	}
	c.trace = append([]string(nil), st.trace...)
	for k := range c.words {
		if k != "orig" {
			delete(c.words, k)
		}
	}
	args0 := map[int]bool{}
	for _, a := range args {
		c.reach(a, args0)
	}
	for _, a := range fn.Caps {
		c.reach(a, args0)
	}
	for _, id := range sortedKeys(c.chans) {
		if !args0[id] {
			continue
		}
		h := c.chans[id]
		h.W = nil
		h.Outer = true
		c.ghosts[fmt.Sprintf("cutch%d", len(c.ghosts))] = VChan{h.ID}
	}
	c.normalize()
	c.gc()
	c.liftHeights()
	// every argument's content becomes one atom
	var log []mergeLog
	c.mergeAtoms(&log)
	exp := map[int][]int{}
	expand := func(a int) []int {
		if x, ok := exp[a]; ok {
			return x
		}
		return []int{a}
	}
	for _, l := range log {
		exp[l.z] = append(append([]int{}, expand(l.x)...), expand(l.y)...)
	}
	e.ob.enterTab(c)
	cn := c.canonical(nil)
	key := fn.Fn.String() + cn.key()
	ids := cn.order
	var atoms []int
	for i, id := range ids {
		if _, ok := c.atoms[id]; ok {
			atoms = append(atoms, i)
		}
	}
	bases := make([]int64, len(cn.syms))
	for i, s := range cn.syms {
		bases[i] = cn.base[s]
	}
	dep := &dependent{st: st.clone(), ids: ids, syms: cn.syms, base: bases, exp: map[int][]int{}, res: res}
	for _, i := range atoms {
		dep.exp[i] = expand(ids[i])
	}
	z := cn.projZone()
	en := e.entries[key]
	if en == nil {
		if len(e.entries) > 400 {
			st.abort("undecided", "too many entry states of recursive functions")
		}
		en = &Entry{key: key, fn: fn.Fn, st: c, ids: ids, syms: cn.syms, base: bases, zone: z, exits: map[string]*exitRec{}, pre: map[int]string{}}
		for i, id := range ids {
			en.pre[id] = "E" + itoa(i)
		}
		for _, i := range atoms {
			c.words[fmt.Sprintf("ref%03d", i)] = []Item{{A: ids[i]}}
		}
		e.entries[key] = en
		cn.setZone(z)
		en.deps = append(en.deps, dep)
		s := c.clone()
		s.entry = en
		e.push(s)
		return false
	}
	en.deps = append(en.deps, dep)
	for _, k := range en.order {
		e.applyExit(en, en.exits[k], dep)
	}
	if !z.leq(en.zone) {
		en.joins++
		nz := en.zone.join(z)
		if en.joins > 3 {
			nz = en.zone.widen(nz, in.thr)
		}
		en.zone = nz
		s := en.st.clone()
		s.entry = en
		cs := &canon{st: s, base: map[Sym]int64{}, syms: en.syms}
		for i, y := range en.syms {
			cs.base[y] = en.base[i]
		}
		cs.setZone(nz)
		e.push(s)
	}
	return false
}

// reach collects the identities reachable from a value.
func (st *State) reach(v Value, set map[int]bool) {
	refsOf(v, func(v Value) {
		switch x := v.(type) {
		case VPtr:
			if !set[x.O] && st.objs[x.O] != nil {
				set[x.O] = true
				for _, c := range st.objs[x.O].Cells {
					st.reach(c, set)
				}
			}
		case VSlice:
			st.reach(VPtr{x.O, 0}, set)
		case VElem:
			st.reach(VPtr{x.O, 0}, set)
		case VSub:
			set[x.ID] = true
		case VSeg:
			if !set[x.ID] {
				set[x.ID] = true
				st.reach(st.segs[x.ID].Hole, set)
			}
		case VChan:
			set[x.ID] = true
		}
	})
}

func (e *Engine) tabExit(st *State, res Value) {
	en := st.entry
	st = st.clone()
	st.frames = nil
	name := "treeres"
	if e.ob.keepRes {
		name = "leafres" // stays as it is
		// a lookup doesn't depend on whether the parts it leaves out are empty
		for _, a := range st.atoms {
			a.NE = a.NE && !a.Seq
		}
		for _, s := range st.subs {
			s.NonNil = false
		}
	}
	st.ghosts[name] = res
	if t, ok := res.(VTuple); ok {
		delete(st.ghosts, name)
		for i, x := range t.E {
			st.ghosts[fmt.Sprintf("%s%d", name, i)] = x
		}
		st.ghosts["resn"] = VInt{linC(int64(len(t.E)))}
	}
	st.normalize()
	st.fold(false)
	st.liftHeights()
	c := st.canonical(en.pre)
	key := c.key()
	z := c.projZone()
	x := en.exits[key]
	if x == nil {
		if len(en.exits) > 1500 {
			e.report(st, "undecided", "too many exit states of a recursive function")
			return
		}
		c.setZone(z)
		x = &exitRec{st: st, zone: z}
		en.exits[key] = x
		en.order = append(en.order, key)
	} else {
		if z.leq(x.zone) {
			return
		}
		x.joins++
		nz := x.zone.join(z)
		if x.joins > 3 {
			nz = x.zone.widen(nz, e.info(en.fn).thr)
		}
		x.zone = nz
		c.setZone(nz)
		x.st = st
	}
	for _, d := range append([]*dependent(nil), en.deps...) {
		e.applyExit(en, x, d)
	}
}

func renameVal(v Value, f func(int) int) Value {
	return mapVal(v, func(v Value) Value {
		switch x := v.(type) {
		case VInt:
			return VInt{x.L.rename(func(s Sym) Sym { return Sym(f(int(s))) })}
		case VBool:
			if !x.Known {
				x.ID = f(x.ID)
			}
			return x
		case VPtr:
			return VPtr{f(x.O), x.P}
		case VSub:
			return VSub{f(x.ID)}
		case VSeg:
			return VSeg{f(x.ID)}
		case VOpq:
			return VOpq{f(x.ID)}
		case VChan:
			return VChan{f(x.ID)}
		case VSlice:
			r := func(s Sym) Sym { return Sym(f(int(s))) }
			return VSlice{f(x.O), x.P, x.Off.rename(r), x.Len.rename(r), x.Cap.rename(r)}
		case VElem:
			return x.rename(f)
		case VWord:
			return x.rename(f)
		case VBytes:
			return x.rename(f)
		}
		return v
	})
}

// applyExit continues a caller with one exit of the callee.
func (e *Engine) applyExit(en *Entry, x *exitRec, d *dependent) {
	s := d.st.clone()
	pos := map[int]int{}
	for i, id := range en.ids {
		pos[id] = i
	}
	m := map[int]int{}
	// symbols may be shifted between the entry state and the caller
	shift := map[int]int64{}
	for i, y := range en.syms {
		if dlt := en.base[i] - d.base[i]; dlt != 0 {
			shift[int(y)] = dlt
		}
	}
	ren := func(id int) int {
		if id == 0 {
			return 0
		}
		if n, ok := m[id]; ok {
			return n
		}
		var n int
		if i, ok := pos[id]; ok {
			n = d.ids[i]
		} else {
			n = s.id()
		}
		m[id] = n
		return n
	}
	var rlin func(l Lin) Lin
	rlin = func(l Lin) Lin {
		k := l.k
		for _, t := range l.t {
			k -= 0
			if dl, ok := shift[int(t.s)]; ok {
				// entry symbol + entry base == caller symbol + caller base
				k -= t.c * dl
			}
		}
		return Lin{l.t, k}.rename(func(y Sym) Sym { return Sym(ren(int(y))) })
	}
	rv := func(v Value) Value {
		if v == nil {
			return nil
		}
		if len(shift) > 0 {
			v = mapVal(v, func(v Value) Value {
				if i, ok := v.(VInt); ok {
					for _, t := range i.L.t {
						if dl, ok := shift[int(t.s)]; ok {
							i.L.k -= t.c * dl
						}
					}
					return i
				}
				if w, ok := v.(VWord); ok {
					return w.mapLin(func(l Lin) Lin {
						for _, t := range l.t {
							if dl, ok := shift[int(t.s)]; ok {
								l.k -= t.c * dl
							}
						}
						return l
					})
				}
				return v
			})
		}
		return renameVal(v, ren)
	}
	src := x.st
	// refine the caller's content
	exp := map[int][]Item{} // exit atom -> items of the caller
	for i, id := range en.ids {
		caller, ok := d.exp[i]
		if !ok {
			continue
		}
		ref, ok := src.words[fmt.Sprintf("ref%03d", i)]
		if !ok {
			continue
		}
		if len(ref) == 1 && ref[0].A == id {
			var w []Item
			for _, a := range caller {
				w = append(w, Item{A: a})
				if at := s.atoms[a]; at != nil {
					at.Mask &= src.atoms[id].Mask
					if src.atoms[id].NE && len(caller) == 1 {
						at.NE = true
					}
					if !at.Seq {
						at.Lex &= src.atoms[id].Lex
						at.Len &= src.atoms[id].Len
					}
				}
			}
			exp[id] = w
			continue
		}
		var w []Item
		var nids []int
		for _, it := range ref {
			a := *src.atoms[it.A]
			a.ID = ren(it.A)
			if a.K != nil {
				a.K = rv(a.K)
			}
			if a.V != nil {
				a.V = rv(a.V)
			}
			if a.X != nil {
				xx := map[string]Value{}
				for k, v := range a.X {
					xx[k] = rv(v)
				}
				a.X = xx
			}
			s.atoms[a.ID] = &a
			nids = append(nids, a.ID)
			w = append(w, Item{A: a.ID})
			exp[it.A] = []Item{{A: a.ID}}
		}
		if len(caller) == 1 {
			if s.atoms[caller[0]] == nil {
				continue
			}
			if !s.atoms[caller[0]].Seq {
				s.eng.report(s, "undecided", "entry split by a callee")
				return
			}
			cm := s.atoms[caller[0]].Mask
			for _, n := range nids {
				s.atoms[n].Mask &= cm
			}
			s.splitAtom(caller[0], nids...)
		} else if !s.replaceRun(caller, nids) {
			s.eng.report(s, "undecided", "content of an argument was divided by a recursive call")
			return
		}
	}
	item := func(w []Item) []Item {
		var out []Item
		for _, it := range w {
			if it.A == 0 {
				out = append(out, Item{F: it.F, K: rv(it.K), V: rv(it.V)})
				continue
			}
			if ex, ok := exp[it.A]; ok {
				for _, y := range ex {
					y.F = it.F
					out = append(out, y)
				}
				continue
			}
			a := *src.atoms[it.A]
			a.ID = ren(it.A)
			if a.K != nil {
				a.K = rv(a.K)
			}
			if a.V != nil {
				a.V = rv(a.V)
			}
			s.atoms[a.ID] = &a
			out = append(out, Item{A: a.ID, F: it.F})
		}
		return out
	}
	for _, k := range sortedKeys(src.objs) {
		o := *src.objs[k]
		o.ID = ren(k)
		o.Cells = append([]Value(nil), o.Cells...)
		for i, c := range o.Cells {
			o.Cells[i] = rv(c)
		}
		s.objs[o.ID] = &o
	}
	for _, k := range sortedKeys(src.subs) {
		o := *src.subs[k]
		o.ID = ren(k)
		o.W = item(o.W)
		o.BH = rlin(o.BH)
		o.R = o.R.rename(rlin, ren)
		o.T = o.T.rename(rv)
		s.subs[o.ID] = &o
	}
	for _, k := range sortedKeys(src.segs) {
		o := *src.segs[k]
		o.ID = ren(k)
		o.L, o.R = item(o.L), item(o.R)
		o.TopBH, o.HoleBH = rlin(o.TopBH), rlin(o.HoleBH)
		o.X = o.X.rename(rlin, ren)
		o.Hole = rv(o.Hole)
		s.segs[o.ID] = &o
	}
	for _, k := range sortedKeys(src.chans) {
		h := src.chans[k]
		n := ren(k)
		w := item(h.W)
		if old := s.chans[n]; old != nil && h.Outer {
			old.W = append(append([]Item(nil), old.W...), w...)
			old.Closed = h.Closed
		} else {
			c := *h
			c.ID = n
			c.W = w
			s.chans[n] = &c
		}
	}
	for k, y := range src.lens {
		if _, ok := s.lens[ren(k)]; !ok {
			s.lens[ren(k)] = Sym(ren(int(y)))
		}
	}
	for k, g := range src.ghosts {
		if strings.HasPrefix(k, "tree") || strings.HasPrefix(k, "leafres") || strings.HasPrefix(k, "cut") || k == "resn" {
			continue
		}
		if _, ok := s.ghosts[k]; !ok {
			s.ghosts[k] = rv(g)
		}
	}
	for k, g := range en.st.ghosts {
		if !s.sameNums(rv(g), rv(src.ghosts[k])) {
			return
		}
	}
	if src.facts != nil {
		s.facts.meet(src.facts, rlin, ren)
	}
	// numeric facts
	for i := range src.zone.m {
		for j := range src.zone.m {
			v := src.zone.m[i][j]
			if i == j || v >= inf {
				continue
			}
			var l Lin
			if i > 0 {
				l = l.add(linS(src.zone.sym[i]))
			}
			if j > 0 {
				l = l.sub(linS(src.zone.sym[j]))
			}
			if !s.zone.assumeLE0(rlin(l).addC(-v)) {
				return
			}
		}
	}
	var res Value
	name := "treeres"
	if e.ob.keepRes {
		name = "leafres"
	}
	if r, ok := src.ghosts[name]; ok {
		res = rv(r)
	} else {
		var el []Value
		n := src.ghosts["resn"].(VInt).L.k
		for i := int64(0); i < n; i++ {
			el = append(el, rv(src.ghosts[fmt.Sprintf("%s%d", name, i)]))
		}
		res = VTuple{el}
	}
	f := s.top()
	s.setReg(f, d.res, res)
	f.pc++
	if !s.sync() {
		return
	}
	e.push(s)
}

// sameNums records that the numbers in two values are equal; it's false when they can't be.
func (st *State) sameNums(a, b Value) bool {
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return st.zone.assumeEQ0(x.L.sub(y.L))
		}
	case VTuple:
		if y, ok := b.(VTuple); ok && len(x.E) == len(y.E) {
			for i := range x.E {
				if !st.sameNums(x.E[i], y.E[i]) {
					return false
				}
			}
		}
	}
	return true
}

// replaceRun replaces a run of atoms wherever it occurs; it fails when the run occurs partially.
func (st *State) replaceRun(run []int, by []int) bool {
	ok := true
	in := map[int]bool{}
	for _, r := range run {
		in[r] = true
	}
	st.eachWord(func(w []Item) []Item {
		var out []Item
		for i := 0; i < len(w); {
			if !in[w[i].A] || w[i].A == 0 {
				out = append(out, w[i])
				i++
				continue
			}
			match := i+len(run) <= len(w)
			for k := 0; match && k < len(run); k++ {
				if w[i+k].A != run[k] || w[i+k].F != w[i].F {
					match = false
				}
			}
			if !match {
				ok = false
				return w
			}
			for _, b := range by {
				out = append(out, Item{A: b, F: w[i].F})
			}
			i += len(run)
		}
		return out
	})
	return ok
}
