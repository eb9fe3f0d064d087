package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Order kinds of the searched key.
const (
	ordFunc  = "func"     // an unknown total order, given as a function
	ordLex   = "lex"      // strings.Compare
	ordShort = "shortlex" // shorter first, then bytewise
)

// triples lists the consistent (length, bytewise, order class) combinations of an entry's key and the searched key.
func triples(kind string) [][3]uint8 {
	var out [][3]uint8
	for _, ln := range []uint8{cLT, cEQ, cGT} {
		for _, lx := range []uint8{cLT, cEQ, cGT} {
			if lx == cEQ && ln != cEQ {
				continue
			}
			for _, cl := range []uint8{cLT, cEQ, cGT} {
				switch kind {
				case ordFunc:
					if lx == cEQ && cl != cEQ {
						continue
					}
				case ordLex:
					if cl != lx {
						continue
					}
				case ordShort:
					want := ln
					if ln == cEQ {
						want = lx
					}
					if cl != want {
						continue
					}
				}
				out = append(out, [3]uint8{ln, lx, cl})
			}
		}
	}
	return out
}

func lowestClass(m uint8) uint8 {
	for _, c := range []uint8{cLT, cEQ, cGT} {
		if m&c != 0 {
			return c
		}
	}
	return 0
}

func highestClass(m uint8) uint8 {
	for _, c := range []uint8{cGT, cEQ, cLT} {
		if m&c != 0 {
			return c
		}
	}
	return 0
}

// sync propagates order facts over the initial content and reports feasibility.
func (st *State) sync() bool {
	if st.eng.ob.syncFn != nil {
		return st.eng.ob.syncFn(st)
	}
	kind := st.eng.ob.order
	if kind == "" {
		return true
	}
	w := st.words["orig"]
	key := st.ghosts["K"]
	tr := triples(kind)
	for _, it := range w {
		a := st.atoms[it.A]
		if a == nil || a.Seq {
			continue
		}
		// lengths
		if lk, ok := st.lenSym(key); ok {
			if la, ok := st.lenSym(a.K); ok {
				d := la.sub(lk)
				lo, hi := st.zone.lower(d), st.zone.upper(d)
				if lo >= 0 {
					a.Len &^= cLT
				}
				if lo > 0 {
					a.Len &^= cEQ
				}
				if hi <= 0 {
					a.Len &^= cGT
				}
				if hi < 0 {
					a.Len &^= cEQ
				}
			}
		}
	}
	for round := 0; round < 4; round++ {
		changed := false
		set := func(a *Atom, m uint8) {
			if a.Mask&m != a.Mask {
				a.Mask &= m
				changed = true
			}
		}
		for i, it := range w {
			a := st.atoms[it.A]
			if a == nil || a.Seq {
				continue
			}
			var ln, lx, cl uint8
			for _, t := range tr {
				if a.Len&t[0] != 0 && a.Lex&t[1] != 0 && a.Mask&t[2] != 0 {
					ln |= t[0]
					lx |= t[1]
					cl |= t[2]
				}
			}
			if cl == 0 {
				return false
			}
			if a.Len != ln || a.Lex != lx {
				a.Len, a.Lex = ln, lx
				changed = true
			}
			set(a, cl)
			if highestClass(a.Mask) != cGT {
				for _, p := range w[:i] {
					if b := st.atoms[p.A]; b != nil {
						set(b, cLT)
					}
				}
			}
			if lowestClass(a.Mask) != cLT {
				for _, p := range w[i+1:] {
					if b := st.atoms[p.A]; b != nil {
						set(b, cGT)
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	var del []int
	for _, it := range w {
		a := st.atoms[it.A]
		if a == nil || a.Mask != 0 {
			continue
		}
		if !a.Seq {
			return false
		}
		del = append(del, it.A)
	}
	for _, d := range del {
		st.splitAtom(d)
	}
	// entries of known relative length constrain the numbers
	for _, it := range st.words["orig"] {
		a := st.atoms[it.A]
		if a == nil || a.Seq || a.Len == 7 {
			continue
		}
		if lk, ok := st.lenSym(key); ok {
			if la, ok := st.lenSym(a.K); ok {
				d := la.sub(lk)
				if highestClass(a.Len) == cLT && !st.zone.assumeLE0(d.addC(1)) ||
					highestClass(a.Len) == cEQ && !st.zone.assumeLE0(d) ||
					lowestClass(a.Len) == cGT && !st.zone.assumeLE0(d.neg().addC(1)) ||
					lowestClass(a.Len) == cEQ && !st.zone.assumeLE0(d.neg()) {
					return false
				}
			}
		}
	}
	return true
}

func (st *State) lenSym(v Value) (Lin, bool) {
	switch x := v.(type) {
	case VStr:
		return linC(int64(len(x.S))), true
	case VOpq:
		if s, ok := st.lens[x.ID]; ok {
			return linS(s), true
		}
	}
	return Lin{}, false
}

// keyPair finds the entry compared with the searched key; swapped tells the argument order.
func (st *State) keyPair(a, b Value) (at *Atom, swapped, ok bool) {
	key := st.ghosts["K"]
	if key == nil {
		return nil, false, false
	}
	find := func(v Value) *Atom {
		for _, it := range st.words["orig"] {
			if x := st.atoms[it.A]; x != nil && !x.Seq && valSame(x.K, v) {
				return x
			}
		}
		return nil
	}
	if valSame(b, key) {
		if x := find(a); x != nil {
			return x, false, true
		}
	}
	if valSame(a, key) {
		if x := find(b); x != nil {
			return x, true, true
		}
	}
	return nil, false, false
}

// origOrder compares two entries of the initial content by their position.
func (st *State) origOrder(a, b Value) (int, bool) {
	pa, pb := -1, -1
	for i, it := range st.words["orig"] {
		x := st.atoms[it.A]
		if x == nil || x.Seq {
			continue
		}
		if valSame(x.K, a) {
			pa = i
		}
		if valSame(x.K, b) {
			pb = i
		}
	}
	if pa < 0 || pb < 0 || pa == pb {
		return 0, false
	}
	if pa < pb {
		return -1, true
	}
	return 1, true
}

func maskSign(m uint8) (int, bool) {
	switch m {
	case cLT:
		return -1, true
	case cEQ:
		return 0, true
	case cGT:
		return 1, true
	}
	return 0, false
}

// classBy resolves one aspect of the relation between an entry and the searched key, forking when open.
func (st *State) classBy(a *Atom, get func(*Atom) *uint8) int {
	m := *get(a)
	if s, ok := maskSign(m); ok {
		return s
	}
	id := a.ID
	var alts []func(*State) bool
	for _, c := range []uint8{cLT, cEQ, cGT} {
		c := c
		if m&c == 0 {
			continue
		}
		alts = append(alts, func(n *State) bool { *get(n.atoms[id]) = c; return true })
	}
	st.fork(alts...)
	return 0
}

func atomMask(a *Atom) *uint8 { return &a.Mask }
func atomLex(a *Atom) *uint8  { return &a.Lex }

func (st *State) signVal(s int, unit bool) Value {
	if s == 0 {
		return VInt{linC(0)}
	}
	if unit {
		return VInt{linC(int64(s))}
	}
	n := st.newSym()
	if s < 0 {
		st.zone.assumeLE0(linS(n).addC(1))
	} else {
		st.zone.assumeLE0(linS(n).neg().addC(1))
	}
	return VInt{linS(n)}
}

// orderCall is a call of the tree's comparison function.
func (st *State) orderCall(a, b Value) Value {
	if valSame(a, b) {
		return VInt{linC(0)}
	}
	if at, sw, ok := st.keyPair(a, b); ok {
		s := st.classBy(at, atomMask)
		if sw {
			s = -s
		}
		return st.signVal(s, false)
	}
	if s, ok := st.origOrder(a, b); ok {
		return st.signVal(s, false)
	}
	return VInt{linS(st.newSym())}
}

// compareStrings is the bytewise comparison.
func (st *State) compareStrings(a, b Value) int {
	if valSame(a, b) {
		return 0
	}
	if x, ok := a.(VStr); ok {
		if y, ok := b.(VStr); ok {
			switch {
			case x.S < y.S:
				return -1
			case x.S > y.S:
				return 1
			}
			return 0
		}
	}
	if at, sw, ok := st.keyPair(a, b); ok {
		s := st.classBy(at, atomLex)
		if sw {
			s = -s
		}
		return s
	}
	if st.eng.ob.order == ordLex {
		if s, ok := st.origOrder(a, b); ok {
			return s
		}
	}
	// unknown: any answer
	id := st.id()
	n := Sym(id)
	key := VApp{F: "cmp", Args: []Value{a, b}}
	_ = n
	st.abort("undecided", "comparison of unrelated strings %s", st.show(key))
	return 0
}

func (st *State) stringsEqual(a, b Value) bool {
	if valSame(a, b) {
		return true
	}
	if st.eng.ob.strEqual != nil {
		if r, ok := st.eng.ob.strEqual(st, a, b); ok {
			return r
		}
	}
	_, ok1 := a.(VStr)
	_, ok2 := b.(VStr)
	if ok1 && ok2 {
		return false
	}
	if at, _, ok := st.keyPair(a, b); ok {
		if at.Lex&cEQ == 0 {
			return false
		}
		if at.Lex == cEQ {
			return true
		}
		id := at.ID
		st.fork(func(n *State) bool { n.atoms[id].Lex = cEQ; return true },
			func(n *State) bool { n.atoms[id].Lex &^= cEQ; return true })
	}
	if _, ok := st.origOrder(a, b); ok && st.eng.ob.order != ordFunc {
		return false
	}
	// emptiness of an unknown string is decided by its length
	for i, v := range []Value{a, b} {
		o := b
		if i == 1 {
			o = a
		}
		if s, ok := v.(VStr); ok && s.S == "" {
			return st.decideEQ0(st.strLen(o))
		}
	}
	st.abort("undecided", "comparison of strings %s and %s", st.show(a), st.show(b))
	return false
}

func (st *State) strLen(v Value) Lin {
	if l, ok := st.lenSym(v); ok {
		return l
	}
	if st.eng.ob.strLen != nil {
		if l, ok := st.eng.ob.strLen(st, v); ok {
			return l
		}
	}
	switch x := v.(type) {
	case VOpq:
		s := st.newSym()
		st.zone.assumeLE0(linS(s).neg())
		st.lens[x.ID] = s
		st.sync()
		return linS(s)
	}
	st.abort("undecided", "length of %s", st.show(v))
	return Lin{}
}

// callOpaque calls an unknown function value.
func (st *State) callOpaque(fv Value, args []Value, c *ssa.CallCommon) (Value, bool) {
	if f, ok := st.ghosts["F"]; ok && valSame(f, fv) && len(args) == 2 {
		return st.orderCall(args[0], args[1]), true
	}
	if st.eng.ob.callFn != nil {
		return st.eng.ob.callFn(st, fv, args, c)
	}
	return nil, false
}

func (st *State) invoke(c *ssa.CallCommon, args []Value) (Value, bool) {
	if st.eng.ob.invokeFn != nil {
		return st.eng.ob.invokeFn(st, c, args)
	}
	return nil, false
}

// external models functions outside the repository.
func (st *State) external(fn *ssa.Function, args []Value, c *ssa.CallCommon) (Value, bool) {
	if st.eng.ob.extFn != nil {
		if v, ok := st.eng.ob.extFn(st, fn, args); ok {
			return v, true
		}
	}
	switch fn.String() {
	case "strings.Compare":
		return st.signVal(st.compareStrings(args[0], args[1]), true), true
	case "cmp.Compare[string]":
		return st.signVal(st.compareStrings(args[0], args[1]), true), true
	case "errors.New", "fmt.Errorf":
		return VApp{F: "error", Args: []Value{VOpq{st.id()}}}, true
	}
	if v, ok := st.extBits(fn, args); ok {
		return v, true
	}
	return nil, false
}

func (st *State) loadGlobal(g *ssa.Global) Value {
	if st.eng.ob.globFn != nil {
		if v, ok := st.eng.ob.globFn(st, g); ok {
			return v
		}
	}
	if _, ok := deref(g.Type()).Underlying().(*types.Slice); ok && st.eng.prog.table(g) != nil {
		return VTable{g}
	}
	if st.eng.errGlobal(g) {
		return VApp{F: "global", Args: []Value{VGlob{g}}}
	}
	st.abort("undecided", "read of package variable %s", g)
	return nil
}

// errGlobal tells whether a package variable is set once, in the package's initialisation, to a new error.
func (e *Engine) errGlobal(g *ssa.Global) bool {
	if !types.Identical(deref(g.Type()), types.Universe.Lookup("error").Type()) {
		return false
	}
	if g.Pkg == nil || g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF" {
		return true
	}
	if !e.prog.constGlobal(g) {
		return false
	}
	st := e.prog.globalInit(g)
	if st == nil {
		return false
	}
	v := st.Val
	if mi, ok := v.(*ssa.MakeInterface); ok {
		_ = mi
		return true
	}
	if c, ok := v.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "errors.New", "fmt.Errorf":
				return true
			}
		}
	}
	return false
}

// globalInit is the only store to a package variable in its package's init function.
func (p *Program) globalInit(g *ssa.Global) *ssa.Store {
	var r *ssa.Store
	for _, f := range []string{"init"} {
		fn := g.Pkg.Func(f)
		if fn == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && s.Addr == g {
					if r != nil {
						return nil
					}
					r = s
				}
			}
		}
	}
	return r
}

// constGlobal tells whether a package variable is only loaded outside of its package's init, and its
// address is never kept.
func (p *Program) constGlobal(g *ssa.Global) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if r, ok := p.constG[g]; ok {
		return r
	}
	ok := true
	for _, f := range p.AllFuncs {
		isInit := f.Name() == "init" && f.Synthetic != "" && f.Pkg == g.Pkg
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp:
					case *ssa.DebugRef:
					case *ssa.IndexAddr:
						if !isInit && !onlyLoads(x) {
							ok = false
						}
					case *ssa.FieldAddr:
						if !isInit && !onlyLoads(x) {
							ok = false
						}
					case *ssa.Store:
						if !isInit || x.Val == ssa.Value(g) {
							ok = false
						}
					case *ssa.Slice:
						if !isInit {
							ok = false
						}
					default:
						if !isInit {
							ok = false
						}
					}
				}
			}
		}
	}
	p.constG[g] = ok
	return ok
}

func onlyLoads(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.IndexAddr:
			if !onlyLoads(x) {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyLoads(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}
