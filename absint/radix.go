package main

import (
	"fmt"
	"go/types"
)

// classes of stored prefixes relative to the searched prefix of q bits: a proper prefix of it, equal to
// it, contained in it, anything else
const (
	rANC  = uint8(1)
	rEQ   = cEQ
	rDESC = uint8(4)
	rOTH  = uint8(8)
	rAll  = uint8(15)
)

// Radix is the theory of radix trees: the keys below a node start with the node's prefix followed by the
// bit which stands for the branch, and every subtree holds an entry.
type Radix struct {
	T                    *types.Named
	Key, Bits, Leaf, Val int
	Kid                  [2]int
	W                    int64
	NoKey                bool
	cells                int
	valT                 types.Type
}

// findRadix recognises the node type of a radix tree by its structure: a 32 or 64-bit key, a small
// number of bits, a boolean, a value and an array of two links to its own type.
func findRadix(t *types.Named) *Radix {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	r := &Radix{T: t, Key: -1, Bits: -1, Leaf: -1, Val: -1}
	off, kids := 0, 0
	self := types.NewPointer(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		n := cellCount(ft)
		if a, ok := ft.Underlying().(*types.Array); ok && a.Len() == 2 && types.Identical(a.Elem(), self) && kids == 0 {
			r.Kid = [2]int{off, off + 1}
			kids = 2
		} else if types.Identical(ft, self) && kids < 2 {
			r.Kid[kids] = off
			kids++
		} else if b, ok := ft.Underlying().(*types.Basic); ok && isWordType(ft) && r.Key < 0 {
			r.Key = off
			r.W = wordWidth(b)
		} else if ok && b.Info()&types.IsInteger != 0 && r.Bits < 0 {
			r.Bits = off
		} else if ok && b.Info()&types.IsBoolean != 0 && r.Leaf < 0 {
			r.Leaf = off
		} else if r.Val < 0 && n == 1 {
			r.Val = off
			r.valT = ft
		} else {
			return nil
		}
		off += n
	}
	r.cells = off
	if r.Key < 0 || r.Bits < 0 || r.Leaf < 0 || r.Val < 0 || kids != 2 {
		return nil
	}
	return r
}

// RadixSub tells where the keys of a subtree may be.
type RadixSub struct {
	loC     Lin // common prefix of all keys with the searched one, at least
	exC     bool
	loB     Lin // number of bits of all nodes, at least
	hasProv bool
	prov    VWord // all keys agree with this word on pB bits and continue with bit pDir
	pB      Lin
	pDir    int
}

func (r *RadixSub) show() string {
	if r == nil {
		return ""
	}
	s := fmt.Sprintf("C>=%s B>=%s", r.loC, r.loB)
	if r.exC {
		s = fmt.Sprintf("C=%s B>=%s", r.loC, r.loB)
	}
	if r.hasProv {
		s += fmt.Sprintf(" below %s/%s.%d", r.prov, r.pB, r.pDir)
	}
	return s
}

func (r *RadixSub) substSym(s Sym, e Lin) *RadixSub {
	return r.rename(func(l Lin) Lin { return l.subst(s, e) }, func(i int) int { return i })
}

func (r *RadixSub) canon(c *canon) {
	if r == nil {
		return
	}
	if r.exC {
		c.b.WriteByte('=')
	}
	c.lin(r.loC)
	c.lin(r.loB)
	if r.hasProv {
		c.word1(r.prov.E)
		c.lin(r.pB)
		fmt.Fprintf(&c.b, ".%d", r.pDir)
	}
}

func (r *RadixSub) rename(l func(Lin) Lin, f func(int) int) *RadixSub {
	if r == nil {
		return nil
	}
	n := *r
	n.loC, n.loB = l(r.loC), l(r.loB)
	if r.hasProv {
		n.pB = l(r.pB)
		n.prov = VWord{r.prov.E.mapLin(l).mapID(f), r.prov.W}
	}
	return &n
}

// RadixSeg is a path along the searched key: all of it and whatever is at the hole starts with the first
// topB bits of the key; what is at the hole has more than holeB bits of it.
type RadixSeg struct {
	topB, holeB Lin
	holeNN      bool
}

func (r *RadixSeg) substSym(s Sym, e Lin) *RadixSeg {
	return r.rename(func(l Lin) Lin { return l.subst(s, e) }, nil)
}

func (r *RadixSeg) canon(c *canon) {
	if r != nil {
		fmt.Fprintf(&c.b, "R%v", r.holeNN)
		c.lin(r.topB)
		c.lin(r.holeB)
	}
}

func (r *RadixSeg) rename(l func(Lin) Lin, f func(int) int) *RadixSeg {
	if r == nil {
		return nil
	}
	return &RadixSeg{l(r.topB), l(r.holeB), r.holeNN}
}

func (r *Radix) Name() string                  { return "radix" }
func (r *Radix) Node(t types.Type) bool        { return types.Identical(t, r.T) }
func (r *Radix) Kids() [2]int                  { return r.Kid }
func (r *Radix) NilSub(st *State) *Sub         { return &Sub{Th: r, Fresh: true} }
func (r *Radix) Keep(st *State, o *Obj) bool   { return false }
func (r *Radix) UnfoldSeg(st *State, id int)   { st.abort("undecided", "reads a summarised path again") }
func (r *Radix) kword(st *State) VWord         { return litWord(st.facts.K, r.W) }
func (r *Radix) q(st *State) Lin               { return st.ghosts["Q"].(VInt).L }
func (st *State) leq(a, b Lin) bool            { return st.zone.upper(a.sub(b)) <= 0 }
func (r *Radix) entryKey(w VWord, b Lin) Value { return VTuple{[]Value{w, VInt{b}}} }

func (r *Radix) newSub(st *State, w []Item, fresh, nn bool, x *RadixSub) Value {
	s := &Sub{ID: st.id(), Th: r, W: w, Fresh: fresh, NonNil: nn, R: x}
	st.subs[s.ID] = s
	if nn && len(w) == 1 && w[0].A != 0 && st.atoms[w[0].A].Seq {
		st.atoms[w[0].A].NE = true
	}
	return VSub{s.ID}
}

func (r *Radix) isEmpty(c *State, id int) bool {
	if c.subs[id].NonNil || !c.emptyWord(c.subs[id].W) {
		return false
	}
	c.replace(VSub{id}, VNil{})
	delete(c.subs, id)
	return true
}

// forkNil decides whether a subtree is empty without a look at its root.
func (r *Radix) forkNil(st *State, id int) {
	st.fork(func(c *State) bool { return r.isEmpty(c, id) }, func(c *State) bool {
		s := c.subs[id]
		if len(s.W) == 0 {
			return false
		}
		s.NonNil = true
		if a := c.atoms[s.W[0].A]; len(s.W) == 1 && a != nil && a.Seq {
			a.NE = true
		}
		return true
	})
}

// restrict limits the classes of a word's entries.
func (st *State) restrict(w []Item, mask uint8) ([]Item, bool) {
	var drop []int
	for _, it := range w {
		if it.A == 0 {
			continue
		}
		a := st.atoms[it.A]
		a.Mask &= mask
		if a.Mask == 0 {
			if !a.Seq || a.NE {
				return nil, false
			}
			drop = append(drop, it.A)
		}
	}
	if len(drop) == 0 {
		return w, true
	}
	gone := map[int]bool{}
	for _, d := range drop {
		gone[d] = true
		st.splitAtom(d)
	}
	var out []Item
	for _, it := range w {
		if !gone[it.A] || it.A == 0 {
			out = append(out, it)
		}
	}
	return out, true
}

// cuts lists the ways to divide a word in two.
func (st *State) cuts(w []Item) []func(c *State) (a, b []Item) {
	var out []func(c *State) (a, b []Item)
	for i := 0; i <= len(w); i++ {
		i := i
		if i < len(w) && w[i].A != 0 && st.atoms[w[i].A].Seq {
			out = append(out, func(c *State) ([]Item, []Item) {
				o := c.atoms[w[i].A]
				x, y := c.newSeq(o.Mask), c.newSeq(o.Mask)
				c.splitAtom(o.ID, x.ID, y.ID)
				return append(append([]Item{}, w[:i]...), Item{A: x.ID, F: w[i].F}), append([]Item{{A: y.ID, F: w[i].F}}, w[i+1:]...)
			})
			continue
		}
		// a boundary between runs is covered by their splits
		if i > 0 && w[i-1].A != 0 && st.atoms[w[i-1].A].Seq || i < len(w) && w[i].A != 0 && st.atoms[w[i].A].Seq {
			continue
		}
		out = append(out, func(c *State) ([]Item, []Item) { return append([]Item{}, w[:i]...), append([]Item{}, w[i:]...) })
	}
	return out
}

// UnfoldSub opens the root of a subtree.
func (r *Radix) UnfoldSub(st *State, id int) {
	s := st.subs[id]
	v := VSub{id}
	R := s.R
	var alts []func(*State) bool
	if !s.NonNil {
		alts = append(alts, func(c *State) bool { return r.isEmpty(c, id) })
	}
	type place struct {
		below bool // the key starts with the root's prefix
		dir   int
		class uint8
	}
	var places []place
	if r.NoKey {
		places = []place{{false, 0, rOTH}}
	} else {
		places = []place{{false, 0, rOTH}, {false, 0, rDESC}}
		for dir := 0; dir < 2; dir++ {
			for _, cl := range []uint8{rANC, rEQ, rDESC} {
				places = append(places, place{true, dir, cl})
			}
		}
	}
	for _, pl := range places {
		pl := pl
		for shape := 0; shape < 3; shape++ { // with data; without and the first child; without and the second child
			shape := shape
			// the heads of the word
			type head struct {
				item int
			}
			heads := []head{{-1}}
			if shape == 0 {
				heads = nil
				for i, it := range s.W {
					heads = append(heads, head{i})
					if it.A == 0 || !st.atoms[it.A].Seq || st.atoms[it.A].NE {
						break
					}
				}
			}
			for _, h := range heads {
				h := h
				var rest []Item
				if h.item >= 0 {
					rest = s.W[h.item:]
				} else {
					rest = s.W
				}
				n := len(st.cuts(rest))
				if h.item >= 0 && (rest[0].A == 0 || !st.atoms[rest[0].A].Seq) {
					n = len(st.cuts(rest[1:]))
				}
				for ci := 0; ci < n; ci++ {
					ci := ci
					alts = append(alts, func(c *State) bool {
						z := c.zone
						var key VWord
						var bits Lin
						var val Value
						rest := rest
						set := false
						if h.item >= 0 {
							if h.item > 0 && !c.emptyWord(s.W[:h.item]) {
								return false
							}
							it := rest[0]
							var ek Value
							if it.A == 0 {
								ek, val = it.K, it.V
							} else if a := c.atoms[it.A]; !a.Seq {
								a.Mask &= pl.class
								if a.Mask == 0 {
									return false
								}
								ek, val = a.K, a.V
							} else {
								if a.Mask&pl.class == 0 {
									return false
								}
								key, bits, val = litWord(c.id(), r.W), linS(c.newSym()), c.newOpq()
								set = true
								p, y := c.newPair(pl.class, r.entryKey(key, bits), val), c.newSeq(a.Mask)
								c.splitAtom(it.A, p.ID, y.ID)
								rest = append([]Item{{A: p.ID, F: it.F}, {A: y.ID, F: it.F}}, rest[1:]...)
							}
							if ek != nil {
								t := ek.(VTuple)
								key, bits = t.E[0].(VWord), t.E[1].(VInt).L
							}
							rest = rest[1:]
						} else {
							key, bits, val = litWord(c.id(), r.W), linS(c.newSym()), c.newOpq()
							set = true
						}
						var C Lin
						if !r.NoKey {
							lid, ok := key.lit()
							if !ok {
								return true // not opened: the caller reports
							}
							if set {
								C = linS(c.newSym())
								c.facts.C[lid] = C
							} else if C, ok = c.facts.common(lid); !ok {
								return true
							}
							if !z.assumeLE0(C.addC(-r.W)) || !z.assumeLE0(C.neg()) || !z.assumeLE0(R.loC.sub(C)) || R.exC && !z.assumeEQ0(R.loC.sub(C)) {
								return false
							}
						}
						if !z.assumeLE0(bits.addC(-r.W)) || !z.assumeLE0(bits.neg()) || !z.assumeLE0(R.loB.sub(bits)) {
							return false
						}
						k0 := &RadixSub{loB: bits.addC(1), hasProv: true, prov: key, pB: bits}
						k1 := &RadixSub{loB: bits.addC(1), hasProv: true, prov: key, pB: bits, pDir: 1}
						ks := [2]*RadixSub{k0, k1}
						var mask [2]uint8
						switch {
						case r.NoKey:
							mask = [2]uint8{rOTH, rOTH}
						case !pl.below:
							q := r.q(c)
							if !z.assumeLE0(C.sub(bits).addC(1)) {
								return false
							}
							if pl.class == rOTH && !z.assumeLE0(C.sub(q).addC(1)) || pl.class == rDESC && !z.assumeLE0(q.sub(C)) {
								return false
							}
							k0.loC, k0.exC, k1.loC, k1.exC = C, true, C, true
							mask = [2]uint8{pl.class, pl.class}
						default:
							q := r.q(c)
							if !z.assumeLE0(bits.sub(C)) {
								return false
							}
							d := bits.sub(q)
							if pl.class == rANC && !z.assumeLE0(d.addC(1)) || pl.class == rEQ && !z.assumeEQ0(d) || pl.class == rDESC && !z.assumeLE0(d.neg().addC(1)) {
								return false
							}
							if known, ok := c.knownBit(c.facts.K, bits); ok && known != (pl.dir == 1) {
								return false
							} else if !ok {
								c.facts.bits = append(c.facts.bits, bitFact{c.facts.K, bits, pl.dir == 1})
							}
							on, off := ks[pl.dir], ks[1-pl.dir]
							on.loC = bits.addC(1)
							off.loC, off.exC = bits, true
							mask[pl.dir], mask[1-pl.dir] = rDESC, rDESC
							if pl.class == rANC {
								mask[pl.dir], mask[1-pl.dir] = rAll, rOTH
							}
						}
						cs := c.cuts(rest)
						if ci >= len(cs) {
							return false
						}
						w0, w1 := cs[ci](c)
						var ok bool
						if w0, ok = c.restrict(w0, mask[0]); !ok {
							return false
						}
						if w1, ok = c.restrict(w1, mask[1]); !ok {
							return false
						}
						cells := make([]Value, r.cells)
						cells[r.Key], cells[r.Bits], cells[r.Leaf], cells[r.Val] = key, VInt{bits}, VBool{Known: true, Val: shape == 0}, val
						cells[r.Kid[0]] = r.newSub(c, w0, s.Fresh, shape == 1, k0)
						cells[r.Kid[1]] = r.newSub(c, w1, s.Fresh, shape == 2, k1)
						for i, w := range [][]Item{w0, w1} {
							if len(w) == 0 {
								if shape == i+1 {
									return false
								}
								cells[r.Kid[i]] = VNil{}
							}
						}
						o := c.newObj(r.T, cells, s.Fresh)
						c.replace(v, VPtr{o.ID, 0})
						delete(c.subs, id)
						return true
					})
				}
			}
		}
	}
	st.fork(alts...)
}

// radixItem presents a node's key and value as a content item.
func (r *Radix) item(st *State, key VWord, bits Lin, val Value) Item {
	for _, id := range sortedKeys(st.atoms) {
		a := st.atoms[id]
		if a.Seq || !valSame(a.V, val) {
			continue
		}
		t, ok := a.K.(VTuple)
		if !ok || len(t.E) != 2 {
			continue
		}
		w, ok1 := t.E[0].(VWord)
		b, ok2 := t.E[1].(VInt)
		if ok1 && ok2 && st.eqLin(b.L, bits) && st.agree(w, key, bits) {
			return Item{A: id}
		}
	}
	if !r.NoKey && st.eqLin(bits, r.q(st)) && st.agree(key, r.kword(st), bits) {
		key, bits = r.kword(st), r.q(st)
	}
	return Item{K: r.entryKey(key, bits), V: val}
}

func (r *Radix) parts(o *Obj) (key VWord, bits Lin, leaf, ok bool) {
	key, ok1 := o.Cells[r.Key].(VWord)
	b, ok2 := o.Cells[r.Bits].(VInt)
	l, ok3 := o.Cells[r.Leaf].(VBool)
	if !ok1 || !ok2 || !ok3 || !l.Known {
		return VWord{}, Lin{}, false, false
	}
	return key, b.L, l.Val, true
}

// childOK checks where the keys of a child may be.
func (r *Radix) childOK(st *State, key VWord, bits Lin, dir int, c *RadixSub) string {
	if c == nil {
		return ""
	}
	if !st.leq(bits.addC(1), c.loB) {
		return "a child's prefix may be no longer than its parent's"
	}
	if c.hasProv && c.pDir == dir && st.eqLin(c.pB, bits) && st.agree(key, c.prov, bits) {
		return ""
	}
	if !r.NoKey && st.agree(key, r.kword(st), bits) {
		if v, ok := st.knownBit(st.facts.K, bits); ok {
			if v == (dir == 1) && st.leq(bits.addC(1), c.loC) {
				return ""
			}
			if v != (dir == 1) && c.exC && st.eqLin(c.loC, bits) {
				return ""
			}
		}
	}
	return "a child may be on the wrong branch: its keys needn't start with its parent's prefix and the branch's bit"
}

func (r *Radix) where(st *State, key VWord, bits Lin) *RadixSub {
	n := &RadixSub{loB: bits}
	if r.NoKey {
		return n
	}
	if st.agree(key, r.kword(st), bits) {
		n.loC = bits
		return n
	}
	if id, ok := key.lit(); ok {
		if c, ok := st.facts.common(id); ok && st.leq(c.addC(1), bits) {
			n.loC, n.exC = c, true
		}
	}
	return n
}

func (r *Radix) FoldNode(st *State, o *Obj, a, b *Sub, final bool) *Sub {
	key, bits, leaf, ok := r.parts(o)
	if !ok {
		return nil
	}
	bad := ""
	if !st.leq(bits, linC(r.W)) || !st.leq(linC(0), bits) {
		bad = "a node may have a wrong number of bits"
	}
	for i, c := range []*Sub{a, b} {
		if m := r.childOK(st, key, bits, i, c.R); m != "" && bad == "" {
			bad = m
		}
	}
	if !leaf && !a.NonNil && !b.NonNil {
		bad = "a node may have neither data nor children"
	}
	if bad != "" {
		if !final {
			return nil
		}
		st.fail("shape", "%s", bad)
	}
	n := &Sub{Th: r, Fresh: o.Fresh && a.Fresh && b.Fresh, NonNil: true, R: r.where(st, key, bits)}
	if leaf {
		n.W = append(n.W, r.item(st, key, bits, o.Cells[r.Val]))
	}
	n.W = cat(n.W, a.W, b.W)
	return n
}

func (r *Radix) FoldPath(st *State, o *Obj, h int, side *Sub) *Seg {
	if r.NoKey {
		return nil
	}
	key, bits, leaf, ok := r.parts(o)
	if !ok || !st.agree(key, r.kword(st), bits) || r.childOK(st, key, bits, 1-h, side.R) != "" {
		return nil
	}
	if v, ok := st.knownBit(st.facts.K, bits); !ok || v != (h == 1) {
		return nil
	}
	s := &Seg{Th: r, Fresh: o.Fresh, SideFresh: side.Fresh}
	// the length at the top gets its own name so that its distance to the hole can be generalised
	top := linS(st.newSym())
	st.zone.assumeEQ0(top.sub(bits))
	s.X = &RadixSeg{topB: top, holeB: bits, holeNN: !leaf && !side.NonNil}
	if leaf {
		s.L = append(s.L, r.item(st, key, bits, o.Cells[r.Val]))
	}
	if h == 1 {
		s.L = cat(s.L, side.W)
	} else {
		s.R = cat(side.W)
	}
	return s
}

func (r *Radix) Concat(st *State, a, b *Seg) *Seg {
	if !st.leq(a.X.holeB.addC(1), b.X.topB) {
		return nil
	}
	return &Seg{Th: r, Fresh: a.Fresh && b.Fresh, SideFresh: a.SideFresh && b.SideFresh,
		X: &RadixSeg{a.X.topB, b.X.holeB, b.X.holeNN}, L: cat(a.L, b.L), R: cat(b.R, a.R)}
}

func (r *Radix) Plug(st *State, s *Seg, h *Sub, final bool) *Sub {
	bad := ""
	if h.R != nil {
		if !st.leq(s.X.holeB.addC(1), h.R.loB) {
			bad = "a child's prefix may be no longer than its parent's"
		} else if !st.leq(s.X.holeB.addC(1), h.R.loC) {
			bad = "a child may be on the wrong branch: its keys needn't start with its parent's prefix and the branch's bit"
		}
	}
	if s.X.holeNN && !h.NonNil {
		bad = "a node may have neither data nor children"
	}
	if bad != "" {
		if !final {
			return nil
		}
		st.fail("shape", "%s", bad)
	}
	return &Sub{Th: r, W: cat(s.L, h.W, s.R), Fresh: s.Fresh && s.SideFresh && h.Fresh, NonNil: true,
		R: &RadixSub{loC: s.X.topB, loB: s.X.topB}}
}
