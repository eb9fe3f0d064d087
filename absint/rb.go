package main

import (
	"go/types"
)

// order classes relative to the search key
const (
	cLT  = uint8(1)
	cEQ  = uint8(2)
	cGT  = uint8(4)
	cAll = uint8(7)
)

const (
	colAny   = uint8(0)
	colRed   = uint8(1)
	colBlack = uint8(2) // black or nil
)

// RB is the theory of red-black binary search trees.
type RB struct {
	T         *types.Named
	Key, Val  int
	Kid       [2]int
	Red       int
	BlackFlag bool
	cells     int
}

// findRB recognises the node type of an ordered tree by its structure: a string key, two links
// to its own type, one boolean and one further field.
func findRB(t *types.Named) *RB {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	r := &RB{T: t, Key: -1, Val: -1, Red: -1}
	kids := 0
	off := 0
	self := types.NewPointer(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		n := cellCount(ft)
		switch u := ft.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0 && r.Key < 0:
				r.Key = off
			case u.Info()&types.IsBoolean != 0 && r.Red < 0:
				r.Red = off
				r.BlackFlag = s.Field(i).Name() == "black"
			case r.Val < 0:
				r.Val = off
			default:
				return nil
			}
		case *types.Pointer:
			if types.Identical(ft, self) {
				if kids > 1 {
					return nil
				}
				r.Kid[kids] = off
				kids++
			} else if r.Val < 0 {
				r.Val = off
			} else {
				return nil
			}
		case *types.Array:
			if u.Len() == 2 && types.Identical(u.Elem(), self) && kids == 0 {
				r.Kid = [2]int{off, off + 1}
				kids = 2
			} else {
				return nil
			}
		case *types.Interface:
			if r.Val >= 0 {
				return nil
			}
			r.Val = off
		default:
			return nil
		}
		off += n
	}
	r.cells = off
	if r.Key < 0 || r.Val < 0 || r.Red < 0 || kids != 2 {
		return nil
	}
	return r
}

func (r *RB) Name() string           { return "rb" }
func (r *RB) Node(t types.Type) bool { return types.Identical(t, r.T) }
func (r *RB) Kids() [2]int           { return r.Kid }
func (r *RB) NilSub(st *State) *Sub  { return &Sub{Th: r, Fresh: true, Color: colBlack, BH: linC(0)} }
func (r *RB) flag(red bool) Value    { return VBool{Known: true, Val: red != r.BlackFlag} }

// newSub makes a summarised subtree with the given content.
func (r *RB) newSub(st *State, w []Item, fresh bool, color uint8, bh Lin, top bool) Value {
	s := &Sub{ID: st.id(), Th: r, W: w, Fresh: fresh, Color: color, BH: bh, BHTop: top}
	st.subs[s.ID] = s
	return VSub{s.ID}
}

// emptyWord drops the runs of a word; single entries make it infeasible.
func (st *State) emptyWord(w []Item) bool {
	var del []int
	for _, it := range w {
		if it.A == 0 {
			return false
		}
		a := st.atoms[it.A]
		if a == nil {
			continue
		}
		if !a.Seq || a.NE {
			return false
		}
		del = append(del, it.A)
	}
	for _, a := range del {
		if st.atoms[a] != nil {
			st.splitAtom(a)
		}
	}
	return true
}

// splitWord picks one entry of a word: calls f with the part before, the entry and the part after.
// There is one alternative per item.
func (st *State) splitAlts(w []Item, mk func(c *State) (k, v Value), f func(c *State, before []Item, it Item, k, v Value, after []Item) bool) []func(*State) bool {
	var alts []func(*State) bool
	for i, it := range w {
		i, it := i, it
		alts = append(alts, func(c *State) bool {
			if it.A == 0 {
				return f(c, w[:i], it, it.K, it.V, w[i+1:])
			}
			a := c.atoms[it.A]
			if !a.Seq {
				return f(c, w[:i], it, a.K, a.V, w[i+1:])
			}
			k, v := mk(c)
			x, p, y := c.newSeq(a.Mask), c.newPair(a.Mask, k, v), c.newSeq(a.Mask)
			c.splitAtom(it.A, x.ID, p.ID, y.ID)
			before := append(append([]Item{}, w[:i]...), Item{A: x.ID, F: it.F})
			after := append([]Item{{A: y.ID, F: it.F}}, w[i+1:]...)
			return f(c, before, Item{A: p.ID, F: it.F}, k, v, after)
		})
	}
	return alts
}

func (r *RB) mkEntry(c *State) (Value, Value) { return c.newOpq(), c.newOpq() }

func (r *RB) node(st *State, fresh bool, k, v, l, rr Value, red bool) *Obj {
	cells := make([]Value, r.cells)
	cells[r.Key], cells[r.Val], cells[r.Kid[0]], cells[r.Kid[1]] = k, v, l, rr
	cells[r.Red] = r.flag(red)
	return st.newObj(r.T, cells, fresh)
}

func (r *RB) UnfoldSub(st *State, id int) {
	s := st.subs[id]
	v := VSub{id}
	var alts []func(*State) bool
	if !s.NonNil && s.Color != colRed {
		alts = append(alts, func(c *State) bool {
			if !s.BHTop && !c.zone.assumeEQ0(s.BH) {
				return false
			}
			if !c.emptyWord(s.W) {
				return false
			}
			c.replace(v, VNil{})
			delete(c.subs, id)
			return true
		})
	}
	node := func(red bool) {
		alts = append(alts, st.splitAlts(s.W, r.mkEntry, func(c *State, before []Item, it Item, k, val Value, after []Item) bool {
			bh, col := s.BH, colBlack
			if !red {
				bh = bh.addC(-1)
				if !s.KB {
					col = colAny
				}
			}
			if !s.BHTop && !c.zone.assumeLE0(bh.neg()) {
				return false
			}
			o := r.node(c, s.Fresh, k, val, r.newSub(c, before, s.Fresh, col, bh, s.BHTop), r.newSub(c, after, s.Fresh, col, bh, s.BHTop), red)
			c.replace(v, VPtr{o.ID, 0})
			delete(c.subs, id)
			return true
		})...)
	}
	if s.Color != colBlack {
		node(true)
	}
	if s.Color != colRed {
		node(false)
	}
	st.fork(alts...)
}

func (st *State) eqLin(a, b Lin) bool {
	d := a.sub(b)
	return st.zone.upper(d) <= 0 && st.zone.lower(d) >= 0
}

func (r *RB) color(o *Obj) (uint8, bool) {
	b, ok := o.Cells[r.Red].(VBool)
	if !ok || !b.Known {
		return 0, false
	}
	if b.Val != r.BlackFlag {
		return colRed, true
	}
	return colBlack, true
}

// entryItem presents a node's key and value as a content item.
func (st *State) entryItem(k, v Value) Item {
	for _, id := range sortedKeys(st.atoms) {
		a := st.atoms[id]
		if !a.Seq && valSame(a.K, k) && valSame(a.V, v) {
			return Item{A: id}
		}
	}
	return Item{K: k, V: v}
}

func cat(ws ...[]Item) []Item {
	var out []Item
	for _, w := range ws {
		out = append(out, w...)
	}
	return out
}

// straddles tells whether the searched key may be within a word.
func (st *State) straddles(w []Item) bool {
	for _, it := range w {
		if it.A != 0 && st.atoms[it.A].Mask&cEQ != 0 {
			return true
		}
	}
	return false
}

// Keep tells that a child of a node in use has to stay as it is: below a red node the search may come
// to a node which has no red children, and a summary doesn't tell which of the two it is.
func (r *RB) Keep(st *State, o *Obj) bool {
	if col, ok := r.color(o); !ok || col != colRed {
		return false
	}
	for _, k := range r.Kids() {
		if x, ok := o.Cells[k].(VSub); ok && st.subs[x.ID].KB {
			if st.straddles(st.subs[x.ID].W) {
				return true
			}
		}
	}
	return false
}

func (r *RB) FoldNode(st *State, o *Obj, a, b *Sub, final bool) *Sub {
	col, ok := r.color(o)
	if !ok {
		return nil
	}
	bad := ""
	top := a.BHTop || b.BHTop
	if !top && !st.eqLin(a.BH, b.BH) {
		bad = "two subtrees of a node may have different black heights"
	}
	if col == colRed && (a.Color != colBlack || b.Color != colBlack) {
		bad = "a red node may have a red child"
	}
	if bad != "" {
		if !final {
			return nil
		}
		if !top {
			st.eng.report(st, "balance", bad)
		}
		top = true
	}
	n := &Sub{Th: r, W: cat(a.W, []Item{st.entryItem(o.Cells[r.Key], o.Cells[r.Val])}, b.W),
		Fresh: o.Fresh && a.Fresh && b.Fresh, NonNil: true, Color: col, BH: a.BH, BHTop: top}
	if col == colBlack {
		n.BH = n.BH.addC(1)
		n.KB = a.Color == colBlack && b.Color == colBlack && st.straddles(n.W)
	}
	return n
}

func (r *RB) FoldPath(st *State, o *Obj, h int, side *Sub) *Seg {
	col, ok := r.color(o)
	if !ok || side.BHTop {
		return nil
	}
	if col == colRed && side.Color != colBlack {
		return nil
	}
	s := &Seg{Th: r, Fresh: o.Fresh, Color: col, HoleBH: side.BH, TopBH: side.BH, HoleBlack: col == colRed}
	if col == colBlack {
		s.TopBH = s.TopBH.addC(1)
	}
	// the height at the top gets its own name so that its distance to the hole can be generalised
	top := linS(st.newSym())
	st.zone.assumeEQ0(top.sub(s.TopBH))
	s.TopBH = top
	it := []Item{st.entryItem(o.Cells[r.Key], o.Cells[r.Val])}
	if h == 1 {
		s.L = cat(side.W, it)
	} else {
		s.R = cat(it, side.W)
	}
	return s
}

func (r *RB) Concat(st *State, a, b *Seg) *Seg {
	if !st.eqLin(a.HoleBH, b.TopBH) || a.HoleBlack && b.Color != colBlack {
		return nil
	}
	return &Seg{Th: r, Fresh: a.Fresh && b.Fresh, SideFresh: a.SideFresh && b.SideFresh, Color: a.Color, TopBH: a.TopBH, HoleBH: b.HoleBH,
		HoleBlack: b.HoleBlack, L: cat(a.L, b.L), R: cat(b.R, a.R)}
}

func (r *RB) Plug(st *State, s *Seg, h *Sub, final bool) *Sub {
	bad := ""
	if !h.BHTop && !st.eqLin(s.HoleBH, h.BH) {
		bad = "two subtrees of a node may have different black heights"
	}
	if s.HoleBlack && h.Color != colBlack {
		bad = "a red node may have a red child"
	}
	if bad != "" {
		if !final {
			return nil
		}
		st.eng.report(st, "balance", bad)
	}
	return &Sub{Th: r, W: cat(s.L, h.W, s.R), Fresh: s.Fresh && s.SideFresh && h.Fresh, NonNil: true, Color: s.Color, BH: s.TopBH, BHTop: bad != "" || h.BHTop}
}

func (r *RB) UnfoldSeg(st *State, id int) {
	s := st.segs[id]
	v := VSeg{id}
	var alts []func(*State) bool
	for dir := 0; dir < 2; dir++ {
		dir := dir
		w := s.L
		if dir == 0 {
			w = s.R
		}
		for _, direct := range []bool{true, false} {
			direct := direct
			alts = append(alts, st.splitAlts(w, r.mkEntry, func(c *State, before []Item, it Item, k, val Value, after []Item) bool {
				red := s.Color == colRed
				bh, col := s.TopBH, colBlack
				if !red {
					bh, col = bh.addC(-1), colAny
				}
				if !c.zone.assumeLE0(bh.neg()) {
					return false
				}
				var side Value
				var rest, restO []Item
				if dir == 1 { // the path goes right: the node and its left subtree precede
					side = r.newSub(c, before, s.SideFresh, col, bh, s.BHTop)
					rest, restO = after, c.segs[id].R
				} else {
					side = r.newSub(c, after, s.SideFresh, col, bh, s.BHTop)
					rest, restO = before, c.segs[id].L
				}
				hole := c.segs[id].Hole
				var next Value
				if direct {
					if !c.emptyWord(rest) || !c.emptyWord(restO) {
						return false
					}
					if s.HoleBlack != red || !c.zone.assumeEQ0(bh.sub(s.HoleBH)) {
						return false
					}
					next = hole
				} else {
					n := *s
					n.ID = c.id()
					n.Hole = hole
					n.TopBH = bh
					if red {
						n.Color = colBlack
					} else {
						n.Color = colAny
					}
					if dir == 1 {
						n.L, n.R = rest, restO
					} else {
						n.R, n.L = rest, restO
					}
					c.segs[n.ID] = &n
					next = VSeg{n.ID}
				}
				l, rr := side, next
				if dir == 0 {
					l, rr = next, side
				}
				o := r.node(c, s.Fresh, k, val, l, rr, red)
				c.replace(v, VPtr{o.ID, 0})
				delete(c.segs, id)
				return true
			})...)
		}
	}
	if s.Color == colAny {
		var both []func(*State) bool
		for _, col := range []uint8{colRed, colBlack} {
			col := col
			both = append(both, func(c *State) bool { c.segs[id].Color = col; return true })
		}
		st.fork(both...)
	}
	st.fork(alts...)
}
