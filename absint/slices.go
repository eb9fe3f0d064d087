package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// VPack is an unsigned integer given by its bytes, the most significant one first.
type VPack struct{ B []Value }

var zeroByte = Value(VInt{linC(0)})

func isZeroByte(v Value) bool {
	i, ok := v.(VInt)
	return ok && i.L.isConst() && i.L.k == 0
}

// asPack views a value of an unsigned type of n bytes as its bytes.
func asPack(v Value, n int) (VPack, bool) {
	switch x := v.(type) {
	case VPack:
		return x, len(x.B) == n
	case VInt:
		if x.L.isConst() && x.L.k >= 0 {
			return constPack(uint64(x.L.k), n), true
		}
	case VWord:
		if k, ok := x.isConst(); ok {
			return constPack(k, n), true
		}
	}
	return VPack{}, false
}

func constPack(k uint64, n int) VPack {
	p := VPack{make([]Value, n)}
	for i := n - 1; i >= 0; i-- {
		p.B[i] = VInt{linC(int64(k & 0xff))}
		k >>= 8
	}
	return p
}

func isByte(v Value) bool {
	x, ok := v.(VApp)
	return ok && (x.F == "byte" || x.F == "mb")
}

func intBytes(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 1
	case types.Uint16:
		return 2
	case types.Uint32:
		return 4
	case types.Uint64, types.Uint:
		return 8
	}
	return 0
}

// fold is the plain value of a pack where there is one.
func (p VPack) simple() Value {
	n := len(p.B)
	if n == 1 {
		return p.B[0]
	}
	var k uint64
	for _, b := range p.B {
		i, ok := b.(VInt)
		if !ok || !i.L.isConst() {
			return p
		}
		k = k<<8 | uint64(i.L.k)
	}
	if n == 2 {
		return VInt{linC(int64(k))}
	}
	return wordConst(k, int64(n)*8)
}

func (st *State) packConvert(v Value, from, to types.Type) (Value, bool) {
	p, ok := v.(VPack)
	if !ok {
		if !isByte(v) {
			return nil, false
		}
		p = VPack{[]Value{v}}
	}
	n := intBytes(to)
	if n == 0 {
		return nil, false
	}
	if n <= len(p.B) {
		return VPack{p.B[len(p.B)-n:]}.simple(), true
	}
	out := make([]Value, n)
	for i := range out {
		out[i] = zeroByte
	}
	copy(out[n-len(p.B):], p.B)
	return VPack{out}, true
}

func (st *State) packBinop(op token.Token, a, b Value, rt types.Type) (Value, bool) {
	_, pa := a.(VPack)
	_, pb := b.(VPack)
	if !pa && !pb && !isByte(a) && !isByte(b) {
		return nil, false
	}
	if op == token.EQL || op == token.NEQ {
		x, y := a, b
		if !pa {
			x, y = b, a
		}
		if !pa && !pb {
			if valSame(a, b) {
				return VBool{Known: true, Val: op == token.EQL}, true
			}
			return VBool{ID: st.id(), Val: op != token.EQL}, true
		}
		px, ok1 := asPack(x, len(x.(VPack).B))
		py, ok2 := asPack(y, len(px.B))
		if !ok1 || !ok2 {
			st.abort("undecided", "comparison of %s and %s", st.show(a), st.show(b))
		}
		r := VBool{ID: st.id()}
		if valSame(px, py) {
			r = VBool{Known: true, Val: true}
		} else if st.differ(px) || st.differ(py) {
			r = VBool{Known: true}
		}
		r.Val = r.Val != (op == token.NEQ)
		return r, true
	}
	n := intBytes(rt)
	if n == 0 {
		return nil, false
	}
	wrap := func(v Value) (VPack, bool) {
		if isByte(v) && n == 1 {
			return VPack{[]Value{v}}, true
		}
		return asPack(v, n)
	}
	if op == token.SHL || op == token.SHR {
		x, ok := wrap(a)
		l := st.toInt(b)
		if !ok || !l.isConst() || l.k < 0 || l.k%8 != 0 {
			st.abort("undecided", "shift of %s by %s", st.show(a), l)
		}
		out := make([]Value, n)
		for i := range out {
			j := i + int(l.k/8)
			if op == token.SHR {
				j = i - int(l.k/8)
			}
			out[i] = zeroByte
			if j >= 0 && j < n {
				out[i] = x.B[j]
			}
		}
		return VPack{out}.simple(), true
	}
	x, ok1 := wrap(a)
	y, ok2 := wrap(b)
	if !ok1 || !ok2 {
		st.abort("undecided", "operation %s on %s and %s", op, st.show(a), st.show(b))
	}
	out := make([]Value, n)
	for i := range out {
		p, q := x.B[i], y.B[i]
		if c, ok := p.(VInt); ok && c.L.isConst() {
			p, q = q, p
		}
		k, isC := q.(VInt)
		isC = isC && k.L.isConst()
		switch {
		case isC && k.L.k == 0 && (op == token.OR || op == token.XOR || op == token.ADD):
			out[i] = p
		case isC && k.L.k == 0 && op == token.AND:
			out[i] = zeroByte
		case isC && k.L.k == 255 && op == token.AND:
			out[i] = p
		case isC && k.L.k == 255 && op == token.OR:
			out[i] = q
		case valSame(p, q) && (op == token.OR || op == token.AND):
			out[i] = p
		case isC && op == token.AND_NOT && valSame(q, y.B[i]) && (k.L.k == 0 || k.L.k == 255):
			out[i] = p
			if k.L.k == 255 {
				out[i] = zeroByte
			}
		default:
			st.abort("undecided", "operation %s on %s and %s", op, st.show(a), st.show(b))
		}
	}
	return VPack{out}.simple(), true
}

// differ tells whether a number is known to differ from any it is compared with.
func (st *State) differ(p VPack) bool {
	for _, b := range p.B {
		if x, ok := b.(VApp); ok && x.F == "byte" {
			if n, ok := st.ghosts["differ"]; ok && valSame(n, x.Args[0]) {
				return true
			}
		}
	}
	return false
}

// packBytes is a number of n known bytes of a sequence of bytes starting at from.
func litBytes(q Value, from, n int) []Value {
	out := make([]Value, n)
	for i := range out {
		out[i] = VApp{"byte", []Value{q, VInt{linC(int64(from + i))}}}
	}
	return out
}

// maskByte keeps the first r bits of a byte.
func (st *State) maskByte(b Value, r Lin) Value {
	if isZeroByte(b) || st.zone.upper(r) <= 0 {
		return zeroByte
	}
	if st.zone.lower(r) >= 8 {
		return b
	}
	if x, ok := b.(VApp); ok && x.F == "mb" {
		r0 := x.Args[1].(VInt).L
		if st.zone.lower(r.sub(r0)) >= 0 {
			return b
		}
		if st.zone.upper(r.sub(r0)) <= 0 {
			b = x.Args[0]
		}
	}
	return VApp{"mb", []Value{b, VInt{r}}}
}

func (st *State) sameByte(a, b Value) bool {
	if valSame(a, b) {
		return true
	}
	x, ok1 := a.(VApp)
	y, ok2 := b.(VApp)
	return ok1 && ok2 && x.F == "mb" && y.F == "mb" && valSame(x.Args[0], y.Args[0]) && st.eqLin(x.Args[1].(VInt).L, y.Args[1].(VInt).L)
}

// agreeBytes tells whether a number starts with the first q bits of the wanted bytes.
func (st *State) agreeBytes(v Value, want []Value, q Lin) bool {
	p, ok := asPack(v, len(want))
	if !ok {
		return false
	}
	for i, w := range want {
		r := q.addC(int64(-8 * i))
		if st.zone.upper(r) <= 0 {
			break
		}
		b := p.B[i]
		if st.sameByte(b, w) {
			continue
		}
		x, ok := b.(VApp)
		if !ok || x.F != "mb" || !valSame(x.Args[0], w) || st.zone.lower(x.Args[1].(VInt).L.sub(r)) < 0 {
			if st.zone.lower(r) <= 0 {
				// the byte may not matter
				if !st.decideLE0(r) {
					return false
				}
				continue
			}
			return false
		}
	}
	return true
}

// newBytes makes a slice of the given cells.
func (st *State) newBytes(et types.Type, cells []Value, fresh bool) VSlice {
	o := st.newObj(types.NewArray(et, int64(len(cells))), append([]Value(nil), cells...), fresh)
	n := linC(int64(len(cells)))
	return VSlice{O: o.ID, Off: linC(0), Len: n, Cap: n}
}

// sliceCells are the elements of a slice of constant length.
func (st *State) sliceCells(v Value) ([]Value, bool) {
	switch x := v.(type) {
	case VNil:
		return nil, true
	case VSlice:
		if !x.Off.isConst() || !x.Len.isConst() {
			return nil, false
		}
		o := st.objs[x.O]
		a, b := x.P+int(x.Off.k), x.P+int(x.Off.k+x.Len.k)
		if o == nil || b > len(o.Cells) {
			return nil, false
		}
		return o.Cells[a:b], true
	}
	return nil, false
}

func (st *State) storeCell(oid, cell int, v Value) {
	o := st.objs[oid]
	if !o.Fresh && !st.eng.ob.mayWrite(st, o, cell) {
		st.eng.report(st, "write", fmt.Sprintf("writes to memory it doesn't own (%s)", st.eng.cellName(o, cell)))
		panic(stopPanic{})
	}
	o.Cells[cell] = v
}

func (st *State) sliceElem(s VSlice, l Lin, t types.Type) Value {
	if st.isBig(s) {
		return VElem{O: s.O, P: s.P, I: s.Off.add(l)}
	}
	if !s.Off.isConst() {
		st.abort("undecided", "element of a slice with an unknown start")
	}
	if !l.isConst() && s.Len.isConst() {
		l = linC(st.smallIndex(VInt{l}, s.Len.k))
	}
	if !l.isConst() {
		st.abort("undecided", "element %s of a slice", l)
	}
	i := s.P + int(s.Off.k+l.k)*cellCount(t)
	if i+cellCount(t) > len(st.objs[s.O].Cells) {
		st.abort("undecided", "element %s of a slice", l)
	}
	return VPtr{s.O, i}
}

func (st *State) opqLen(v Value) (Lin, bool) {
	if l, ok := dnLen(st, v); ok {
		return l, true
	}
	if x, ok := v.(VApp); ok && x.F == "nn:cidr" && len(x.Args) == 2 {
		if l := x.Args[1].(VInt).L; l.isConst() {
			return linC(l.k / 8), true
		}
	}
	return Lin{}, false
}

func (st *State) makeSlice(t types.Type, l, c Lin) Value {
	et := t.Underlying().(*types.Slice).Elem()
	if at := types.NewArray(et, c.k); st.eng.ob.text && l.isConst() && c.isConst() && 0 <= l.k && l.k <= c.k && isBigArray(at) {
		o := st.newObj(at, []Value{zeroBig(at)}, true)
		return VSlice{O: o.ID, Off: linC(0), Len: l, Cap: c}
	}
	if !l.isConst() || !c.isConst() || cellCount(et) != 1 || l.k < 0 || c.k < l.k || c.k > 64 {
		st.abort("undecided", "make of a slice of length %s", l)
	}
	cells := make([]Value, c.k)
	for i := range cells {
		cells[i] = zeroValue(et)
	}
	s := st.newBytes(et, cells, true)
	s.Len = l
	return s
}

func (st *State) slice(f *Frame, x *ssa.Slice) Value {
	bound := func(v ssa.Value, def Lin) Lin {
		if v == nil {
			return def
		}
		return st.toInt(st.get(f, v))
	}
	v := st.get(f, x.X)
	if _, ok := v.(VApp); ok || isString(x.X.Type()) {
		var lo, hi *Lin
		if x.Low != nil {
			l := bound(x.Low, Lin{})
			lo = &l
		}
		if x.High != nil {
			l := bound(x.High, Lin{})
			hi = &l
		}
		return st.sliceString(v, lo, hi)
	}
	var s VSlice
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at, ok := u.Elem().Underlying().(*types.Array)
		if !ok {
			break
		}
		if _, isG := v.(VGlob); isG || cellCount(at.Elem()) != 1 {
			if p, ok := v.(VPtr); ok && !bigLen(at) {
				// a slice of aggregates is only passed on
				s = VSlice{O: p.O, P: p.P, Off: linC(0), Len: linC(at.Len()), Cap: linC(at.Len())}
				if x.Low == nil && x.High == nil {
					return s
				}
			}
			st.abort("undecided", "slice of %s", st.show(v))
		}
		p := st.ptr(v, "array")
		s = VSlice{O: p.O, P: p.P, Off: linC(0), Len: linC(at.Len()), Cap: linC(at.Len())}
	case *types.Slice:
		switch y := v.(type) {
		case VSlice:
			s = y
		case VNil:
			lo, hi := bound(x.Low, linC(0)), bound(x.High, linC(0))
			if lo.isConst() && hi.isConst() && lo.k == 0 && hi.k == 0 {
				return v
			}
			st.abort("panic", "slice bounds out of range of a nil slice")
		default:
			st.abort("undecided", "slice of %s", st.show(v))
		}
	default:
		st.abort("undecided", "slice of %s", st.show(v))
	}
	lo, hi, max := bound(x.Low, linC(0)), bound(x.High, s.Len), bound(x.Max, s.Cap)
	if !st.decideLE0(lo.neg()) || !st.decideLE0(lo.sub(hi)) || !st.decideLE0(hi.sub(max)) || !st.decideLE0(max.sub(s.Cap)) {
		st.abort("panic", "slice bounds out of range")
	}
	return VSlice{O: s.O, P: s.P, Off: s.Off.add(lo), Len: hi.sub(lo), Cap: max.sub(lo)}
}

func (st *State) appendTo(args []Value, c *ssa.CallCommon) Value {
	if len(args) < 2 {
		return args[0]
	}
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if s, ok := args[0].(VSlice); ok && st.eng.ob.text && st.isBig(s) {
		if x, ok := args[1].(VSlice); ok && st.isBig(x) {
			n := s.Len.add(x.Len)
			if !st.decideLE0(n.sub(s.Cap)) {
				st.abort("undecided", "append to a text beyond the room made for it")
			}
			to := s
			to.Off, to.Len = s.Off.add(s.Len), s.Cap.sub(s.Len)
			if _, ok := st.copyBig(to, x); ok {
				s.Len = n
				return s
			}
		}
	}
	add, ok := st.sliceCells(args[1])
	if !ok || cellCount(et) != 1 {
		st.abort("undecided", "append of %s", st.show(args[1]))
	}
	add = append([]Value(nil), add...)
	if s, ok := args[0].(VSlice); ok && st.eng.ob.text && st.isBig(s) {
		n := s.Len.addC(int64(len(add)))
		if !st.decideLE0(n.sub(s.Cap)) {
			st.abort("undecided", "append to a text beyond the room made for it")
		}
		for i, v := range add {
			st.storeElem(VElem{O: s.O, P: s.P, I: s.Off.add(s.Len).addC(int64(i))}, v)
		}
		s.Len = n
		return s
	}
	old, ok := st.sliceCells(args[0])
	if !ok {
		st.abort("undecided", "append to %s", st.show(args[0]))
	}
	n := int64(len(old) + len(add))
	if s, ok := args[0].(VSlice); ok {
		if len(add) == 0 {
			return s
		}
		if st.decideLE0(linC(n).sub(s.Cap)) {
			o := st.objs[s.O]
			for i, v := range add {
				at := s.P + int(s.Off.k) + len(old) + i
				for at >= len(o.Cells) {
					o.Cells = append(o.Cells, zeroValue(et))
					o.T = types.NewArray(et, int64(len(o.Cells)))
				}
				st.storeCell(s.O, at, v)
			}
			s.Len = linC(n)
			return s
		}
	} else if n == 0 {
		return args[0]
	}
	s := st.newBytes(et, append(append([]Value(nil), old...), add...), true)
	cp := st.newSym() // the allocator may give more
	st.zone.assumeLE0(linC(n).sub(linS(cp)))
	s.Cap = linS(cp)
	return s
}

func (st *State) copyTo(args []Value, c *ssa.CallCommon) Value {
	if v, ok := st.copyBig(args[0], args[1]); ok {
		return v
	}
	dst, ok1 := st.sliceCells(args[0])
	src, ok2 := st.sliceCells(args[1])
	if !ok1 || !ok2 || isString(c.Args[1].Type()) || cellCount(c.Args[0].Type().Underlying().(*types.Slice).Elem()) != 1 {
		st.abort("undecided", "copy of %s to %s", st.show(args[1]), st.show(args[0]))
	}
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	src = append([]Value(nil), src[:n]...)
	if s, ok := args[0].(VSlice); ok {
		for i, v := range src {
			st.storeCell(s.O, s.P+int(s.Off.k)+i, v)
		}
	}
	return VInt{linC(int64(n))}
}

// isBig tells whether a slice is of an array which isn't kept cell by cell.
func (st *State) isBig(s VSlice) bool {
	o := st.objs[s.O]
	if o == nil || s.P >= len(o.Cells) {
		return false
	}
	x, ok := o.Cells[s.P].(VApp)
	return ok && (x.F == "arr" || x.F == "names" || x.F == "starts")
}
