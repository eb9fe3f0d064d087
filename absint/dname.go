package main

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The domain package: what its exported functions make of a text. The text stays symbolic; a reader ghost
// steps a reference automaton over the bytes the code reads, and the bytes, offsets or labels the automaton
// yields have to arrive in the arrays the code builds. Positions are linear expressions, the automaton's
// state is definite.

const (
	rRegular = iota
	rFirst
	rSecond
	rThird
	rEnded   // after the ending dot
	rRefused // an unescaped dot before the end
	rBad
	rRoot
)

type dnOb struct {
	*Obligation
	p     *Program
	term  map[string]map[string]bool
	quick map[[32]byte]bool
}

// ---- ghosts

func (st *State) gLin(k string) Lin {
	v, ok := st.ghosts[k].(VInt)
	if !ok {
		st.abort("undecided", "no %s", k)
	}
	return v.L
}

func (st *State) setLin(k string, l Lin) { st.ghosts[k] = VInt{l} }

func (st *State) gStr(k string) string {
	v, _ := st.ghosts[k].(VStr)
	return v.S
}

func (st *State) setStr(k, s string) { st.ghosts[k] = VStr{s} }

func (st *State) gAuto() (r, code int) {
	fmt.Sscanf(st.gStr("R"), "%d/%d", &r, &code)
	return
}

func (st *State) setAuto(r, code int) { st.setStr("R", fmt.Sprintf("%d/%d", r, code)) }

func (st *State) gList(k string) []Value {
	v, _ := st.ghosts[k].(VTuple)
	return v.E
}

func (st *State) setList(k string, vs []Value) {
	if len(vs) == 0 {
		delete(st.ghosts, k)
		return
	}
	st.ghosts[k] = VTuple{vs}
}

func (st *State) pushList(k string, v Value) {
	l := st.gList(k)
	st.setList(k, append(l[:len(l):len(l)], v))
}

// is0 tells whether e is known to be 0.
func (st *State) is0(e Lin) bool { return st.zone.upper(e) <= 0 && st.zone.lower(e) >= 0 }

// le0 tells whether e is known to be at most 0.
func (st *State) le0(e Lin) bool { return st.zone.upper(e) <= 0 }

func isApp(v Value, f string) (VApp, bool) {
	x, ok := v.(VApp)
	return x, ok && x.F == f
}

func span(v Value, f string) (lo, hi Lin, ok bool) {
	x, ok := isApp(v, f)
	if !ok || len(x.Args) < 2 {
		return
	}
	a, ok1 := x.Args[0].(VInt)
	b, ok2 := x.Args[1].(VInt)
	return a.L, b.L, ok1 && ok2
}

// A span has its length as well, so that it can have a name of its own.
func mkSpan(f string, lo, hi, n Lin) Value {
	if f == "pack" {
		// offsets into a packed name only, sizes are differences of these
		return VApp{f, []Value{VInt{lo}, VInt{hi}}}
	}
	return VApp{f, []Value{VInt{lo}, VInt{hi}, VInt{n}}}
}

func spanLen(v Value) Lin {
	a := v.(VApp).Args
	if len(a) == 2 {
		return a[1].(VInt).L.sub(a[0].(VInt).L)
	}
	return a[2].(VInt).L
}

func (st *State) anyByte() Value {
	s := linS(st.newSym())
	st.zone.assumeLE0(s.neg())
	st.zone.assumeLE0(s.addC(-255))
	return VInt{s}
}

func foldByte(b int) int {
	if b >= 'a' && b <= 'z' {
		return b - 32
	}
	return b
}

func byteVal(b int) Value { return VStr{strconv.Itoa(b)} }

func byteOf(v Value) (int, bool) {
	s, ok := v.(VStr)
	if !ok {
		return 0, false
	}
	n, err := strconv.Atoi(s.S)
	return n, err == nil
}

// isByteVal tells whether a value of the code is an expected one.
func (st *State) isByteVal(v, want Value) (known, same bool) {
	x, ok := v.(VInt)
	if !ok {
		return false, false
	}
	var d Lin
	if b, ok := byteOf(want); ok {
		d = x.L.addC(-int64(b))
	} else if y, ok := want.(VInt); ok {
		d = x.L.sub(y.L)
	} else {
		return false, false
	}
	if st.is0(d) {
		return true, true
	}
	return st.zone.lower(d) > 0 || st.zone.upper(d) < 0, false
}

// ---- the reference automata

// alphabet forks over the bytes which can be at the position, by f.
func (st *State) alphabet(known Value, f func(c *State, b int) bool) {
	var alts []func(c *State) bool
	for b := 0; b < 256; b++ {
		b := b
		if known != nil {
			if l := known.(VInt).L; st.zone.lower(l) > int64(b) || st.zone.upper(l) < int64(b) {
				continue
			}
		}
		alts = append(alts, func(c *State) bool {
			if known != nil {
				l := known.(VInt).L
				if !c.zone.assumeEQ0(l.addC(-int64(b))) {
					return false
				}
				c.substLin(l, int64(b))
			}
			return f(c, b)
		})
	}
	st.fork(alts...)
}

// consume steps the automaton over the byte at its position, for which the code has an expression.
func (st *State) consume(q Lin) {
	mode := st.gStr("mode")
	g := st.gLin("g")
	var known Value
	win := st.gList("win")
	for _, w := range win {
		e := w.(VTuple).E
		if st.is0(e[0].(VInt).L.sub(g)) || st.is0(e[0].(VInt).L.sub(q)) {
			if b, ok := byteOf(e[1]); ok {
				known = VInt{linC(int64(b))}
			} else {
				known = e[1]
			}
		}
	}
	record := func(c *State, b int) {
		c.setLin("g", g.addC(1))
		if known == nil {
			c.pushList("win", VTuple{[]Value{VInt{q}, byteVal(b)}})
		}
	}
	switch mode {
	case "raw":
		st.alphabet(known, func(c *State, b int) bool {
			record(c, b)
			c.pushList("queue", byteVal(foldByte(b)))
			return true
		})
	case "label":
		r, code := st.gAuto()
		last := r == rRegular && st.decideEQ0(g.addC(1).sub(st.gLin("L")))
		st.alphabet(known, func(c *State, b int) bool {
			record(c, b)
			if r == rRegular && b == '.' {
				if last {
					c.setAuto(rEnded, 0)
				} else {
					c.setAuto(rRefused, 0)
				}
				return true
			}
			nr, nc, out := autoStep(r, code, b)
			c.setAuto(nr, nc)
			if out >= 0 {
				c.setLin("e", c.gLin("e").addC(1))
				c.pushList("pend", byteVal(out))
			}
			return true
		})
	case "name":
		r, code := st.gAuto()
		cs := st.gLin("cs")
		empty := r == rRegular && st.decideEQ0(g.sub(cs))
		one := empty && st.decideEQ0(st.gLin("L").addC(-1))
		st.alphabet(known, func(c *State, b int) bool {
			record(c, b)
			if r == rRegular && b == '.' {
				switch {
				case one:
					c.setAuto(rRoot, 0)
				case empty:
					c.setAuto(rBad, 0)
				default:
					c.labelEnds()
				}
				return true
			}
			nr, nc, _ := autoStep(r, code, b)
			c.setAuto(nr, nc)
			return true
		})
	case "seg":
		r, code := st.gAuto()
		d, n, end := st.gLin("d"), st.gLin("n"), st.gLin("end")
		final := st.decideEQ0(d.addC(1).sub(n))
		last := st.gStr("last") == "yes"
		st.alphabet(known, func(c *State, b int) bool {
			record(c, b)
			if final && !c.zone.assumeEQ0(g.addC(1).sub(end)) || !final && !c.zone.assumeLE0(g.addC(2).sub(end)) {
				return false
			}
			c.setLin("d", d.addC(1))
			if r == rRegular && b == '.' {
				c.setAuto(rEnded, 0)
				return final && c.zone.assumeLE0(linC(1).sub(c.gLin("e")))
			}
			nr, nc, out := autoStep(r, code, b)
			if nr == rBad || nc > 255 || final && (nr != rRegular || !last) {
				return false // the first pass has refused it
			}
			// nor are escapes cut short
			if k := escNeeds[nr]; k > 0 && !(c.zone.assumeLE0(d.addC(1+k).sub(n)) && c.zone.assumeLE0(g.addC(1+k).sub(end))) {
				return false
			}
			c.setAuto(nr, nc)
			if out >= 0 {
				c.setLin("e", c.gLin("e").addC(1))
				c.pushList("pend", byteVal(out))
			}
			return true
		})
	}
	st.abort("undecided", "reads the text out of turn")
}

// autoStep is a step of the escape automaton (dots aside): the next state and the byte it yields or -1.
func autoStep(r, code, b int) (int, int, int) {
	digit := b >= '0' && b <= '9'
	d := b - '0'
	switch r {
	case rRegular:
		if b == '\\' {
			return rFirst, 0, -1
		}
		return rRegular, 0, foldByte(b)
	case rFirst:
		if !digit {
			return rRegular, 0, foldByte(b)
		}
		return rSecond, d * 100, -1
	case rSecond:
		if !digit {
			return rBad, 0, -1
		}
		return rThird, code + d*10, -1
	case rThird:
		if !digit || code+d > 255 {
			return rBad, 0, -1
		}
		return rRegular, code + d, foldByte(code + d)
	}
	return r, 0, -1
}

// labelEnds notes that the label which starts at cs has ended just before g.
func (c *State) labelEnds() {
	k := c.gLin("K").addC(1)
	c.setLin("K", k)
	c.pushList("pend", VInt{c.gLin("cs")})
	c.setLin("cs", c.gLin("g"))
}

// firstPassDone tells whether all the text has been marked and was found well formed.
func (st *State) firstPassDone() bool {
	if st.gStr("mode") != "name" {
		return st.gStr("mode") == "seg" || st.gStr("mode") == "idle"
	}
	if r, _ := st.gAuto(); r != rRegular || !st.is0(st.gLin("g").sub(st.gLin("L"))) {
		return false
	}
	if st.gStr("fin") == "" {
		cs, l := st.gLin("cs"), st.gLin("L")
		if !st.decideLE0(l.sub(cs)) {
			st.labelEnds()
		}
		st.setStr("fin", "yes")
		st.setList("starts", []Value{VTuple{[]Value{st.ghosts["K"], st.ghosts["L"]}}})
		st.ghosts["next"] = st.ghosts["K"]
		st.setLin("P", linC(0))
	}
	return true
}

// start is the position at which label p starts (the text's end when there are p labels).
func (st *State) start(p Lin) (Lin, bool) {
	var after []Value
	for _, v := range st.gList("starts") {
		e := v.(VTuple).E
		d := e[0].(VInt).L.sub(p)
		if st.is0(d) {
			return e[1].(VInt).L, true
		}
		after = append(after, v)
	}
	k := st.gLin("K")
	if !st.le0(p.neg()) || !st.le0(p.addC(1).sub(k)) {
		return Lin{}, false
	}
	x := linS(st.newSym())
	ok := st.zone.assumeLE0(x.neg())
	for _, v := range after {
		e := v.(VTuple).E
		d, y := e[0].(VInt).L.sub(p), e[1].(VInt).L
		if st.le0(linC(1).sub(d)) { // the other is later
			gap := int64(1)
			if st.le0(e[0].(VInt).L.addC(1).sub(k)) {
				gap = 2 // a label and its dot
			}
			ok = ok && st.zone.assumeLE0(x.addC(gap).sub(y))
		} else if st.le0(d.addC(1)) {
			ok = ok && st.zone.assumeLE0(y.addC(2).sub(x))
		}
	}
	if !ok {
		panic(stopPanic{})
	}
	st.pushList("starts", VTuple{[]Value{VInt{p}, VInt{x}}})
	return x, true
}

// ---- reading

// textByte is the byte of a part of the text at position i.
func (st *State) textByte(v Value, i Lin) Value {
	lo, _, _ := span(v, "text")
	q := lo.add(i)
	mode := st.gStr("mode")
	if st.gStr("marked") != "" && mode != "seg" && st.beginSeg(v, q) {
		st.consume(q)
	}
	for _, w := range st.gList("win") {
		e := w.(VTuple).E
		if st.is0(e[0].(VInt).L.sub(q)) {
			if b, ok := byteOf(e[1]); ok {
				return VInt{linC(int64(b))}
			}
			return e[1]
		}
	}
	if mode == "seg" {
		d, n := st.gLin("d"), st.gLin("n")
		if st.is0(lo.sub(st.gLin("lo"))) && st.is0(i.sub(d)) || st.is0(q.sub(st.gLin("g"))) {
			if st.decideLE0(d.addC(1).sub(n)) {
				st.consume(q)
			}
		}
		if st.beginSeg(v, q) {
			st.consume(q)
		}
		return st.anyByte()
	}
	if g, ok := st.ghosts["g"].(VInt); ok && mode != "idle" {
		if st.is0(q.sub(g.L)) {
			if st.decideLE0(q.addC(1).sub(st.gLin("L"))) {
				st.consume(q)
			}
			return st.anyByte()
		}
		if !st.le0(q.addC(1).sub(g.L)) {
			if st.decideEQ0(q.sub(g.L)) {
				if !st.is0(q.sub(g.L)) {
					st.abort("undecided", "reads at %s, where the next byte is perhaps", q)
				}
				return st.textByte(v, i)
			}
			if st.decideLE0(g.L.addC(1).sub(q)) {
				b := st.anyByte()
				st.pushList("win", VTuple{[]Value{VInt{q}, b}})
				return b
			}
		}
	}
	return st.anyByte()
}

// beginSeg starts reading a label when one is known to start at q.
func (st *State) beginSeg(of Value, q Lin) bool {
	k := st.gLin("K")
	for _, v := range st.gList("starts") {
		e := v.(VTuple).E
		p := e[0].(VInt).L
		if !st.is0(e[1].(VInt).L.sub(q)) || !st.le0(p.addC(1).sub(k)) {
			continue
		}
		last := st.decideEQ0(p.addC(1).sub(k))
		end, ok := st.start(p.addC(1))
		if !ok {
			return false
		}
		for _, o := range st.objs {
			for i, c := range o.Cells {
				if _, ok := isApp(c, "arr"); ok {
					o.Cells[i] = newArr()
				}
			}
		}
		st.setStr("mode", "seg")
		st.setLin("g", q)
		st.setLin("lo", q)
		st.setLin("d", linC(0))
		st.setLin("n", end.sub(q))
		if lo, hi, _ := span(of, "text"); st.is0(lo.sub(q)) && st.is0(hi.sub(end)) {
			st.setLin("n", spanLen(of))
		}
		st.setLin("e", linC(0))
		st.setAuto(rRegular, 0)
		st.setLin("p", p)
		st.setLin("end", end)
		st.setStr("last", map[bool]string{true: "yes", false: "no"}[last])
		st.setList("pend", nil)
		st.setList("win", nil)
		delete(st.ghosts, "cs")
		return true
	}
	return false
}

// nameByte is a byte of a packed name.
func (st *State) nameByte(q Lin) Value {
	if b, ok := st.ghosts["B"].(VInt); ok {
		if st.is0(q.sub(b.L)) && st.le0(q.addC(1).sub(st.gLin("Lc"))) {
			if z, ok := st.ghosts["z"].(VInt); ok {
				return z
			}
			// the label ends inside the name
			n := linS(st.newSym())
			ok := st.zone.assumeLE0(n.sub(st.gLin("Lc"))) && st.zone.assumeLE0(b.L.addC(2).sub(n)) && st.zone.assumeLE0(n.sub(b.L).addC(-64))
			if !ok {
				panic(stopPanic{})
			}
			// n = B+1+z, by which z is replaced to keep to differences
			st.setLin("N", n)
			st.ghosts["z"] = VInt{n.sub(b.L).addC(-1)}
			return st.ghosts["z"]
		}
	}
	// any byte, given by the position as far behind
	n := linS(st.newSym())
	if !st.zone.assumeLE0(q.addC(1).sub(n)) || !st.zone.assumeLE0(n.sub(q).addC(-256)) {
		panic(stopPanic{})
	}
	return VInt{n.sub(q).addC(-1)}
}

func (st *State) strIndex(v Value, l Lin) Value {
	if _, _, ok := span(v, "text"); ok {
		st.boundsCheck(l, spanLen(v))
		return st.textByte(v, l)
	}
	if lo, _, ok := span(v, "pack"); ok {
		st.boundsCheck(l, spanLen(v))
		return st.nameByte(lo.add(l))
	}
	if s, ok := v.(VStr); ok {
		i := st.smallIndex(VInt{l}, int64(len(s.S)))
		return VInt{linC(int64(s.S[i]))}
	}
	return st.noBytes(v)
}

func dnLen(st *State, v Value) (Lin, bool) {
	for _, f := range []string{"text", "pack"} {
		if _, _, ok := span(v, f); ok {
			return spanLen(v), true
		}
	}
	if x, ok := isApp(v, "emit"); ok {
		return x.Args[0].(VInt).L, true
	}
	return Lin{}, false
}

// sliceString is a substring.
func (st *State) sliceString(v Value, lo, hi *Lin) Value {
	if st.eng.ob.text {
		n := st.strLen(v)
		a, b := linC(0), n
		if lo != nil {
			a = *lo
		}
		if hi != nil {
			b = *hi
		}
		if !st.decideLE0(a.neg()) || !st.decideLE0(a.sub(b)) || !st.decideLE0(b.sub(n)) {
			st.abort("panic", "slice bounds out of range")
		}
		if s, ok := v.(VStr); ok && a.isConst() && b.isConst() {
			return VStr{s.S[a.k:b.k]}
		}
		for _, f := range []string{"text", "pack"} {
			if x, end, ok := span(v, f); ok {
				from, to := x.add(a), x.add(b)
				if f == "text" && st.gStr("mode") == "seg" && st.is0(x.sub(st.gLin("lo"))) {
					// the same place by a shorter name
					k := a.sub(st.gLin("d"))
					if l := st.zone.lower(k); len(from.t) > 1 && l > -inf && l == st.zone.upper(k) {
						from = st.gLin("g").addC(l)
					}
					if hi == nil {
						to = end
					}
				}
				return mkSpan(f, from, to, b.sub(a))
			}
		}
	}
	st.abort("undecided", "slice of %s", st.show(v))
	return nil
}

// ---- arrays

// An array's cell: the index at which the expected bytes begin or nil, and elements stored since.
func newArr() Value { return VApp{"arr", []Value{VNil{}}} }

func zeroBig(t types.Type) Value {
	a := t.Underlying().(*types.Array)
	if b, ok := a.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return newArr()
	}
	return VTop{"array"}
}

func (st *State) arrCell(o, p int) (VApp, bool) {
	ob := st.objs[o]
	if ob == nil || p >= len(ob.Cells) {
		return VApp{}, false
	}
	a, ok := isApp(ob.Cells[p], "arr")
	return a, ok && st.eng.ob.text
}

// absorbed is how many of the expected elements have been found in the array.
func (st *State) absorbed() Lin {
	k := "e"
	if st.gStr("mode") == "name" {
		k = "K"
	}
	return st.gLin(k).addC(-int64(len(st.gList("pend"))))
}

func (st *State) storeElem(e VElem, x Value) {
	if a, ok := isApp(st.objs[e.O].Cells[e.P], "names"); ok {
		_ = a
		st.abort("undecided", "changes a name in place")
	}
	a, ok := st.arrCell(e.O, e.P)
	if !ok || e.Tab != nil {
		st.noBytes(e)
	}
	if base, ok := a.Args[0].(VInt); ok {
		end := base.L
		if st.gStr("mode") == "raw" {
			end = st.gLin("F")
		} else {
			end = end.add(st.absorbed())
		}
		if !st.decideLE0(e.I.addC(1).sub(base.L)) && !st.decideLE0(end.sub(e.I)) {
			st.fail("content", "overwrites what it has already put out")
		}
	}
	n := VApp{"arr", []Value{a.Args[0]}}
	for _, v := range a.Args[1:] {
		t := v.(VTuple).E
		if !st.decideEQ0(t[0].(VInt).L.sub(e.I)) {
			n.Args = append(n.Args, v)
		}
	}
	n.Args = append(n.Args, VTuple{[]Value{VInt{e.I}, x}})
	st.objs[e.O].Cells[e.P] = n
}

func (st *State) loadArr(e VElem) Value {
	o := st.objs[e.O]
	if a, ok := st.arrCell(e.O, e.P); ok {
		if st.ghosts["K"] != nil && st.gStr("mode") == "name" && st.firstPassDone() {
			st.absorb()
			a, _ = st.arrCell(e.O, e.P)
			if base, ok := a.Args[0].(VInt); ok {
				if len(st.gList("pend")) > 0 {
					st.fail("content", "doesn't keep where a label starts")
				}
				o.Cells[e.P] = VApp{"starts", []Value{base}}
				st.setStr("marked", "yes")
			}
		}
		if a, ok := st.arrCell(e.O, e.P); ok {
			for _, v := range a.Args[1:] {
				t := v.(VTuple).E
				if st.is0(t[0].(VInt).L.sub(e.I)) {
					return t[1]
				}
			}
		}
	}
	if a, ok := isApp(o.Cells[e.P], "starts"); ok {
		if x, ok := st.start(e.I.sub(a.Args[0].(VInt).L)); ok {
			return VInt{x}
		}
		return VInt{linS(st.newSym())}
	}
	if !st.eng.ob.text {
		st.abort("undecided", "element of an array")
	}
	if at, ok := o.T.Underlying().(*types.Array); ok {
		if lo, hi, ok := intRange(at.Elem()); ok && hi < inf-1 {
			s := linS(st.newSym())
			st.zone.assumeLE0(linC(lo).sub(s))
			st.zone.assumeLE0(s.addC(-hi))
			return VInt{s}
		}
	}
	return VInt{linS(st.newSym())}
}

// eachArr calls f for every array until it tells to stop.
func (st *State) eachArr(f func(o *Obj, i int, a VApp) bool) {
	for _, id := range sortedKeys(st.objs) {
		o := st.objs[id]
		for i, c := range o.Cells {
			if a, ok := isApp(c, "arr"); ok && f(o, i, a) {
				return
			}
		}
	}
}

func without(a VApp, k int) []Value {
	return append(append([]Value(nil), a.Args[:k]...), a.Args[k+1:]...)
}

// absorb matches stored elements with the ones expected next.
func (st *State) absorb() {
	switch st.gStr("mode") {
	case "raw":
		st.absorbRaw()
		return
	case "label", "seg", "name":
	default:
		return
	}
	for again := true; again; {
		again = false
		pend := st.gList("pend")
		if len(pend) == 0 {
			return
		}
		based := false
		st.eachArr(func(o *Obj, i int, a VApp) bool {
			base, ok := a.Args[0].(VInt)
			if !ok {
				return false
			}
			based = true
			at := base.L.add(st.absorbed())
			for k := len(a.Args) - 1; k > 0; k-- {
				t := a.Args[k].(VTuple).E
				if !st.is0(t[0].(VInt).L.sub(at)) {
					continue
				}
				if _, same := st.isByteVal(t[1], pend[0]); !same {
					st.fail("content", "puts out %s where %s is expected", st.show(t[1]), st.show(pend[0]))
				}
				o.Cells[i] = VApp{"arr", without(a, k)}
				st.setList("pend", pend[1:])
				again = true
				return true
			}
			return true
		})
		if based || !st.is0(st.absorbed()) {
			continue
		}
		st.eachArr(func(o *Obj, i int, a VApp) bool {
			for k := len(a.Args) - 1; k > 0; k-- {
				t := a.Args[k].(VTuple).E
				if _, same := st.isByteVal(t[1], pend[0]); same {
					n := without(a, k)
					n[0] = t[0]
					o.Cells[i] = VApp{"arr", n}
					st.setList("pend", pend[1:])
					again = true
					return true
				}
			}
			return false
		})
	}
}

// absorbRaw decodes what an escaper puts out.
func (st *State) absorbRaw() {
	for again := true; again; {
		again = false
		f := st.gLin("F")
		st.eachArr(func(o *Obj, i int, a VApp) bool {
			for k := len(a.Args) - 1; k > 0; k-- {
				t := a.Args[k].(VTuple).E
				if !st.is0(t[0].(VInt).L.sub(f)) {
					continue
				}
				x, ok := t[1].(VInt)
				if !ok || !x.L.isConst() {
					st.abort("undecided", "puts out an unknown byte %s", st.show(t[1]))
				}
				n := without(a, k)
				n[0] = VInt{linC(0)}
				o.Cells[i] = VApp{"arr", n}
				st.decode(int(x.L.k))
				again = true
				return true
			}
			return false
		})
	}
}

// decode feeds a byte of a human-readable label to the automaton.
func (st *State) decode(b int) {
	if b < '!' || b > '~' {
		st.fail("content", "puts out byte %d, which isn't printable", b)
	}
	r, code := st.gAuto()
	if r == rRegular && b == '.' {
		st.fail("content", "puts out an unescaped dot")
	}
	st.setLin("F", st.gLin("F").addC(1))
	nr, nc, out := autoStep(r, code, b)
	if nr == rBad {
		st.fail("content", "puts out an escape which can't be read back")
	}
	st.setAuto(nr, nc)
	if out < 0 {
		return
	}
	q := st.gList("queue")
	if len(q) == 0 {
		st.fail("content", "puts out a byte nobody asked for")
	}
	if want, _ := byteOf(q[0]); want != out {
		st.fail("content", "puts out a form of byte %d instead of %d", out, want)
	}
	st.setList("queue", q[1:])
	st.setLin("Q4", st.gLin("Q4").addC(4))
}

func (st *State) bytesToString(v Value) Value {
	if !st.eng.ob.text {
		return st.noBytes(v)
	}
	if x, ok := isApp(v, "text"); ok {
		return x
	}
	s, ok := v.(VSlice)
	if !ok {
		if _, ok := v.(VNil); ok {
			return VStr{""}
		}
		return st.noBytes(v)
	}
	if st.is0(s.Len) {
		return VStr{""}
	}
	o := st.objs[s.O]
	if _, ok := isApp(o.Cells[s.P], "names"); ok {
		if st.is0(s.Off) && st.is0(s.Len.sub(st.gLin("P"))) {
			return VApp{"packed", []Value{st.ghosts["next"]}}
		}
		st.fail("content", "the name isn't just the labels which were put into it")
	}
	if _, ok := st.arrCell(s.O, s.P); ok {
		st.absorb()
		a, _ := st.arrCell(s.O, s.P)
		if b, ok := a.Args[0].(VInt); ok && (st.gStr("mode") == "label" || st.gStr("mode") == "raw") {
			e := Lin{}
			if st.gStr("mode") == "raw" {
				e = st.gLin("F")
			} else {
				e = st.absorbed()
			}
			if st.is0(s.Off.sub(b.L)) && st.is0(s.Len.sub(e)) {
				return VApp{"emit", []Value{VInt{e}}}
			}
			if st.decideLE0(s.Len) {
				return VStr{""}
			}
		} else if st.decideLE0(s.Len) {
			return VStr{""}
		}
		return VTop{"other bytes"}
	}
	if cells, ok := st.sliceCells(v); ok && len(cells) == 0 {
		return VStr{""}
	}
	return st.noBytes(v)
}

func (st *State) stringToBytes(v Value) Value {
	if _, ok := isApp(v, "text"); ok && st.eng.ob.text {
		return v
	}
	return st.noBytes(v)
}

// opqElem is the address of a byte of a text.
func (st *State) opqElem(v, i Value) Value {
	if _, _, ok := span(v, "text"); ok && st.eng.ob.text {
		b := st.strIndex(v, st.toInt(i))
		o := st.newObj(types.Typ[types.Uint8], []Value{b}, false)
		return VPtr{O: o.ID}
	}
	return st.noBytes(v)
}

// copyBig copies between arrays.
func (st *State) copyBig(dst, src Value) (Value, bool) {
	d, ok1 := dst.(VSlice)
	s, ok2 := src.(VSlice)
	if !ok1 || !ok2 || !st.eng.ob.text {
		return nil, false
	}
	a, ok := st.arrCell(s.O, s.P)
	if !ok {
		return nil, false
	}
	_, isNames := isApp(st.objs[d.O].Cells[d.P], "names")
	if _, ok := st.arrCell(d.O, d.P); !ok && !isNames {
		return nil, false
	}
	if st.gStr("over") != "" {
		st.abort("undecided", "goes on after a name got too long")
	}
	switch st.gStr("told") {
	case "":
		// the sum of the lengths gets a name, by which the offset is expressed
		st.unify()
		st.setStr("told", "one")
		st.fork(func(c *State) bool { return true })
	case "one":
		st.sumName(st.gLin("P"), s.Len)
		st.setStr("told", "two")
		st.fork(func(c *State) bool { return true })
	}
	st.absorb()
	a, _ = st.arrCell(s.O, s.P)
	if st.gStr("mode") != "seg" || len(st.gList("pend")) > 0 || !st.is0(st.gLin("d").sub(st.gLin("n"))) {
		st.fail("content", "puts a label into the name which isn't complete")
	}
	e := st.gLin("e")
	if b, ok := a.Args[0].(VInt); !ok || !st.is0(b.L.sub(s.Off).addC(-1)) || !st.is0(s.Len.addC(-1).sub(e)) {
		st.fail("content", "puts something else than a label with its length into the name")
	}
	sized := false
	for _, v := range a.Args[1:] {
		t := v.(VTuple).E
		if st.is0(t[0].(VInt).L.sub(s.Off)) {
			x, ok := t[1].(VInt)
			sized = ok && st.is0(x.L.sub(e))
		}
	}
	if !sized {
		st.fail("content", "the byte before a label isn't its length")
	}
	if !st.le0(e.addC(-63)) {
		st.fail("content", "takes a label of more than 63 bytes")
	}
	if !st.is0(st.gLin("p").addC(1).sub(st.gLin("next"))) {
		st.fail("content", "the labels aren't put into the name in order from the last one")
	}
	if !st.is0(d.Off.sub(st.gLin("P"))) {
		st.fail("content", "a label isn't put right after the one before")
	}
	if !isNames && !st.is0(st.gLin("next").sub(st.gLin("K"))) {
		st.fail("content", "the labels are put into different places")
	}
	if !st.decideLE0(s.Len.sub(d.Len)) {
		// all labels together are longer than the room
		if !st.le0(linC(256).sub(st.gLin("P").add(s.Len))) {
			st.fail("content", "has too little room for a name")
		}
		st.setStr("over", "yes")
		return VInt{d.Len}, true
	}
	st.objs[d.O].Cells[d.P] = VApp{"names", nil}
	n := s.Len
	if !st.zone.assumeLE0(n.addC(-64)) || !st.zone.assumeLE0(linC(2).sub(n)) {
		panic(stopPanic{})
	}
	delete(st.ghosts, "told")
	st.ghosts["P"] = VInt{st.gLin("P").add(n)}
	st.setLin("next", st.gLin("next").addC(-1))
	st.objs[s.O].Cells[s.P] = newArr()
	st.setStr("mode", "idle")
	for _, k := range []string{"g", "d", "n", "lo", "e", "R", "p", "end", "last", "win"} {
		delete(st.ghosts, k)
	}
	return VInt{n}, true
}

// ---- loop heads

// atDnHead prepares a state for a loop head.
func (d *dnOb) head(st *State, f *Frame) {
	d.progress(st, f)
	st.absorb()
	if len(st.gList("pend")) > 1 {
		st.fail("content", "doesn't put out what it has read")
	}
	if r, _ := st.gAuto(); r == rRegular && st.ghosts["R"] != nil && len(st.gList("pend")) == 0 {
		st.setAuto(rRegular, 0)
	}
	g, reading := st.ghosts["g"].(VInt)
	// the bytes read which the code may read again
	var keep []Value
	for _, w := range st.gList("win") {
		q := w.(VTuple).E[0].(VInt).L
		if st.gStr("marked") != "" && st.gStr("mode") != "seg" {
			break
		}
		if reading && st.le0(g.L.sub(q)) {
			keep = append(keep, w)
			continue
		}
		for _, x := range nextReads(f) {
			if lo, ok := st.ghosts["lo"].(VInt); st.is0(q.sub(x)) || ok && st.is0(q.sub(x).sub(lo.L)) {
				keep = append(keep, w)
				break
			}
		}
	}
	st.setList("win", keep)
	if l := st.gList("starts"); len(l) > 2 {
		// those the code doesn't know any more
		var used []Lin
		for _, fr := range st.frames {
			for _, r := range fr.regs {
				mapVal(r, func(v Value) Value {
					if x, ok := v.(VInt); ok && len(x.L.t) <= 1 {
						used = append(used, x.L)
					}
					return v
				})
			}
		}
		if x, ok := st.ghosts["end"].(VInt); ok {
			used = append(used, x.L)
		}
		keep := l[:1:1]
		for _, v := range l[1:] {
			e := v.(VTuple).E
			if st.is0(e[0].(VInt).L.sub(st.gLin("next"))) {
				keep = append(keep, v)
				continue
			}
			for _, u := range used {
				if st.is0(e[1].(VInt).L.sub(u)) {
					keep = append(keep, v)
					break
				}
			}
		}
		st.setList("starts", keep)
	}
	st.eachArr(func(o *Obj, i int, a VApp) bool {
		if len(a.Args) > 8 {
			st.fail("content", "keeps bytes which don't belong to the result")
		}
		return false
	})
	if d.before(st) {
		panic(stopPanic{})
	}
	st.unify()
	// positions are symbols, whatever is known about them
	for _, k := range sortedNames(st.ghosts) {
		st.ghosts[k] = mapVal(st.ghosts[k], func(v Value) Value {
			if x, ok := v.(VInt); ok && x.L.isConst() {
				return VInt{st.named(x.L)}
			}
			return v
		})
	}
	inner := func(v Value) Value {
		if x, ok := v.(VInt); ok && x.L.isConst() && x.L.k != 0 {
			return VInt{st.named(x.L)}
		}
		return v
	}
	parts := func(v Value, f func(Value) Value) Value {
		if _, ok := v.(VApp); ok {
			return mapVal(v, f)
		}
		return v
	}
	for _, fr := range st.frames {
		for i, r := range fr.regs {
			fr.regs[i] = parts(r, inner)
		}
	}
	for _, id := range sortedKeys(st.objs) {
		for i, c := range st.objs[id].Cells {
			st.objs[id].Cells[i] = parts(c, inner)
		}
	}
	// sums have a name, and what keeps no distance has names of its own
	at := map[Sym]int64{}
	sums := map[string]Lin{}
	own := func(v Value) Value {
		x, ok := v.(VInt)
		if !ok || x.L.isConst() {
			return v
		}
		if len(x.L.t) == 1 && x.L.t[0].c == 1 {
			s := x.L.t[0].s
			if k, ok := at[s]; !ok || k == x.L.k {
				at[s] = x.L.k
				return v
			}
		}
		var n Lin
		if len(x.L.t) > 1 || x.L.t[0].c != 1 {
			k := fmt.Sprint(x.L.t)
			m, ok := sums[k]
			if !ok {
				m = st.named(x.L.addC(-x.L.k))
				sums[k] = m
			}
			n = m.addC(x.L.k)
		} else {
			n = st.named(x.L)
		}
		s := n.t[0].s
		if k, ok := at[s]; ok && k != n.k {
			n = st.named(n)
			s = n.t[0].s
		}
		at[s] = n.k
		return VInt{n}
	}
	for _, k := range sortedNames(st.ghosts) {
		st.ghosts[k] = mapVal(st.ghosts[k], own)
	}
	for _, fr := range st.frames {
		for i, r := range fr.regs {
			fr.regs[i] = parts(own(r), own)
		}
	}
	for _, id := range sortedKeys(st.objs) {
		for i, c := range st.objs[id].Cells {
			st.objs[id].Cells[i] = parts(own(c), own)
		}
	}
}

// sumName replaces a symbol of a by the sum of a and b less the rest.
func (st *State) sumName(a, b Lin) {
	sum := a.add(b)
	if len(sum.t) < 2 {
		return
	}
	for _, t := range a.t {
		if t.c != 1 {
			continue
		}
		rest := sum.sub(linS(t.s))
		in := false
		for _, u := range rest.t {
			in = in || u.s == t.s
		}
		if !in {
			n := st.named(sum)
			st.substSym(t.s, n.sub(rest))
			return
		}
	}
}

// nameSum has a sum which can't be compared expressed by a single symbol, and the instruction tried again.
func (st *State) nameSum(e Lin) {
	if st.gStr("named") != "" {
		delete(st.ghosts, "named")
		for _, t := range e.t {
			if t.c != e.t[0].c || t.c != 1 && t.c != -1 {
				st.abort("undecided", "comparison of the sum %s", e)
			}
		}
		x := linS(e.t[0].s)
		sum := e
		if e.t[0].c < 0 {
			sum = e.neg()
		}
		st.sumName(x, sum.sub(x).addC(-sum.k))
	} else {
		st.unify()
		st.setStr("named", "yes")
	}
	st.fork(func(c *State) bool { return true })
}

// unify leaves one of the symbols which differ by a constant.
func (st *State) unify() {
	ss := st.zone.sym
	for i := 2; i < len(ss); i++ {
		for j := 1; j < i; j++ {
			if k := st.zone.m[i][j]; k < inf && st.zone.m[j][i] == -k {
				st.substSym(ss[i], linS(ss[j]).addC(k))
				break
			}
		}
	}
}

// nextReads are the positions at which a loop's phis let it read next.
func nextReads(f *Frame) (out []Lin) {
	// reads tells from which texts bytes are read at v
	reads := func(v ssa.Value) (from []ssa.Value) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Index:
				if x.Index == v {
					from = append(from, x.X)
				}
			case *ssa.Lookup:
				if x.Index == v {
					from = append(from, x.X)
				}
			case *ssa.IndexAddr:
				t := x.X.Type().Underlying()
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem().Underlying()
				}
				var el types.Type
				switch t := t.(type) {
				case *types.Slice:
					el = t.Elem()
				case *types.Array:
					el = t.Elem()
				}
				if b, ok := el.(*types.Basic); ok && b.Kind() == types.Uint8 && x.Index == v {
					from = append(from, x.X)
				}
			}
		}
		return
	}
	put := func(from []ssa.Value, l Lin) {
		for _, v := range from {
			out = append(out, l)
			if n, ok := f.info.num[v]; ok && n < len(f.regs) {
				if lo, _, ok := span(f.regs[n], "text"); ok {
					out = append(out, lo.add(l))
				}
			}
		}
	}
	for _, ins := range f.blk.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		x, ok := f.regs[f.info.num[phi]].(VInt)
		if !ok {
			continue
		}
		put(reads(phi), x.L)
		for _, r := range *phi.Referrers() {
			b, ok := r.(*ssa.BinOp)
			if !ok || b.X != ssa.Value(phi) {
				continue
			}
			from := reads(b)
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				switch b.Op {
				case token.ADD:
					put(from, x.L.addC(c.Int64()))
				case token.SUB:
					put(from, x.L.addC(-c.Int64()))
				}
			}
		}
	}
	// reads at fixed places of the rest of a text
	for _, b := range f.fn.Blocks {
		if !f.blk.Dominates(b) {
			continue
		}
		for _, ins := range b.Instrs {
			var x, i ssa.Value
			switch y := ins.(type) {
			case *ssa.Index:
				x, i = y.X, y.Index
			case *ssa.Lookup:
				x, i = y.X, y.Index
			default:
				continue
			}
			if c, ok := i.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				if n, ok := f.info.num[x]; ok && n < len(f.regs) {
					if lo, _, ok := span(f.regs[n], "text"); ok {
						out = append(out, lo.addC(c.Int64()))
					}
				}
			}
		}
	}
	return
}

// before tells whether the very same state was there before.
func (d *dnOb) before(st *State) bool {
	c := st.canonical(nil)
	z := c.projZone()
	b := []byte(c.key())
	for _, r := range z.m {
		for _, x := range r {
			b = strconv.AppendInt(append(b, ' '), x, 36)
		}
	}
	k := sha256.Sum256(b)
	if d.quick[k] {
		return true
	}
	d.quick[k] = true
	return false
}

// named is a symbol for an expression.
func (st *State) named(l Lin) Lin {
	n := linS(st.newSym())
	lo, hi := st.zone.lower(l), st.zone.upper(l)
	rel := map[Sym][2]int64{}
	if !l.isConst() {
		for _, s := range st.zone.sym[1:] {
			rel[s] = [2]int64{st.zone.lower(l.sub(linS(s))), st.zone.upper(l.sub(linS(s)))}
		}
	}
	if lo > -inf {
		st.zone.assumeLE0(linC(lo).sub(n))
	}
	if hi < inf {
		st.zone.assumeLE0(n.addC(-hi))
	}
	var ss []Sym
	for s := range rel {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
	for _, s := range ss {
		if r := rel[s]; r[0] > -inf {
			st.zone.assumeLE0(linS(s).addC(r[0]).sub(n))
		}
		if r := rel[s]; r[1] < inf {
			st.zone.assumeLE0(n.sub(linS(s)).addC(-r[1]))
		}
	}
	return n
}

func headKey(depth int, f *Frame) string {
	return fmt.Sprintf("t:%02d:%s@%d", depth, f.fn, f.blk.Index)
}

// progress checks that something moves towards a bound whenever a loop goes round.
func (d *dnOb) progress(st *State, f *Frame) {
	depth := len(st.frames)
	me := headKey(depth, f)
	for _, k := range sortedNames(st.ghosts) {
		if !strings.HasPrefix(k, "t:") || k == me {
			continue
		}
		n, _ := strconv.Atoi(k[2:4])
		in := n < depth
		if n == depth {
			for _, b := range f.fn.Blocks {
				if k == fmt.Sprintf("t:%02d:%s@%d", depth, f.fn, b.Index) && b.Dominates(f.blk) {
					in = true
				}
			}
		}
		if !in {
			delete(st.ghosts, k)
		}
	}
	old, ok := st.ghosts[me].(VTuple)
	delete(st.ghosts, me)
	if !ok || !f.blk.Dominates(f.prev) {
		return
	}
	now := phiVals(f)
	can := map[string]bool{}
	for i, v := range now {
		x, ok1 := v.(VInt)
		y, ok2 := old.E[i].(VInt)
		if !ok1 || !ok2 {
			// a string or a slice which gets shorter
			a, ok1 := lenOf(v)
			b, ok2 := lenOf(old.E[i])
			if ok1 && ok2 && st.zone.upper(a.sub(b)) <= -1 {
				can[fmt.Sprint("-", i)] = true
			}
			continue
		}
		e := x.L.sub(y.L)
		if st.zone.lower(e) >= 1 {
			up := st.zone.upper(x.L) < inf
			for _, k := range []string{"L", "Lc"} {
				if l, ok := st.ghosts[k].(VInt); ok && st.zone.upper(x.L.sub(l.L)) < inf {
					up = true
				}
			}
			if up {
				can[fmt.Sprint("+", i)] = true
			}
		}
		if st.zone.upper(e) <= -1 && st.zone.lower(x.L) > -inf {
			can[fmt.Sprint("-", i)] = true
		}
	}
	key := fmt.Sprintf("%s@%d", f.fn, f.blk.Index)
	if was, ok := d.term[key]; ok {
		for k := range was {
			if !can[k] {
				delete(was, k)
			}
		}
		can = was
	} else {
		d.term[key] = can
	}
	if len(can) == 0 {
		st.fail("hang", "a loop goes round without coming nearer to its end")
	}
}

// lenOf returns the length of a piece of text or of a slice.
func lenOf(v Value) (Lin, bool) {
	switch v := v.(type) {
	case VApp:
		if v.F == "text" || v.F == "pack" {
			return spanLen(v), true
		}
	case VSlice:
		return v.Len, true
	}
	return Lin{}, false
}

func phiVals(f *Frame) []Value {
	var out []Value
	for _, ins := range f.blk.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := f.regs[f.info.num[phi]]
		if v == nil {
			v = VNil{}
		}
		out = append(out, v)
	}
	return out
}

func (d *dnOb) after(st *State, f *Frame) {
	st.ghosts[headKey(len(st.frames), f)] = VTuple{phiVals(f)}
}

// ---- obligations

var dnProps = []string{"C18", "C19", "C20", "C21"}

func (p *Program) newDn(name string, fn *ssa.Function, content ...string) *dnOb {
	d := &dnOb{p: p, term: map[string]map[string]bool{}, quick: map[[32]byte]bool{}}
	d.Obligation = &Obligation{Name: name, fn: fn, text: true, inline: true, maxC: 1, Cost: 8,
		Props: map[string][]string{"content": content, "panic": {"C21"}, "hang": {"C21"}}}
	if len(content) > 0 && content[0] == "C18" {
		d.Props["panic"] = []string{"C18", "C21"}
	}
	d.rule = "reader automaton over the symbolic text; bounds; progress of loops"
	d.strLen = dnLen
	d.headFn = d.head
	d.afterFn = d.after
	d.syncFn = func(st *State) bool { return true }
	for _, n := range []int64{0, 1, 2, 3, 4, 61, 62, 63, 64, 65, 125, 126, 127, 128, 129, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257} {
		d.thr = append(d.thr, n, -n)
	}
	sort.Slice(d.thr, func(i, j int) bool { return d.thr[i] < d.thr[j] })
	d.strEqual = func(st *State, a, b Value) (bool, bool) {
		if _, ok := a.(VStr); ok {
			a, b = b, a
		}
		s, ok := b.(VStr)
		if _, _, isText := span(a, "text"); !isText || !ok {
			return false, false
		}
		if !st.decideEQ0(st.strLen(a).addC(-int64(len(s.S)))) {
			return false, true
		}
		for i := range s.S {
			c := st.strIndex(a, linC(int64(i)))
			if !st.decideEQ0(st.toInt(c).addC(-int64(s.S[i]))) {
				return false, true
			}
		}
		return true, true
	}
	return d
}

func (st *State) newText(mode string) Value {
	l := linS(st.newSym())
	st.zone.assumeLE0(l.neg())
	st.setLin("L", l)
	st.setStr("mode", mode)
	for _, k := range []string{"g", "e"} {
		st.setLin(k, linC(0))
	}
	st.setAuto(rRegular, 0)
	return mkSpan("text", linC(0), l, l)
}

func dnObligations(p *Program) (obs []*Obligation, errs []anchorErr) {
	var pkg *ssa.Package
	for _, q := range p.Pkgs {
		if q.Pkg.Path() == p.Mod+"/domain" {
			pkg = q
		}
	}
	if pkg == nil {
		return nil, []anchorErr{{"there is no package domain", dnProps}}
	}
	tm, ok := pkg.Members["Name"].(*ssa.Type)
	if !ok {
		return nil, []anchorErr{{"there is no domain.Name", dnProps}}
	}
	nameT := tm.Type().(*types.Named)
	ns, ok := nameT.Underlying().(*types.Struct)
	if !ok || ns.NumFields() != 2 || !isString(ns.Field(0).Type()) || !isString(ns.Field(1).Type()) {
		return nil, []anchorErr{{"domain.Name isn't a pair of strings any more", dnProps}}
	}
	find := func(name string, np int) *ssa.Function {
		fn := pkg.Func(name)
		if fn == nil {
			fn = p.MethodOf(nameT, name)
		}
		if fn == nil || len(fn.Params) != np || len(fn.Blocks) == 0 {
			errs = append(errs, anchorErr{"domain has no " + name, dnProps})
			return nil
		}
		return fn
	}
	add := func(d *dnOb) { obs = append(obs, d.Obligation) }

	if fn := find("MakeLabel", 1); fn != nil {
		d := p.newDn("domain.MakeLabel", fn, "C19")
		d.setup = func(st *State) []Value { return []Value{st.newText("label")} }
		d.onPanic = func(st *State, v Value) bool {
			r, _ := st.gAuto()
			return r == rRefused
		}
		d.exitFn = exitLabel
		add(d)
	}
	if fn := find("MakeHumanReadableLabel", 1); fn != nil {
		d := p.newDn("domain.MakeHumanReadableLabel", fn, "C20")
		d.setup = func(st *State) []Value {
			v := st.newText("raw")
			st.setLin("F", linC(0))
			st.setLin("Q4", linC(0))
			return []Value{v}
		}
		d.exitFn = exitHuman
		add(d)
	}
	if fn := find("MakeNameFromString", 1); fn != nil {
		d := p.newDn("domain.MakeNameFromString", fn, "C18")
		d.Cost = 30
		d.setup = func(st *State) []Value {
			v := st.newText("name")
			st.setLin("K", linC(0))
			st.setLin("cs", linC(0))
			return []Value{v}
		}
		d.exitFn = exitName
		add(d)
		if fn := find("MakeNameFromReflection", 1); fn != nil {
			for _, k := range reflKinds {
				add(p.reflObligation(fn, nameT, k))
			}
		}
	}
	packed := func(st *State, boundary bool) Value {
		lc := linS(st.newSym())
		st.zone.assumeLE0(lc.neg())
		st.zone.assumeLE0(lc.addC(-255))
		st.setLin("Lc", lc)
		if boundary {
			st.setLin("B", linC(0))
		}
		return VAgg{[]Value{st.newOpq(), mkSpan("pack", linC(0), lc, lc)}}
	}
	if fn := find("GetLabels", 2); fn != nil {
		d := p.newDn("domain.Name.GetLabels", fn, "C18")
		d.setup = func(st *State) []Value {
			st.ghosts["fn"] = st.newOpq()
			return []Value{packed(st, true), st.ghosts["fn"]}
		}
		d.callFn = func(st *State, fv Value, args []Value, c *ssa.CallCommon) (Value, bool) {
			if !valSame(fv, st.ghosts["fn"]) || len(args) != 1 {
				return nil, false
			}
			if st.ghosts["err"] != nil {
				st.fail("content", "goes on after the callback's error")
			}
			b := st.gLin("B")
			lo, hi, ok := span(args[0], "pack")
			if st.ghosts["N"] == nil || !ok || !st.is0(lo.sub(b).addC(-1)) || !st.is0(hi.sub(st.gLin("N"))) {
				st.fail("content", "doesn't give the name's next label to the callback")
			}
			key := "ret"
			if _, ok := st.ghosts[key]; !ok {
				st.fork(func(c *State) bool { c.ghosts[key] = VNil{}; return true },
					func(c *State) bool { c.ghosts[key] = VApp{"nn:err", []Value{c.newOpq()}}; return true })
			}
			r := st.ghosts[key]
			delete(st.ghosts, key)
			if _, isNil := r.(VNil); !isNil {
				st.ghosts["err"] = r
			}
			st.ghosts["B"] = st.ghosts["N"]
			delete(st.ghosts, "N")
			delete(st.ghosts, "z")
			return r, true
		}
		d.exitFn = func(st *State, res Value) {
			if e := st.ghosts["err"]; e != nil {
				if !valSame(res, e) {
					st.fail("content", "doesn't return the callback's error")
				}
				return
			}
			if _, ok := res.(VNil); !ok {
				st.fail("content", "returns an error of its own")
			}
			if !st.is0(st.gLin("B").sub(st.gLin("Lc"))) {
				st.fail("content", "stops before the name's last label")
			}
		}
		add(d)
	}
	if fn := find("GetLabel", 2); fn != nil {
		d := p.newDn("domain.Name.GetLabel at a label", fn, "C18")
		d.setup = func(st *State) []Value {
			v := packed(st, true)
			b := linS(st.newSym())
			st.zone.assumeLE0(b.neg())
			st.zone.assumeLE0(b.sub(st.gLin("Lc")).addC(1))
			st.setLin("B", b)
			return []Value{v, VInt{b}}
		}
		d.exitFn = func(st *State, res Value) {
			t := res.(VTuple)
			lo, hi, ok := span(t.E[0], "pack")
			if st.ghosts["N"] == nil || !ok || !st.is0(lo.sub(st.gLin("B")).addC(-1)) || !st.is0(hi.sub(st.gLin("N"))) {
				st.fail("content", "doesn't return the label at the offset")
			}
			next := st.toInt(t.E[1])
			if st.decideEQ0(st.gLin("N").sub(st.gLin("Lc"))) {
				if !st.is0(next) {
					st.fail("content", "doesn't return 0 as the offset after the last label")
				}
			} else if !st.is0(next.sub(st.gLin("N"))) {
				st.fail("content", "doesn't return the next label's offset")
			}
		}
		add(d)
		d2 := p.newDn("domain.Name.GetLabel anywhere", fn, "C21")
		d2.setup = func(st *State) []Value {
			v := packed(st, false)
			o := linS(st.newSym())
			st.setLin("off", o)
			return []Value{v, VInt{o}}
		}
		d2.exitFn = func(st *State, res Value) {
			t := res.(VTuple)
			off, lc, next := st.gLin("off"), st.gLin("Lc"), st.toInt(t.E[1])
			if st.decideEQ0(lc) && st.decideEQ0(off) {
				if s, ok := t.E[0].(VStr); !ok || s.S != "" || !st.is0(next) {
					st.fail("content", "the root name's label isn't empty")
				}
				return
			}
			if st.decideLE0(off.addC(1)) || st.decideLE0(lc.sub(off)) {
				if s, ok := t.E[0].(VStr); !ok || s.S != "" || !st.is0(next.addC(1)) {
					st.fail("content", "an offset outside the name doesn't give an empty label and -1")
				}
			}
		}
		add(d2)
	}
	if fn := find("String", 1); fn != nil {
		d := p.newDn("domain.Name.String", fn, "C18")
		d.setup = func(st *State) []Value {
			v := packed(st, true)
			st.ghosts["h"] = v.(VAgg).C[0]
			return []Value{v}
		}
		d.exitFn = func(st *State, res Value) {
			if !valSame(res, st.ghosts["h"]) {
				st.fail("content", "doesn't return the text the name was made from")
			}
		}
		add(d)
	}
	// nothing exported goes unseen
	known := map[string]bool{"MakeLabel": true, "MakeHumanReadableLabel": true, "MakeNameFromString": true, "MakeNameFromReflection": true}
	for _, n := range sortedNames(pkg.Members) {
		if f, ok := pkg.Members[n].(*ssa.Function); ok && token.IsExported(n) && !known[n] && f.Synthetic == "" {
			errs = append(errs, anchorErr{"domain." + n + " isn't covered", []string{"C21"}})
		}
	}
	return
}

// escNeeds is the number of bytes which an escape needs at least, after its beginning.
var escNeeds = map[int]int64{rFirst: 1, rSecond: 2, rThird: 1}

// doomed tells that the escape being read can't become a good one.
func (st *State) doomed() bool {
	r, code := st.gAuto()
	need := escNeeds[r]
	return need > 0 && (code > 255 || st.le0(st.gLin("L").sub(st.gLin("g")).addC(1-need)))
}

func exitLabel(st *State, res Value) {
	t := res.(VTuple)
	st.absorb()
	r, _ := st.gAuto()
	e := st.gLin("e")
	atEnd := st.is0(st.gLin("g").sub(st.gLin("L")))
	if _, ok := t.E[1].(VNil); !ok {
		switch {
		case r == rBad, r == rRefused, st.doomed():
		case st.zone.lower(e) > 63:
		default:
			st.fail("content", "refuses a good label")
		}
		return
	}
	switch {
	case r == rRefused:
		st.fail("content", "takes a label with an unescaped dot before its end")
	case r == rBad:
		st.fail("content", "takes a bad escape")
	case !atEnd:
		st.fail("content", "leaves a part of the label unread")
	case r != rRegular && r != rEnded:
		st.fail("content", "takes an incomplete escape")
	case st.zone.upper(e) > 63:
		st.fail("content", "takes a label of more than 63 bytes")
	}
	if s, ok := t.E[0].(VStr); ok && s.S == "" && st.is0(e) {
		return
	}
	x, ok := isApp(t.E[0], "emit")
	if !ok || len(st.gList("pend")) > 0 || !st.is0(x.Args[0].(VInt).L.sub(e)) {
		st.fail("content", "the result isn't the label")
	}
}

func exitHuman(st *State, res Value) {
	st.absorb()
	r, _ := st.gAuto()
	f := st.gLin("F")
	if s, ok := res.(VStr); ok && s.S == "" {
		if !st.is0(f) {
			st.fail("content", "the result isn't what was put out")
		}
	} else if x, ok := isApp(res, "emit"); !ok || !st.is0(x.Args[0].(VInt).L.sub(f)) {
		st.fail("content", "the result isn't what was put out")
	}
	if r != rRegular {
		st.fail("content", "cuts an escape")
	}
	if st.zone.upper(f) > 252 {
		st.fail("content", "the result may have more than 252 bytes")
	}
	q := len(st.gList("queue"))
	left := st.gLin("L").sub(st.gLin("g"))
	if q == 0 && st.is0(left) {
		return
	}
	// cut: at least 63 bytes are there, and one more in the label
	lo := st.zone.lower(st.gLin("Q4"))
	m := (lo + 3) / 4
	if m < 63 || q == 0 && st.zone.lower(left) < 1 {
		st.fail("content", "a label of at most 63 bytes isn't given in full")
	}
}

func exitName(st *State, res Value) {
	t := res.(VTuple)
	mode := st.gStr("mode")
	r, _ := st.gAuto()
	if mode == "name" && r == rRegular {
		st.firstPassDone()
	}
	k := st.gLin("K")
	if _, ok := t.E[1].(VNil); !ok {
		switch {
		case st.gStr("over") != "":
		case st.zone.lower(k) > 127:
		case mode == "name" && (r == rBad || st.doomed()):
		case mode == "seg" && st.zone.lower(st.gLin("e")) > 63:
		case mode == "seg" && st.le0(linC(255).sub(st.gLin("P")).sub(st.gLin("e"))):
		default:
			st.fail("content", "refuses a good name")
		}
		return
	}
	n, ok := t.E[0].(VAgg)
	if !ok {
		st.abort("undecided", "a name expected")
	}
	if lo, hi, ok := span(n.C[0], "text"); !ok || !st.is0(lo) || !st.is0(hi.sub(st.gLin("L"))) {
		st.fail("content", "the human-readable form isn't the text as given")
	}
	s, isConst := n.C[1].(VStr)
	empty := isConst && s.S == ""
	if mode == "name" && r == rRoot {
		if !empty {
			st.fail("content", "a single dot isn't the root name")
		}
		return
	}
	if mode == "name" && !st.firstPassDone() {
		if r == rRegular {
			st.fail("content", "leaves a part of the name unread")
		}
		st.fail("content", "takes a malformed name")
	}
	if st.gStr("over") != "" {
		st.fail("content", "takes a name of more than 255 bytes")
	}
	if st.zone.upper(k) > 127 {
		st.fail("content", "takes a name of more than 127 labels")
	}
	if !st.is0(st.gLin("next")) {
		st.fail("content", "not all labels are in the name")
	}
	if empty {
		if !st.is0(k) {
			st.fail("content", "the labels aren't in the name")
		}
		return
	}
	if x, ok := isApp(n.C[1], "packed"); !ok || !st.is0(x.Args[0].(VInt).L) {
		st.fail("content", "the name isn't made of its labels")
	}
	if st.zone.upper(st.gLin("P")) > 255 {
		st.fail("content", "takes a name of more than 255 bytes")
	}
}

// ---- reflection

var reflKinds = []string{"string", "*string", "Name", "*Name", "other"}

// reflObligation is about MakeNameFromReflection for one kind of value.
func (p *Program) reflObligation(fn *ssa.Function, nameT *types.Named, kind string) *dnOb {
	d := p.newDn("domain.MakeNameFromReflection of "+kind, fn, "C21")
	base := strings.TrimPrefix(kind, "*")
	rv := func(k string) Value { return VApp{"nn:rval:" + k, nil} }
	rt := func(k string) Value { return VApp{"global", []Value{VStr{"rtype:" + k}}} }
	d.setup = func(st *State) []Value { return []Value{rv(kind)} }
	d.globFn = func(st *State, g *ssa.Global) (Value, bool) {
		if !types.Identical(deref(g.Type()), reflTypeOf(fn)) || !p.constGlobal(g) {
			return nil, false
		}
		k := reflInit(g)
		if k == "" {
			return nil, false
		}
		return rt(k), true
	}
	d.extFn = func(st *State, f *ssa.Function, args []Value) (Value, bool) {
		name := f.String()
		if name == "fmt.Errorf" || name == "fmt.Sprintf" {
			return VApp{F: "error", Args: []Value{VOpq{st.id()}}}, true
		}
		if len(args) == 0 {
			return nil, false
		}
		x, ok := args[0].(VApp)
		if !ok || !strings.HasPrefix(x.F, "nn:rval:") {
			return nil, false
		}
		k := strings.TrimPrefix(x.F, "nn:rval:")
		switch name {
		case "(reflect.Value).Type":
			return rt(k), true
		case "(reflect.Value).Kind":
			switch {
			case strings.HasPrefix(k, "*"):
				return VInt{linC(22)}, true
			case k == "string":
				return VInt{linC(24)}, true
			case k == "Name":
				return VInt{linC(25)}, true
			}
			return VInt{linC(2)}, true // say an integer
		case "(reflect.Value).Elem", "reflect.Indirect":
			if strings.HasPrefix(k, "*") {
				return rv(k[1:]), true
			}
			if name == "reflect.Indirect" {
				return x, true
			}
		case "(reflect.Value).String":
			switch k {
			case "string":
				return VApp{"the string", nil}, true
			case "h", "c":
				return VApp{"field " + k, nil}, true
			}
		case "(reflect.Value).Field":
			if i, ok := args[1].(VInt); ok && i.L.isConst() && k == "Name" && i.L.k >= 0 && i.L.k < 2 {
				return rv([]string{"h", "c"}[i.L.k]), true
			}
		}
		st.abort("panic", "calls %s of a value of kind %s", name, k)
		return nil, false
	}
	made := func(st *State) (Value, Value) {
		return VAgg{[]Value{VApp{"made h", nil}, VApp{"made c", nil}}}, VApp{"nn:err", []Value{VStr{"made"}}}
	}
	d.contracts = map[*ssa.Function]contractFn{}
	if mk := fn.Pkg.Func("MakeNameFromString"); mk != nil {
		d.contracts[mk] = func(st *State, args []Value) (Value, bool) {
			if _, ok := isApp(args[0], "the string"); !ok {
				st.fail("content", "makes a name from another string")
			}
			n, e := made(st)
			if st.ghosts["made"] == nil {
				st.fork(func(c *State) bool { c.ghosts["made"] = VNil{}; return true },
					func(c *State) bool { c.ghosts["made"] = e; return true })
			}
			return VTuple{[]Value{n, st.ghosts["made"]}}, true
		}
	}
	d.onPanic = func(st *State, v Value) bool {
		if base == "other" {
			st.eng.nExits++
			return true
		}
		if m := st.ghosts["made"]; m != nil {
			_, isNil := m.(VNil)
			return !isNil
		}
		return false
	}
	d.exitFn = func(st *State, res Value) {
		a, ok := res.(VAgg)
		if !ok || len(a.C) != 2 {
			st.abort("undecided", "a name expected")
		}
		switch base {
		case "string":
			n, _ := made(st)
			if _, isNil := st.ghosts["made"].(VNil); !isNil || !valsSame(a.C, n.(VAgg).C) {
				st.fail("content", "doesn't return the name made from the string")
			}
		case "Name":
			if !valsSame(a.C, []Value{VApp{"field h", nil}, VApp{"field c", nil}}) {
				st.fail("content", "doesn't return the same name")
			}
		default:
			st.fail("content", "takes a value which is neither a name nor a string")
		}
	}
	return d
}

// reflTypeOf is reflect.Type.
func reflTypeOf(fn *ssa.Function) types.Type {
	if q := fn.Prog.ImportedPackage("reflect"); q != nil {
		return q.Type("Type").Type()
	}
	return nil
}

// reflInit tells of which type the variable is the reflect.Type.
func reflInit(g *ssa.Global) string {
	init := g.Pkg.Func("init")
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(g) {
				continue
			}
			c, ok := s.Val.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "reflect.TypeOf" {
				return ""
			}
			m, ok := c.Call.Args[0].(*ssa.MakeInterface)
			if !ok {
				return ""
			}
			switch t := m.X.Type().(type) {
			case *types.Basic:
				return t.Name()
			case *types.Named:
				return t.Obj().Name()
			case *types.Pointer:
				if n, ok := t.Elem().(*types.Named); ok {
					return "*" + n.Obj().Name()
				}
			}
		}
	}
	return ""
}
