package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Words of fixed width are described relative to one reference word k (the searched key): for every other
// unknown word the analysis keeps the length of the prefix it has in common with k, and single bits.
// Positions count from the most significant bit.

// wx is a bitwise expression over unknown words.
type wx struct {
	op   byte // 'l' unknown word shifted left by off; 't' ones before position t; 'k' constant; '!', '&', '|', '^'
	id   int
	l    Lin // off or t
	k    uint64
	a, b *wx
}

// VWord is an integer of which the bits matter.
type VWord struct {
	E *wx
	W int64
}

func (e *wx) same(o *wx) bool {
	if e == o {
		return true
	}
	if e == nil || o == nil || e.op != o.op {
		return false
	}
	switch e.op {
	case 'l':
		return e.id == o.id && e.l.eq(o.l)
	case 't':
		return e.l.eq(o.l)
	case 'k':
		return e.k == o.k
	}
	return e.a.same(o.a) && (e.op == '!' || e.b.same(o.b))
}

func (e *wx) mapLin(f func(Lin) Lin) *wx {
	switch e.op {
	case 'l', 't':
		n := *e
		n.l = f(e.l)
		return &n
	case 'k':
		return e
	}
	n := *e
	n.a = e.a.mapLin(f)
	if e.b != nil {
		n.b = e.b.mapLin(f)
	}
	return &n
}

func (e *wx) mapID(f func(int) int) *wx {
	switch e.op {
	case 'l':
		n := *e
		n.id = f(e.id)
		return &n
	case 't', 'k':
		return e
	}
	n := *e
	n.a = e.a.mapID(f)
	if e.b != nil {
		n.b = e.b.mapID(f)
	}
	return &n
}

func (e *wx) ids(f func(int)) {
	switch e.op {
	case 'l':
		f(e.id)
	case 't', 'k':
	default:
		e.a.ids(f)
		if e.b != nil {
			e.b.ids(f)
		}
	}
}

func (e *wx) String() string {
	switch e.op {
	case 'l':
		if e.l.isConst() && e.l.k == 0 {
			return fmt.Sprintf("w%d", e.id)
		}
		return fmt.Sprintf("(w%d<<%s)", e.id, e.l)
	case 't':
		return fmt.Sprintf("ones(%s)", e.l)
	case 'k':
		return fmt.Sprintf("%#x", e.k)
	case '!':
		return "~" + e.a.String()
	}
	return "(" + e.a.String() + " " + string(e.op) + " " + e.b.String() + ")"
}

func (w VWord) same(o VWord) bool { return w.W == o.W && w.E.same(o.E) }
func (w VWord) String() string    { return w.E.String() }
func (w VWord) rename(f func(int) int) VWord {
	return VWord{w.E.mapID(f).mapLin(func(l Lin) Lin { return l.rename(func(s Sym) Sym { return Sym(f(int(s))) }) }), w.W}
}
func (w VWord) mapLin(f func(Lin) Lin) VWord { return VWord{w.E.mapLin(f), w.W} }

func (w VWord) isConst() (uint64, bool) { return w.E.k, w.E.op == 'k' }

// lit tells whether the word is just an unknown one.
func (w VWord) lit() (int, bool) {
	if w.E.op == 'l' && w.E.l.isConst() && w.E.l.k == 0 {
		return w.E.id, true
	}
	return 0, false
}

func litWord(id int, w int64) VWord { return VWord{&wx{op: 'l', id: id}, w} }

// ---- facts about unknown words

type bitFact struct {
	id  int
	pos Lin
	val bool
}

// Facts holds what is known about unknown words.
type Facts struct {
	K    int // the reference word, 0 if there is none
	W    int64
	C    map[int]Lin // common prefix with K
	bits []bitFact
}

func newFacts() *Facts { return &Facts{C: map[int]Lin{}} }

func (f *Facts) clone() *Facts {
	n := &Facts{K: f.K, W: f.W, C: make(map[int]Lin, len(f.C)), bits: append([]bitFact(nil), f.bits...)}
	for k, v := range f.C {
		n.C[k] = v
	}
	return n
}

func (f *Facts) common(id int) (Lin, bool) {
	if id == f.K {
		return linC(f.W), true
	}
	l, ok := f.C[id]
	return l, ok
}

func (f *Facts) substSym(s Sym, e Lin) {
	for k, v := range f.C {
		f.C[k] = v.subst(s, e)
	}
	for i := range f.bits {
		f.bits[i].pos = f.bits[i].pos.subst(s, e)
	}
}

func (f *Facts) gc(st *State) {
	if f.K == 0 && len(f.C) == 0 && len(f.bits) == 0 {
		return
	}
	used := map[int]bool{f.K: true}
	pos := map[string]bool{}
	var lins []Lin
	st.eachValue(func(v Value) {
		switch x := v.(type) {
		case VWord:
			x.E.ids(func(id int) { used[id] = true })
		case VInt:
			if k := x.L.String(); !pos[k] {
				pos[k] = true
				lins = append(lins, x.L)
			}
		}
	})
	for _, s := range st.subs {
		if s.R != nil && s.R.hasProv {
			ok := true
			s.R.prov.E.ids(func(id int) { ok = ok && used[id] })
			if !ok {
				n := *s.R
				if k := litWord(f.K, f.W); f.K != 0 && st.agree(n.prov, k, n.pB) {
					n.prov = k
				} else {
					n.hasProv, n.prov, n.pB, n.pDir = false, VWord{}, Lin{}, 0
				}
				s.R = &n
			}
		}
	}
	for k := range f.C {
		if !used[k] {
			delete(f.C, k)
		}
	}
	sort.Slice(lins, func(i, j int) bool { return lins[i].String() < lins[j].String() })
	var keep []bitFact
	for _, b := range f.bits {
		if !used[b.id] {
			continue
		}
		if pos[b.pos.String()] {
			keep = append(keep, b)
			continue
		}
		for _, l := range lins {
			if st.eqLin(l, b.pos) {
				b.pos = l
				keep = append(keep, b)
				break
			}
		}
	}
	f.bits = keep
}

func (f *Facts) canon(c *canon) {
	if len(f.bits) == 0 {
		return
	}
	var out []string
	for _, b := range f.bits {
		save := c.b
		c.b = strings.Builder{}
		fmt.Fprintf(&c.b, "%v ", b.val)
		c.ref("w", b.id)
		c.lin(b.pos)
		out = append(out, c.b.String())
		c.b = save
	}
	sort.Strings(out)
	c.b.WriteString("bits " + strings.Join(out, ","))
}

func (f *Facts) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "k=w%d", f.K)
	for _, id := range sortedKeys(f.C) {
		fmt.Fprintf(&b, " C(w%d)=%s", id, f.C[id])
	}
	for _, x := range f.bits {
		fmt.Fprintf(&b, " w%d[%s]=%v", x.id, x.pos, x.val)
	}
	return b.String()
}

func (f *Facts) usedWords(st *State, u map[int]bool) {}

func (f *Facts) meet(o *Facts, l func(Lin) Lin, r func(int) int) {
	for k, v := range o.C {
		if n := r(k); n != f.K {
			if _, ok := f.C[n]; !ok {
				f.C[n] = l(v)
			}
		}
	}
	for _, b := range o.bits {
		n := bitFact{r(b.id), l(b.pos), b.val}
		dup := false
		for _, x := range f.bits {
			if x.id == n.id && x.pos.eq(n.pos) {
				dup = true
			}
		}
		if !dup {
			f.bits = append(f.bits, n)
		}
	}
}

// ---- construction

func isWordType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint32 || b.Kind() == types.Uint64)
}

func wordWidth(t types.Type) int64 {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	}
	return 64
}

func trunc(v uint64, w int64) uint64 {
	if w < 64 {
		v &= 1<<uint(w) - 1
	}
	return v
}

func wordConst(v uint64, w int64) Value { return VWord{&wx{op: 'k', k: trunc(v, w)}, w} }

func mkNot(e *wx, w int64) *wx {
	if e.op == 'k' {
		return &wx{op: 'k', k: trunc(^e.k, w)}
	}
	if e.op == '!' {
		return e.a
	}
	return &wx{op: '!', a: e}
}

func mkBin(op byte, a, b *wx, w int64) *wx {
	if a.op == 'k' && b.op == 'k' {
		var r uint64
		switch op {
		case '&':
			r = a.k & b.k
		case '|':
			r = a.k | b.k
		case '^':
			r = a.k ^ b.k
		}
		return &wx{op: 'k', k: trunc(r, w)}
	}
	if a.op == 'k' {
		a, b = b, a
	}
	if b.op == 'k' {
		all := trunc(^uint64(0), w)
		switch {
		case op == '&' && b.k == 0, op == '|' && b.k == all:
			return b
		case op == '&' && b.k == all, (op == '|' || op == '^') && b.k == 0:
			return a
		case op == '^' && b.k == all:
			return mkNot(a, w)
		}
	}
	return &wx{op: op, a: a, b: b}
}

// shift moves a word left by s positions (right if s is negative); bits which come in are zero.
func (st *State) shift(e *wx, s Lin, w int64) *wx {
	if s.isConst() {
		if s.k == 0 {
			return e
		}
		if s.k >= w || s.k <= -w {
			return &wx{op: 'k'}
		}
		if e.op == 'k' {
			if s.k > 0 {
				return &wx{op: 'k', k: trunc(e.k<<uint(s.k), w)}
			}
			return &wx{op: 'k', k: e.k >> uint(-s.k)}
		}
	}
	switch e.op {
	case 'l':
		return &wx{op: 'l', id: e.id, l: e.l.add(s)}
	case 't':
		// positions p with p+s < t and 0 <= p+s: from -s to t-s
		hi := &wx{op: 't', l: e.l.sub(s)}
		if st.zone.lower(s) >= 0 {
			return hi
		}
		return mkBin('&', hi, mkNot(&wx{op: 't', l: s.neg()}, w), w)
	case 'k':
		if e.k == 0 {
			return e
		}
		var out *wx
		for _, r := range runs(e.k, w) {
			hi := &wx{op: 't', l: linC(r[1]).sub(s)}
			lo := &wx{op: 't', l: linC(r[0]).sub(s)}
			x := mkBin('&', hi, mkNot(lo, w), w)
			if r[0] == 0 {
				x = hi
				if st.zone.lower(s) < 0 {
					x = mkBin('&', hi, mkNot(&wx{op: 't', l: s.neg()}, w), w)
				}
			}
			if out == nil {
				out = x
			} else {
				out = mkBin('|', out, x, w)
			}
		}
		return out
	case '!':
		in := st.shift(e.a, s, w)
		// only positions with 0 <= p+s < w
		r := mkNot(in, w)
		if st.zone.upper(s) > 0 {
			r = mkBin('&', r, &wx{op: 't', l: linC(w).sub(s)}, w)
		}
		if st.zone.lower(s) < 0 {
			r = mkBin('&', r, mkNot(&wx{op: 't', l: s.neg()}, w), w)
		}
		return r
	}
	return mkBin(e.op, st.shift(e.a, s, w), st.shift(e.b, s, w), w)
}

// runs lists the runs of ones of a constant by position.
func runs(k uint64, w int64) [][2]int64 {
	var out [][2]int64
	for p := int64(0); p < w; {
		if k>>uint(w-1-p)&1 == 0 {
			p++
			continue
		}
		q := p
		for q < w && k>>uint(w-1-q)&1 == 1 {
			q++
		}
		out = append(out, [2]int64{p, q})
		p = q
	}
	return out
}

func (st *State) wordNot(v Value, w int64) Value {
	x, ok := v.(VWord)
	if !ok {
		st.abort("undecided", "bitwise operation on %s", st.show(v))
	}
	return VWord{mkNot(x.E, w), w}
}

func (st *State) wordConvert(v Value, from, to types.Type) Value {
	x, ok := v.(VWord)
	if !ok {
		if i, ok := v.(VInt); ok {
			if i.L.isConst() && isWordType(to) {
				return wordConst(uint64(i.L.k), wordWidth(to))
			}
			return VInt{st.fit(i.L, to)}
		}
		if q, ok := v.(VOpq); ok {
			return VApp{F: "conv:" + to.String(), Args: []Value{q}}
		}
		st.abort("undecided", "conversion of %s", st.show(v))
	}
	k, isC := x.isConst()
	if isWordType(to) {
		if isC {
			return wordConst(k, wordWidth(to))
		}
		if wordWidth(to) == x.W {
			return x
		}
		if st.eng.ob.bytes {
			return st.widen(x, wordWidth(to))
		}
	}
	if isC {
		if k < 1<<62 {
			return VInt{st.fit(linC(int64(k)), to)}
		}
		st.abort("undecided", "conversion of a large constant")
	}
	if st.eng.ob.bytes {
		return st.lowBits(x, to)
	}
	r := VInt{st.fit(linC(st.wordToSmall(x)), to)}
	if isWordType(to) {
		return wordConst(uint64(r.L.k), wordWidth(to))
	}
	return r
}

// asWord views an operand as a word.
func (st *State) asWord(v Value, w int64) (VWord, bool) {
	switch x := v.(type) {
	case VWord:
		return x, true
	case VInt:
		if x.L.isConst() {
			return wordConst(uint64(x.L.k), w).(VWord), true
		}
	}
	return VWord{}, false
}

func (st *State) wordBinop(op token.Token, a, b Value, at, bt, rt types.Type) (Value, bool) {
	w := wordWidth(rt)
	_, wa := a.(VWord)
	_, wb := b.(VWord)
	if op == token.SHL || op == token.SHR {
		x, ok := a.(VWord)
		if !ok {
			return nil, false
		}
		if k, isC := x.isConst(); isC && k == 0 {
			return x, true
		}
		s := st.toInt(b)
		if !isUnsigned(bt) && !st.decideLE0(s.neg()) {
			st.abort("panic", "negative shift amount")
		}
		if !st.decideLE0(s.addC(1 - w)) {
			return wordConst(0, w), true
		}
		if op == token.SHR {
			s = s.neg()
		}
		return VWord{st.shift(x.E, s, w), w}, true
	}
	if !wa && !wb {
		return nil, false
	}
	x, ok1 := st.asWord(a, w)
	y, ok2 := st.asWord(b, w)
	if !ok1 || !ok2 {
		return nil, false
	}
	switch op {
	case token.AND:
		return VWord{mkBin('&', x.E, y.E, w), w}, true
	case token.OR:
		return VWord{mkBin('|', x.E, y.E, w), w}, true
	case token.XOR:
		return VWord{mkBin('^', x.E, y.E, w), w}, true
	case token.AND_NOT:
		return VWord{mkBin('&', x.E, mkNot(y.E, w), w), w}, true
	}
	kx, c1 := x.isConst()
	ky, c2 := y.isConst()
	if c1 && c2 {
		var r uint64
		switch op {
		case token.ADD:
			r = kx + ky
		case token.SUB:
			r = kx - ky
		case token.MUL:
			r = kx * ky
		case token.QUO, token.REM:
			if ky == 0 {
				st.abort("panic", "division by zero")
			}
			r = kx / ky
			if op == token.REM {
				r = kx % ky
			}
		default:
			return nil, false
		}
		return wordConst(r, w), true
	}
	if p, ok := single(x.E); ok && op == token.SUB && c2 && ky == 1 {
		return VWord{mkNot(&wx{op: 't', l: p.addC(1)}, w), w}, true
	}
	if p, ok := single(y.E); ok && op == token.SUB && c1 && kx == 0 {
		return VWord{&wx{op: 't', l: p.addC(1)}, w}, true
	}
	// small values
	sx, sy := st.toInt(a), st.toInt(b)
	r, ok := constOp(op, sx.k, sy.k)
	if !ok || !sx.isConst() || !sy.isConst() {
		return nil, false
	}
	return wordConst(uint64(r), w), true
}

// single recognises a word with just one bit set.
func single(e *wx) (Lin, bool) {
	if e.op == '&' && e.a.op == 't' && e.b.op == '!' && e.b.a.op == 't' {
		if d := e.a.l.sub(e.b.a.l); d.isConst() && d.k == 1 {
			return e.b.a.l, true
		}
	}
	return Lin{}, false
}

// ---- evaluation

type segEval struct {
	st *State
	w  int64
	th []Lin // sorted; th[0] = 0, th[last] = w
}

func (e *wx) thresholds(w int64, f func(Lin)) {
	switch e.op {
	case 't':
		f(e.l)
	case 'l':
		if !e.l.isConst() || e.l.k != 0 {
			f(e.l.neg())
			f(linC(w).sub(e.l))
		}
	case 'k':
		for _, r := range runs(e.k, w) {
			f(linC(r[0]))
			f(linC(r[1]))
		}
	default:
		e.a.thresholds(w, f)
		if e.b != nil {
			e.b.thresholds(w, f)
		}
	}
}

// split orders the positions where the expression changes, forking when needed.
func (st *State) split(e *wx, w int64, extra ...Lin) *segEval {
	s := &segEval{st: st, w: w}
	ts := []Lin{}
	add := func(l Lin) {
		if st.zone.upper(l) <= 0 || st.zone.lower(l) >= w {
			return
		}
		for _, t := range ts {
			if st.eqLin(t, l) {
				return
			}
		}
		ts = append(ts, l)
	}
	e.thresholds(w, add)
	for _, x := range extra {
		add(x)
	}
	// clip to [0,w]
	var in []Lin
	for _, t := range ts {
		if !st.decideLE0(t.neg()) || !st.decideLE0(t.addC(-w)) {
			continue
		}
		in = append(in, t)
	}
	var out []Lin
	for _, t := range in {
		i := len(out)
		for i > 0 && st.decideLE0(t.sub(out[i-1]).addC(1)) {
			i--
		}
		out = append(out[:i], append([]Lin{t}, out[i:]...)...)
	}
	s.th = append([]Lin{linC(0)}, out...)
	s.th = append(s.th, linC(w))
	return s
}

// at evaluates the expression between positions a and b for one assignment of the unknown bits.
func (s *segEval) at(e *wx, a, b Lin, val func(id int, off Lin) bool) bool {
	z := s.st.zone
	switch e.op {
	case 't':
		if z.upper(b.sub(e.l)) <= 0 {
			return true
		}
		if z.lower(a.sub(e.l)) >= 0 {
			return false
		}
		s.st.abort("undecided", "bit range isn't resolved")
	case 'l':
		if !e.l.isConst() || e.l.k != 0 {
			// p+off in [0,w)
			lo, hi := e.l.neg(), linC(s.w).sub(e.l)
			if z.upper(b.sub(lo)) <= 0 || z.lower(a.sub(hi)) >= 0 {
				return false
			}
			if !(z.lower(a.sub(lo)) >= 0 && z.upper(b.sub(hi)) <= 0) {
				s.st.abort("undecided", "bit range isn't resolved")
			}
		}
		return val(e.id, e.l)
	case 'k':
		if a.isConst() && b.isConst() && a.k < b.k {
			return e.k>>uint(s.w-1-a.k)&1 == 1
		}
		for _, r := range runs(e.k, s.w) {
			if z.upper(linC(r[0]).sub(a)) <= 0 && z.upper(b.addC(-r[1])) <= 0 {
				return true
			}
		}
		return false
	case '!':
		return !s.at(e.a, a, b, val)
	case '&':
		return s.at(e.a, a, b, val) && s.at(e.b, a, b, val)
	case '|':
		return s.at(e.a, a, b, val) || s.at(e.b, a, b, val)
	case '^':
		return s.at(e.a, a, b, val) != s.at(e.b, a, b, val)
	}
	return false
}

type litRef struct {
	id  int
	off Lin
}

func (e *wx) lits(out *[]litRef) {
	switch e.op {
	case 'l':
		for _, r := range *out {
			if r.id == e.id && r.off.eq(e.l) {
				return
			}
		}
		*out = append(*out, litRef{e.id, e.l})
	case 't', 'k':
	default:
		e.a.lits(out)
		if e.b != nil {
			e.b.lits(out)
		}
	}
}

// shape of an expression on a range: constant, a literal, the difference of two, or anything
type rangeShape struct {
	kind byte // '0', '1', 'l' literal, 'n' negated literal, '^' difference, '?' anything
	x, y litRef
}

func (s *segEval) shape(e *wx, a, b Lin) rangeShape {
	var ls []litRef
	e.lits(&ls)
	if len(ls) > 6 {
		s.st.abort("undecided", "bitwise expression over more than 6 words")
	}
	n := uint(len(ls))
	tab := make([]bool, 1<<n)
	for m := range tab {
		tab[m] = s.at(e, a, b, func(id int, off Lin) bool {
			for i, r := range ls {
				if r.id == id && r.off.eq(off) {
					return m>>uint(i)&1 == 1
				}
			}
			return false
		})
	}
	is := func(f func(m int) bool) bool {
		for m := range tab {
			if tab[m] != f(m) {
				return false
			}
		}
		return true
	}
	if is(func(int) bool { return false }) {
		return rangeShape{kind: '0'}
	}
	if is(func(int) bool { return true }) {
		return rangeShape{kind: '1'}
	}
	for i := range ls {
		i := uint(i)
		if is(func(m int) bool { return m>>i&1 == 1 }) {
			return rangeShape{kind: 'l', x: ls[i]}
		}
		if is(func(m int) bool { return m>>i&1 == 0 }) {
			return rangeShape{kind: 'n', x: ls[i]}
		}
		for j := uint(0); j < i; j++ {
			if is(func(m int) bool { return m>>i&1 != m>>j&1 }) {
				return rangeShape{kind: '^', x: ls[i], y: ls[j]}
			}
		}
	}
	return rangeShape{kind: '?'}
}

// diff is the first position where two unknown words may differ; exact tells that they do (or that it's w).
func (st *State) diff(x, y litRef) (c Lin, exact bool) {
	f := st.facts
	if !x.off.eq(y.off) {
		if !st.eqLin(x.off, y.off) {
			return linC(0), false
		}
		y.off = x.off
	}
	if !x.off.isConst() || x.off.k != 0 {
		off := x.off
		x.off, y.off = Lin{}, Lin{}
		c, exact = st.diff(x, y)
		return c.sub(off), exact
	}
	if y.id == f.K {
		x, y = y, x
	}
	cy, ok := f.common(y.id)
	if !ok {
		return linC(0), false
	}
	if x.id == f.K {
		return cy, true
	}
	cx, ok := f.common(x.id)
	if !ok {
		return linC(0), false
	}
	if st.eqLin(cx, cy) {
		return cx.addC(1), false
	}
	if st.decideLE0(cx.sub(cy).addC(1)) {
		return cx, true
	}
	if st.decideLE0(cy.sub(cx).addC(1)) {
		return cy, true
	}
	return cx.addC(1), false
}

// clz is the position of the first one.
func (st *State) clz(v VWord) Lin {
	if k, ok := v.isConst(); ok {
		n := int64(0)
		for n < v.W && k>>uint(v.W-1-n)&1 == 0 {
			n++
		}
		return linC(n)
	}
	s := st.split(v.E, v.W)
	havoc := func(a Lin) Lin {
		r := linS(st.newSym())
		st.zone.assumeLE0(a.sub(r))
		st.zone.assumeLE0(r.addC(-v.W))
		return r
	}
	for i := 0; i+1 < len(s.th); i++ {
		a, b := s.th[i], s.th[i+1]
		if st.zone.upper(b.sub(a)) <= 0 {
			continue
		}
		sh := s.shape(v.E, a, b)
		switch sh.kind {
		case '0':
			continue
		case '1':
			if st.decideLE0(b.sub(a)) {
				continue
			}
			return a
		case '^':
			c, exact := st.diff(sh.x, sh.y)
			if st.decideLE0(b.sub(c)) {
				continue
			}
			if exact && st.decideLE0(a.sub(c)) {
				return c
			}
			return havoc(a)
		case 'l', 'n':
			if st.eqLin(b, a.addC(1)) {
				if st.bit(sh.x.id, a.add(sh.x.off)) == (sh.kind == 'l') {
					return a
				}
				continue
			}
			return havoc(a)
		default:
			return havoc(a)
		}
	}
	return linC(v.W)
}

// isZero tells whether a word is zero, as a boolean which may be unknown.
func (st *State) isZero(v VWord) VBool {
	no, yes := VBool{Known: true}, VBool{Known: true, Val: true}
	if k, ok := v.isConst(); ok {
		return VBool{Known: true, Val: k == 0}
	}
	s := st.split(v.E, v.W)
	open := false
	for i := 0; i+1 < len(s.th); i++ {
		a, b := s.th[i], s.th[i+1]
		if st.zone.upper(b.sub(a)) <= 0 {
			continue
		}
		sh := s.shape(v.E, a, b)
		switch sh.kind {
		case '0':
			continue
		case '1':
			if st.decideLE0(b.sub(a)) {
				continue
			}
			return no
		case '^':
			c, exact := st.diff(sh.x, sh.y)
			if st.decideLE0(b.sub(c)) {
				continue
			}
			if exact && st.decideLE0(a.sub(c)) {
				return no
			}
			open = true
		case 'l', 'n':
			if st.eqLin(b, a.addC(1)) {
				if st.bit(sh.x.id, a.add(sh.x.off)) == (sh.kind == 'l') {
					return no
				}
				continue
			}
			open = true
		default:
			open = true
		}
	}
	if open {
		return VBool{ID: st.id()}
	}
	return yes
}

// knownBit looks a bit up without forking.
func (st *State) knownBit(id int, p Lin) (val, ok bool) {
	f := st.facts
	for _, b := range f.bits {
		if b.id == id && st.eqLin(b.pos, p) {
			return b.val, true
		}
	}
	if id != f.K {
		if c, ok := f.common(id); ok {
			if st.zone.upper(p.addC(1).sub(c)) <= 0 {
				return st.knownBit(f.K, p)
			}
			if st.eqLin(c, p) && st.zone.upper(p.addC(1-f.W)) <= 0 {
				v, ok := st.knownBit(f.K, p)
				return !v, ok
			}
		}
	}
	return false, false
}

// bit decides a bit of an unknown word, forking when open.
func (st *State) bit(id int, p Lin) bool {
	f := st.facts
	if v, ok := st.knownBit(id, p); ok {
		return v
	}
	if id != f.K {
		if c, ok := f.common(id); ok {
			if st.decideLE0(p.addC(1).sub(c)) {
				return st.bit(f.K, p)
			}
			if st.decideLE0(p.sub(c)) {
				return !st.bit(f.K, p)
			}
		}
	}
	st.fork(func(c *State) bool { c.facts.bits = append(c.facts.bits, bitFact{id, p, false}); return true },
		func(c *State) bool { c.facts.bits = append(c.facts.bits, bitFact{id, p, true}); return true })
	return false
}

// wordToSmall is the value of a word of which only the last bit may be set.
func (st *State) wordToSmall(v VWord) int64 {
	if k, ok := v.isConst(); ok {
		if k >= 1<<62 {
			st.abort("undecided", "large constant")
		}
		return int64(k)
	}
	s := st.split(v.E, v.W, linC(v.W-1))
	r := int64(0)
	for i := 0; i+1 < len(s.th); i++ {
		a, b := s.th[i], s.th[i+1]
		if st.zone.upper(b.sub(a)) <= 0 {
			continue
		}
		sh := s.shape(v.E, a, b)
		if sh.kind == '0' {
			continue
		}
		last := st.eqLin(a, linC(v.W-1)) && st.eqLin(b, linC(v.W))
		switch {
		case last && sh.kind == '1':
			r = 1
		case last && (sh.kind == 'l' || sh.kind == 'n'):
			if st.bit(sh.x.id, a.add(sh.x.off)) == (sh.kind == 'l') {
				r = 1
			}
		case last && sh.kind == '^':
			if st.bit(sh.x.id, a.add(sh.x.off)) != st.bit(sh.y.id, a.add(sh.y.off)) {
				r = 1
			}
		default:
			st.abort("undecided", "the value of %s is used as a number", v)
		}
	}
	return r
}

func (st *State) wordEqualV(a, b Value, t types.Type) VBool {
	w := wordWidth(t)
	x, ok1 := st.asWord(a, w)
	y, ok2 := st.asWord(b, w)
	if !ok1 || !ok2 {
		return VBool{Known: true, Val: st.decideEQ0(st.toInt(a).sub(st.toInt(b)))}
	}
	return st.isZero(VWord{mkBin('^', x.E, y.E, w), w})
}

func (st *State) wordEqual(a, b Value) bool {
	if _, ok := a.(VOpq); ok && valSame(a, b) {
		return true
	}
	x, ok := a.(VWord)
	y, ok2 := b.(VWord)
	if ok && ok2 {
		if r := st.isZero(VWord{mkBin('^', x.E, y.E, x.W), x.W}); r.Known {
			return r.Val
		}
		st.abort("undecided", "comparison of words")
	}
	return st.decideEQ0(st.toInt(a).sub(st.toInt(b)))
}

func (st *State) wordCompare(op token.Token, a, b Value) Value {
	x, ok := a.(VWord)
	y, ok2 := b.(VWord)
	less := func(k bool) Value { return VBool{Known: true, Val: k} }
	if ok && ok2 {
		if op == token.GTR || op == token.LEQ {
			x, y = y, x
		}
		// x < y
		neg := op == token.LEQ || op == token.GEQ
		kx, c1 := x.isConst()
		ky, c2 := y.isConst()
		if c1 && c2 {
			return less((kx < ky) != neg)
		}
		d := VWord{mkBin('^', x.E, y.E, x.W), x.W}
		p := st.clz(d)
		if st.decideLE0(linC(x.W).sub(p)) {
			return less(neg)
		}
		if id, ok := y.lit(); ok {
			return less(st.bit(id, p) != neg)
		}
		if id, ok := x.lit(); ok {
			return less(!st.bit(id, p) != neg)
		}
		return VBool{ID: st.id()}
	}
	i, j := st.toInt(a), st.toInt(b)
	var r bool
	switch op {
	case token.LSS:
		r = st.decideLE0(i.sub(j).addC(1))
	case token.LEQ:
		r = st.decideLE0(i.sub(j))
	case token.GTR:
		r = !st.decideLE0(i.sub(j))
	default:
		r = !st.decideLE0(i.sub(j).addC(1))
	}
	return less(r)
}

// agree tells (without forking) that two words are equal before position n.
func (st *State) agree(x, y VWord, n Lin) bool {
	if x.same(y) || st.zone.upper(n) <= 0 {
		return true
	}
	k, hasK := st.facts.K, st.facts.K != 0
	ok := true
	var at func(e *wx, val func(id int) bool) bool
	at = func(e *wx, val func(id int) bool) bool {
		switch e.op {
		case 't':
			if st.zone.lower(e.l.sub(n)) >= 0 {
				return true
			}
			if st.zone.upper(e.l) > 0 {
				ok = false
			}
			return false
		case 'l':
			if !e.l.isConst() || e.l.k != 0 {
				ok = false
			}
			id := e.id
			if c, has := st.facts.common(id); has && hasK && st.zone.lower(c.sub(n)) >= 0 {
				id = k
			}
			return val(id)
		case 'k':
			rs := runs(e.k, x.W)
			if len(rs) == 0 {
				return false
			}
			if rs[0][0] == 0 && st.zone.upper(n.addC(-rs[0][1])) <= 0 {
				return true
			}
			if st.zone.upper(n.addC(-rs[0][0])) > 0 {
				ok = false
			}
			return false
		case '!':
			return !at(e.a, val)
		}
		p, q := at(e.a, val), at(e.b, val)
		switch e.op {
		case '&':
			return p && q
		case '|':
			return p || q
		}
		return p != q
	}
	d := mkBin('^', x.E, y.E, x.W)
	var ls []litRef
	d.lits(&ls)
	if len(ls) > 6 {
		return false
	}
	ids := []int{k}
	for _, l := range ls {
		ids = append(ids, l.id)
	}
	for m := 0; m < 1<<uint(len(ids)); m++ {
		if at(d, func(id int) bool {
			for i, j := range ids {
				if j == id {
					return m>>uint(i)&1 == 1
				}
			}
			return false
		}) {
			return false
		}
		if !ok {
			return false
		}
	}
	return true
}

// ---- constant tables

type table struct {
	vals []uint64
	w    int64
	word bool
}

// table reads the contents of a package variable which is a table of integers and never changes.
func (p *Program) table(g *ssa.Global) *table {
	if !p.constGlobal(g) {
		return nil
	}
	t := deref(g.Type())
	var elem types.Type
	n := int64(-1)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		elem = u.Elem()
	case *types.Array:
		elem, n = u.Elem(), u.Len()
	default:
		return nil
	}
	b, ok := elem.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || g.Pkg == nil {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	var base ssa.Value = g
	if n < 0 {
		s := p.globalInit(g)
		if s == nil {
			return nil
		}
		sl, ok := s.Val.(*ssa.Slice)
		if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
			return nil
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		at, ok := deref(al.Type()).Underlying().(*types.Array)
		if !ok {
			return nil
		}
		base, n = al, at.Len()
	}
	if n > 4096 {
		return nil
	}
	r := &table{vals: make([]uint64, n), w: wordWidth(elem), word: isWordType(elem)}
	for _, bl := range init.Blocks {
		for _, ins := range bl.Instrs {
			if s, ok := ins.(*ssa.Store); ok && s.Addr == base {
				return nil
			}
			ia, ok := ins.(*ssa.IndexAddr)
			if !ok || ia.X != base {
				continue
			}
			ic, ok := ia.Index.(*ssa.Const)
			if !ok || ia.Referrers() == nil {
				return nil
			}
			i, ok := constInt(ic)
			if !ok || i < 0 || i >= n {
				return nil
			}
			for _, rf := range *ia.Referrers() {
				s, ok := rf.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(ia) {
					return nil
				}
				c, ok := s.Val.(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
					return nil
				}
				r.vals[i] = trunc(c.Uint64(), r.w)
				if c.Uint64() > 1<<62 && !r.word {
					r.vals[i] = uint64(c.Int64())
				}
			}
		}
	}
	return r
}

// prefixMasks tells whether element i has ones in its first i positions.
func (t *table) prefixMasks() bool {
	if !t.word || int64(len(t.vals)) != t.w+1 {
		return false
	}
	for i, v := range t.vals {
		var m uint64
		if i > 0 {
			m = trunc(^uint64(0)<<uint(t.w-int64(i)), t.w)
		}
		if v != m {
			return false
		}
	}
	return true
}

func (st *State) tableElem(g *ssa.Global, i Lin) Value {
	t := st.eng.prog.table(g)
	if t == nil {
		st.abort("undecided", "element of package variable %s", g)
	}
	st.boundsCheck(i, linC(int64(len(t.vals))))
	if i.isConst() {
		if t.word {
			return wordConst(t.vals[i.k], t.w)
		}
		return VInt{linC(int64(t.vals[i.k]))}
	}
	if t.prefixMasks() {
		return VWord{&wx{op: 't', l: i}, t.w}
	}
	if !t.word {
		return VInt{st.piecewise(i, func(v int64) (int64, bool) { return int64(t.vals[v]), true })}
	}
	// group runs of equal values
	var alts []func(c *State) bool
	for lo := 0; lo < len(t.vals); {
		hi := lo
		for hi+1 < len(t.vals) && t.vals[hi+1] == t.vals[lo] {
			hi++
		}
		l, h := int64(lo), int64(hi)
		alts = append(alts, func(c *State) bool {
			return c.zone.assumeLE0(i.addC(-h)) && c.zone.assumeLE0(i.neg().addC(l))
		})
		if st.zone.lower(i) >= l && st.zone.upper(i) <= h {
			return wordConst(t.vals[lo], t.w)
		}
		lo = hi + 1
	}
	if len(alts) > 70 {
		st.abort("undecided", "table look-up")
	}
	st.fork(alts...)
	return nil
}

func (st *State) globElem(g *ssa.Global, i Value) Value {
	return VElem{Tab: g, I: st.toInt(i)}
}

func (st *State) loadElem(e VElem) Value {
	if e.Tab != nil {
		return st.tableElem(e.Tab, e.I)
	}
	return st.loadArr(e)
}

func (st *State) extBits(fn *ssa.Function, args []Value) (Value, bool) {
	name := fn.String()
	if !strings.HasPrefix(name, "math/bits.") || len(args) != 1 {
		return nil, false
	}
	w := map[string]int64{"64": 64, "32": 32}
	for suf, n := range w {
		switch name {
		case "math/bits.LeadingZeros" + suf:
			if x, ok := st.asWord(args[0], n); ok {
				return VInt{st.clz(x)}, true
			}
		case "math/bits.Len" + suf:
			if x, ok := st.asWord(args[0], n); ok {
				return VInt{linC(n).sub(st.clz(x))}, true
			}
		}
	}
	return nil, false
}

func (c *canon) word1(e *wx) {
	switch e.op {
	case 'l':
		if c.ref("w", e.id) {
			if l, ok := c.st.facts.C[e.id]; ok {
				c.b.WriteString("/C")
				c.lin(l)
			}
		}
		if !e.l.isConst() || e.l.k != 0 {
			c.b.WriteString("<<")
			c.lin(e.l)
		}
	case 't':
		c.b.WriteString("ones")
		c.lin(e.l)
	case 'k':
		fmt.Fprintf(&c.b, "%#x", e.k)
	default:
		c.b.WriteByte(e.op)
		c.b.WriteByte('(')
		c.word1(e.a)
		if e.b != nil {
			c.b.WriteByte(',')
			c.word1(e.b)
		}
		c.b.WriteByte(')')
	}
}

func (c *canon) extra(v Value) {
	switch x := v.(type) {
	case VWord:
		c.word1(x.E)
		return
	case VTable:
		c.b.WriteString("T" + x.G.String())
		return
	case VElem:
		if x.Tab != nil {
			c.b.WriteString("E" + x.Tab.String())
			c.lin(x.I)
			return
		}
		c.val(VPtr{x.O, x.P})
		c.lin(x.I)
		return
	case VBytes:
		c.b.WriteString(x.String())
		return
	}
	c.b.WriteString("?")
}
