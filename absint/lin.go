package main

import (
	"fmt"
	"sort"
	"strings"
)

// Sym names an unknown integer of the abstract state.
type Sym int

const inf = int64(1) << 60

type term struct {
	s Sym
	c int64
}

// Lin is a linear expression over integer symbols.
type Lin struct {
	t []term
	k int64
}

func linC(k int64) Lin { return Lin{k: k} }
func linS(s Sym) Lin   { return Lin{t: []term{{s, 1}}} }

func (a Lin) isConst() bool { return len(a.t) == 0 }

func (a Lin) add(b Lin) Lin {
	if len(b.t) == 0 {
		return Lin{a.t, a.k + b.k}
	}
	if len(a.t) == 0 {
		return Lin{b.t, a.k + b.k}
	}
	out := make([]term, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || i < len(a.t) && a.t[i].s < b.t[j].s:
			out = append(out, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].s < a.t[i].s:
			out = append(out, b.t[j])
			j++
		default:
			if c := a.t[i].c + b.t[j].c; c != 0 {
				out = append(out, term{a.t[i].s, c})
			}
			i++
			j++
		}
	}
	return Lin{out, a.k + b.k}
}

func (a Lin) addC(k int64) Lin { return Lin{a.t, a.k + k} }

func (a Lin) scale(c int64) Lin {
	if c == 0 {
		return Lin{}
	}
	out := make([]term, len(a.t))
	for i, t := range a.t {
		out[i] = term{t.s, t.c * c}
	}
	return Lin{out, a.k * c}
}

func (a Lin) neg() Lin      { return a.scale(-1) }
func (a Lin) sub(b Lin) Lin { return a.add(b.neg()) }
func (a Lin) eq(b Lin) bool { d := a.sub(b); return d.isConst() && d.k == 0 }

// subst replaces symbol s by expression e.
func (a Lin) subst(s Sym, e Lin) Lin {
	for i, t := range a.t {
		if t.s == s {
			rest := make([]term, 0, len(a.t)-1)
			rest = append(rest, a.t[:i]...)
			rest = append(rest, a.t[i+1:]...)
			return Lin{rest, a.k}.add(e.scale(t.c))
		}
	}
	return a
}

func (a Lin) rename(f func(Sym) Sym) Lin {
	if len(a.t) == 0 {
		return a
	}
	out := make([]term, len(a.t))
	for i, t := range a.t {
		out[i] = term{f(t.s), t.c}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].s < out[j].s })
	return Lin{out, a.k}
}

func (a Lin) String() string {
	if len(a.t) == 0 {
		return fmt.Sprint(a.k)
	}
	var b strings.Builder
	for i, t := range a.t {
		if t.c == 1 {
			if i > 0 {
				b.WriteByte('+')
			}
		} else if t.c == -1 {
			b.WriteByte('-')
		} else {
			fmt.Fprintf(&b, "%+d*", t.c)
		}
		fmt.Fprintf(&b, "i%d", t.s)
	}
	if a.k != 0 {
		fmt.Fprintf(&b, "%+d", a.k)
	}
	return b.String()
}

// Zone is a difference-bound matrix over integer symbols: m[i][j] bounds x_i - x_j from above.
// Index 0 stands for the constant zero.
type Zone struct {
	idx map[Sym]int
	sym []Sym
	m   [][]int64
}

func newZone() *Zone {
	return &Zone{idx: map[Sym]int{}, sym: []Sym{-1}, m: [][]int64{{0}}}
}

func (z *Zone) clone() *Zone {
	n := &Zone{idx: make(map[Sym]int, len(z.idx)), sym: append([]Sym(nil), z.sym...), m: make([][]int64, len(z.m))}
	for k, v := range z.idx {
		n.idx[k] = v
	}
	for i, r := range z.m {
		n.m[i] = append([]int64(nil), r...)
	}
	return n
}

func (z *Zone) at(s Sym) int {
	if i, ok := z.idx[s]; ok {
		return i
	}
	i := len(z.sym)
	z.idx[s] = i
	z.sym = append(z.sym, s)
	for j := range z.m {
		z.m[j] = append(z.m[j], inf)
	}
	row := make([]int64, i+1)
	for j := range row {
		row[j] = inf
	}
	row[i] = 0
	z.m = append(z.m, row)
	return i
}

// le adds x_i - x_j <= c and reports feasibility.
func (z *Zone) le(i, j int, c int64) bool {
	if i == j {
		return c >= 0
	}
	if z.m[i][j] <= c {
		return true
	}
	if z.m[j][i] < inf && z.m[j][i]+c < 0 {
		return false
	}
	n := len(z.m)
	for a := 0; a < n; a++ {
		ai := z.m[a][i]
		if ai >= inf {
			continue
		}
		for b := 0; b < n; b++ {
			jb := z.m[j][b]
			if jb >= inf {
				continue
			}
			if v := ai + c + jb; v < z.m[a][b] {
				z.m[a][b] = v
			}
		}
	}
	for a := 0; a < n; a++ {
		if z.m[a][a] < 0 {
			return false
		}
	}
	return true
}

func (z *Zone) symBounds(s Sym) (int64, int64) {
	i, ok := z.idx[s]
	if !ok {
		return -inf, inf
	}
	hi := z.m[i][0]
	lo := -inf
	if z.m[0][i] < inf {
		lo = -z.m[0][i]
	}
	return lo, hi
}

func satAdd(a, b int64) int64 {
	if a >= inf || b >= inf {
		return inf
	}
	if a <= -inf || b <= -inf {
		return -inf
	}
	return a + b
}

// upper computes an upper bound of an expression.
func (z *Zone) upper(e Lin) int64 {
	if len(e.t) == 0 {
		return e.k
	}
	// pair up one +1 and one -1 term greedily in all ways when there are few terms
	return satAdd(z.upTerms(e.t), e.k)
}

func (z *Zone) upTerms(ts []term) int64 {
	if len(ts) == 0 {
		return 0
	}
	t := ts[0]
	lo, hi := z.symBounds(t.s)
	var best int64
	if t.c > 0 {
		if hi >= inf {
			best = inf
		} else {
			best = satAdd(hi*t.c, z.upTerms(ts[1:]))
		}
	} else {
		if lo <= -inf {
			best = inf
		} else {
			best = satAdd(lo*t.c, z.upTerms(ts[1:]))
		}
	}
	if t.c > 3 || t.c < -3 {
		return best
	}
	// pair with an opposite term
	for i := 1; i < len(ts); i++ {
		u := ts[i]
		if (u.c > 0) == (t.c > 0) {
			continue
		}
		var p, q Sym
		m := t.c
		if m < 0 {
			m = -m
			p, q = u.s, t.s
		} else {
			p, q = t.s, u.s
		}
		um := u.c
		if um < 0 {
			um = -um
		}
		if um < m {
			m = um
		}
		pi, ok1 := z.idx[p]
		qi, ok2 := z.idx[q]
		if !ok1 || !ok2 || z.m[pi][qi] >= inf {
			continue
		}
		rest := make([]term, 0, len(ts))
		for k, w := range ts {
			c := w.c
			if k == 0 || k == i {
				if c > 0 {
					c -= m
				} else {
					c += m
				}
			}
			if c != 0 {
				rest = append(rest, term{w.s, c})
			}
		}
		if v := satAdd(z.m[pi][qi]*m, z.upTerms(rest)); v < best {
			best = v
		}
	}
	return best
}

func (z *Zone) lower(e Lin) int64 {
	u := z.upper(e.neg())
	if u >= inf {
		return -inf
	}
	return -u
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// assumeLE0 adds e <= 0 (soundly weakened where the form is outside the domain) and reports feasibility.
func (z *Zone) assumeLE0(e Lin) bool {
	if z.lower(e) > 0 {
		return false
	}
	if z.upper(e) <= 0 {
		return true
	}
	switch len(e.t) {
	case 0:
		return e.k <= 0
	case 1:
		t := e.t[0]
		i := z.at(t.s)
		if t.c > 0 {
			return z.le(i, 0, floorDiv(-e.k, t.c))
		}
		return z.le(0, i, floorDiv(-e.k, -t.c))
	case 2:
		a, b := e.t[0], e.t[1]
		if a.c == 1 && b.c == -1 {
			return z.le(z.at(a.s), z.at(b.s), -e.k)
		}
		if a.c == -1 && b.c == 1 {
			return z.le(z.at(b.s), z.at(a.s), -e.k)
		}
	}
	// derive what each single term and each opposite pair implies from the bounds of the rest
	for i, t := range e.t {
		rest := e.add(Lin{t: []term{{t.s, -t.c}}})
		lo := z.lower(rest)
		if lo > -inf {
			x := z.at(t.s)
			ok := true
			if t.c > 0 {
				ok = z.le(x, 0, floorDiv(-lo, t.c))
			} else {
				ok = z.le(0, x, floorDiv(-lo, -t.c))
			}
			if !ok {
				return false
			}
		}
		for j := i + 1; j < len(e.t); j++ {
			u := e.t[j]
			if t.c*u.c != -1 {
				continue
			}
			rest2 := rest.add(Lin{t: []term{{u.s, -u.c}}})
			lo := z.lower(rest2)
			if lo <= -inf {
				continue
			}
			p, q := t.s, u.s
			if t.c < 0 {
				p, q = q, p
			}
			if !z.le(z.at(p), z.at(q), -lo) {
				return false
			}
		}
	}
	return true
}

func (z *Zone) assumeEQ0(e Lin) bool { return z.assumeLE0(e) && z.assumeLE0(e.neg()) }

// project keeps only the given symbols, renamed.
func (z *Zone) project(keep []Sym, to []Sym) *Zone {
	n := newZone()
	ix := []int{0}
	for _, s := range to {
		n.at(s)
	}
	for _, s := range keep {
		if i, ok := z.idx[s]; ok {
			ix = append(ix, i)
		} else {
			ix = append(ix, -1)
		}
	}
	for a := range ix {
		for b := range ix {
			if a != b && ix[a] >= 0 && ix[b] >= 0 {
				n.m[a][b] = z.m[ix[a]][ix[b]]
			}
		}
	}
	return n
}

// leq reports whether z is included in o (same symbol order).
func (z *Zone) leq(o *Zone) bool {
	for i := range o.m {
		for j := range o.m {
			if z.m[i][j] > o.m[i][j] {
				return false
			}
		}
	}
	return true
}

// join is the least upper bound (both closed, same symbol order).
func (z *Zone) join(o *Zone) *Zone {
	n := z.clone()
	for i := range n.m {
		for j := range n.m {
			if o.m[i][j] > n.m[i][j] {
				n.m[i][j] = o.m[i][j]
			}
		}
	}
	return n
}

// widen relaxes the bounds of z that o violates to the next threshold.
func (z *Zone) widen(o *Zone, th []int64) *Zone {
	n := z.clone()
	for i := range n.m {
		for j := range n.m {
			if o.m[i][j] > n.m[i][j] {
				v := inf
				for _, t := range th {
					if t >= o.m[i][j] && t < v {
						v = t
					}
				}
				n.m[i][j] = v
			}
		}
	}
	return n
}

func (z *Zone) String() string {
	var out []string
	for i := range z.m {
		for j := range z.m {
			if i == j || z.m[i][j] >= inf {
				continue
			}
			switch {
			case j == 0:
				out = append(out, fmt.Sprintf("i%d<=%d", z.sym[i], z.m[i][0]))
			case i == 0:
				out = append(out, fmt.Sprintf("i%d>=%d", z.sym[j], -z.m[0][j]))
			default:
				out = append(out, fmt.Sprintf("i%d-i%d<=%d", z.sym[i], z.sym[j], z.m[i][j]))
			}
		}
	}
	return strings.Join(out, " ")
}

// close makes all bounds as tight as they follow from each other.
func (z *Zone) close() {
	n := len(z.m)
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if z.m[i][k] >= inf {
				continue
			}
			for j := 0; j < n; j++ {
				if i != j && z.m[k][j] < inf && z.m[i][k]+z.m[k][j] < z.m[i][j] {
					z.m[i][j] = z.m[i][k] + z.m[k][j]
				}
			}
		}
	}
}
