package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Handle is the theory of a radix tree which is only used through its methods: its content is a word, its
// nodes are never looked at. The methods are taken at what the obligations about radix trees establish.
//
// Kinds: "32" holds IPv4 networks, "MS" IPv6 networks up to 64 bits (and a tree of the longer ones at each
// /64), "LS" the networks within a /64, "1" the single entry of no bits a sized tree keeps for a network
// shorter than 64 bits.
type Handle struct {
	kind string
	in   *IPInst
	r    *Radix
}

func (h *Handle) Name() string           { return "handle" + h.kind }
func (h *Handle) Node(t types.Type) bool { return false }
func (h *Handle) Kids() [2]int           { return h.r.Kid }
func (h *Handle) UnfoldSub(st *State, id int) {
	h.rootNode(st, id)
}
func (h *Handle) UnfoldSeg(st *State, id int) {}
func (h *Handle) FoldNode(st *State, o *Obj, a, b *Sub, final bool) *Sub {
	return nil
}
func (h *Handle) FoldPath(st *State, o *Obj, k int, side *Sub) *Seg  { return nil }
func (h *Handle) Concat(st *State, a, b *Seg) *Seg                   { return nil }
func (h *Handle) Plug(st *State, s *Seg, hole *Sub, final bool) *Sub { return nil }
func (h *Handle) NilSub(st *State) *Sub                              { return &Sub{Th: h, Fresh: true} }
func (h *Handle) Keep(st *State, o *Obj) bool                        { return true }

func (h *Handle) newSub(st *State, w []Item, fresh, nonNil bool) VSub {
	s := &Sub{ID: st.id(), Th: h, W: w, Fresh: fresh, NonNil: nonNil}
	st.subs[s.ID] = s
	return VSub{s.ID}
}

// forkNil decides whether a tree is empty.
func (h *Handle) forkNil(st *State, id int) {
	st.fork(func(c *State) bool {
		if !c.emptyWord(c.subs[id].W) {
			return false
		}
		c.replace(VSub{id}, VNil{})
		return c.feasible()
	}, func(c *State) bool {
		c.subs[id].NonNil = true
		return c.feasible()
	})
}

// feasible tells whether every tree which isn't nil may hold something.
func (st *State) feasible() bool {
	for _, s := range st.subs {
		if s.NonNil && len(s.W) == 0 {
			return false
		}
	}
	return true
}

func (st *State) handlesEqual(a, b int) bool {
	x, y := st.subs[a], st.subs[b]
	for _, id := range []int{a, b} {
		if s := st.subs[id]; !s.NonNil {
			s.Th.(*Handle).forkNil(st, id)
		}
	}
	if x.Stale != y.Stale || x.Th != y.Th {
		return false
	}
	st.abort("undecided", "comparison of two trees")
	return false
}

// IPInst is an IP tree found in the repository.
type IPInst struct {
	pkg       *ssa.Package
	rel       string
	T         *types.Named
	f32, f64  int
	cells     int
	th        map[string]*Handle
	sized     bool
	subT      types.Type // generic: what wraps the tree of a /64
	valT      types.Type
	ipnet     *types.Named
	ipF, mskF int // cells of net.IPNet
	contracts map[*ssa.Function]contractFn
	updates   bool
}

func ptrNamed(t types.Type) *types.Named {
	p, ok := t.(*types.Pointer)
	if !ok {
		return nil
	}
	n, _ := p.Elem().(*types.Named)
	return n
}

var ipProps = []string{"C01", "C02", "C13", "C14", "C15", "C16", "C17", "C26", "C27", "C29"}

func findIPInst(p *Program) []*IPInst {
	var out []*IPInst
	for _, q := range p.Pkgs {
		for _, mn := range sortedNames(q.Members) {
			tm, ok := q.Members[mn].(*ssa.Type)
			if !ok || !tm.Object().Exported() {
				continue
			}
			named, ok := tm.Type().(*types.Named)
			if !ok {
				continue
			}
			s, ok := named.Underlying().(*types.Struct)
			if !ok || s.NumFields() != 2 {
				continue
			}
			in := &IPInst{pkg: q, rel: strings.TrimPrefix(q.Pkg.Path(), p.Mod+"/"), T: named, f32: -1, f64: -1, th: map[string]*Handle{}}
			for i := 0; i < 2; i++ {
				n := ptrNamed(s.Field(i).Type())
				if n == nil {
					continue
				}
				r := findRadix(n)
				if r == nil {
					continue
				}
				if r.W == 32 {
					in.f32 = i
					in.th["32"] = &Handle{"32", in, r}
				} else {
					in.f64 = i
					in.th["MS"] = &Handle{"MS", in, r}
					in.th["LS"] = &Handle{"LS", in, r}
					if n := ptrNamed(r.valT); n != nil {
						if r2 := findRadix(n); r2 != nil {
							in.sized = true
							in.th["LS"].r = r2
							in.th["1"] = &Handle{"1", in, r2}
						}
					}
				}
			}
			if in.f32 < 0 || in.f64 < 0 {
				continue
			}
			in.cells = 2
			in.valT = in.th["32"].r.valT
			if !in.sized {
				for _, m := range sortedNames(q.Members) {
					if t, ok := q.Members[m].(*ssa.Type); ok && types.Identical(t.Type().Underlying(), types.NewPointer(in.th["MS"].r.T)) {
						in.subT = t.Type()
					}
				}
			}
			for _, imp := range q.Pkg.Imports() {
				if imp.Path() != "net" {
					continue
				}
				if o := imp.Scope().Lookup("IPNet"); o != nil {
					in.ipnet = o.Type().(*types.Named)
				}
			}
			if in.ipnet == nil || !in.sized && in.subT == nil {
				continue
			}
			in.ipF, in.mskF = 0, 1
			out = append(out, in)
		}
	}
	return out
}

type ipVariant struct {
	name string
	kind string // none, v4, v6s, v6l
	len  int64  // length of the address: -1 nil network, -2..-4 another length
	bits int64  // of the mask
	ip   string // operations taking an address
}

var netVariants = []ipVariant{
	{"nil network", "none", -1, 0, ""},
	{"IPv4", "v4", 4, 32, ""},
	{"IPv6 up to 63 bits", "v6s", 16, 128, ""},
	{"IPv6 from 64 bits", "v6l", 16, 128, ""},
	{"no address", "none", 0, 32, ""},
	{"address of less than 4 bytes", "none", -2, 32, ""},
	{"address of 5 to 15 bytes", "none", -3, 128, ""},
	{"address of 5 to 15 bytes, IPv4 mask", "none", -3, 32, ""},
	{"address of more than 16 bytes", "none", -4, 128, ""},
	{"IPv4 address with an IPv6 mask", "none", 4, 128, ""},
	{"IPv6 address with an IPv4 mask", "none", 16, 32, ""},
	{"IPv4 address with a bad mask", "none", 4, 0, ""},
	{"IPv6 address with a bad mask", "none", 16, 0, ""},
}

var addrVariants = []ipVariant{
	{"nil address", "none", -1, 0, "nil"},
	{"IPv4 address", "v4", 4, 32, "4"},
	{"IPv4-mapped address", "v4", 16, 32, "mapped"},
	{"IPv6 address", "v6l", 16, 128, "16"},
	{"address of less than 4 bytes", "none", -2, 0, "bad"},
	{"address of 5 to 15 bytes", "none", -3, 0, "bad"},
	{"address of more than 16 bytes", "none", -4, 0, "bad"},
}

func ipObligations(p *Program) (obs []*Obligation, errs []anchorErr) {
	missing := func(s string) { errs = append(errs, anchorErr{s, ipProps}) }
	insts := findIPInst(p)
	if len(insts) != 5 {
		missing("expected 5 IP trees, found " + itoa(len(insts)))
	}
	ops := []struct {
		name, kind string
		addr       bool
	}{{"InsertNet", "insert", false}, {"InsertIP", "insert", true}, {"InplaceInsertNet", "inplace", false}, {"InplaceInsertIP", "inplace", true},
		{"GetByNet", "get", false}, {"GetByIP", "get", true}, {"DeleteByNet", "delete", false}, {"DeleteByIP", "delete", true},
		{"Enumerate", "enum", false}, {"UpdateDescendants", "update", false}}
	for _, in := range insts {
		in.buildContracts(p)
		for _, op := range ops {
			fn := p.MethodOf(in.T, op.name)
			if fn == nil {
				if op.kind == "update" && in.sized {
					continue
				}
				missing(in.rel + " has no " + op.name)
				continue
			}
			np := map[string]int{"insert": 3, "inplace": 3, "get": 2, "delete": 2, "enum": 1, "update": 3}[op.kind]
			if len(fn.Params) != np {
				missing(fn.String() + " has unexpected parameters")
				continue
			}
			vs := netVariants
			if op.addr {
				vs = addrVariants
			}
			if op.kind == "enum" {
				vs = []ipVariant{{kind: "enum"}}
			}
			for _, v := range vs {
				for _, isNil := range []bool{false, true} {
					if isNil && op.kind == "inplace" && v.kind != "none" {
						continue
					}
					obs = append(obs, in.obligation(p, op.kind, fn, v, isNil))
				}
			}
		}
	}
	return
}

// class regions of a word: prefixes of the searched one, itself, what it contains, anything else
func (st *State) regions() []Item {
	var w []Item
	for _, m := range []uint8{rANC, rEQ, rDESC, rOTH} {
		w = append(w, Item{A: st.newSeq(m).ID})
	}
	return w
}

func (h *Handle) key(st *State) ([]Value, Lin, bool) {
	k, ok := st.ghosts["K"+h.kind].(VTuple)
	if !ok {
		return nil, Lin{}, false
	}
	return k.E, st.ghosts["Q"+h.kind].(VInt).L, true
}

// plain is the value of a new entry of the tree which isn't a tree of a /64.
func (h *Handle) plain(st *State) Value {
	if h.kind == "MS" && h.in.sized {
		p := st.newPair(rEQ, nil, st.newOpq())
		return h.in.th["1"].newSub(st, []Item{{A: p.ID}}, false, true)
	}
	return st.newOpq()
}

func (h *Handle) wrap(v Value) Value {
	if h.in.sized {
		return v
	}
	return VIface{h.in.subT, v}
}

// exactValue is the value of the entry equal to the searched prefix.
func (h *Handle) exactValue(st *State) Value {
	if h.kind == "MS" && st.ghosts["QLS"] != nil {
		w := st.regions()
		if h.in.updates {
			for _, it := range w {
				st.atoms[it.A].X = map[string]Value{"ms": VAgg{st.ghosts["KMS"].(VTuple).E}}
			}
		}
		st.words["origLS"] = w
		return h.wrap(h.in.th["LS"].newSub(st, w, false, true))
	}
	return h.plain(st)
}

// exact finds the entry equal to the searched prefix, if it is there.
func (h *Handle) exact(st *State, w []Item) (it Item, ok bool) {
	for _, it := range w {
		if it.A == 0 {
			return it, true
		}
		a := st.atoms[it.A]
		if a.Mask != rEQ {
			continue
		}
		if !a.Seq {
			return it, true
		}
		id := it.A
		st.fork(func(c *State) bool {
			c.splitAtom(id)
			return c.feasible()
		}, func(c *State) bool {
			p := c.newPair(rEQ, nil, nil)
			p.V = h.exactValue(c)
			c.splitAtom(id, p.ID)
			return true
		})
	}
	return Item{}, false
}

// best finds the longest proper prefix of the searched one.
func (h *Handle) best(st *State, w []Item) (it Item, ok bool) {
	for i := len(w) - 1; i >= 0; i-- {
		it := w[i]
		if it.A == 0 || st.atoms[it.A].Mask != rANC {
			continue
		}
		if !st.atoms[it.A].Seq {
			return it, true
		}
		id := it.A
		st.fork(func(c *State) bool {
			c.splitAtom(id)
			return c.feasible()
		}, func(c *State) bool {
			s := c.newSeq(rANC)
			p := c.newPair(rANC, nil, h.plain(c))
			c.splitAtom(id, s.ID, p.ID)
			return true
		})
	}
	return Item{}, false
}

// some tells whether a word holds any entry of the classes.
func (st *State) some(w []Item, m uint8) bool {
	for _, it := range w {
		if it.A == 0 {
			if m&rEQ != 0 {
				return true
			}
			continue
		}
		a := st.atoms[it.A]
		if a.Mask&m != 0 && (!a.Seq || a.NE) {
			return true
		}
	}
	for _, it := range w {
		if it.A == 0 || st.atoms[it.A].Mask&m == 0 {
			continue
		}
		id := it.A
		st.fork(func(c *State) bool {
			c.splitAtom(id)
			return c.feasible()
		}, func(c *State) bool {
			c.atoms[id].NE = true
			return true
		})
	}
	return false
}

func (st *State) without(w []Item, m uint8) []Item {
	var out []Item
	for _, it := range w {
		if it.A == 0 && m&rEQ != 0 || it.A != 0 && st.atoms[it.A].Mask&m != 0 {
			continue
		}
		out = append(out, it)
	}
	return out
}

// tree resolves the receiver of a radix tree method; kinds are the possible ones of a nil receiver.
func (in *IPInst) tree(st *State, v Value, kinds []string) (h *Handle, s *Sub, hs []*Handle) {
	switch x := v.(type) {
	case VNil:
		for _, k := range kinds {
			hs = append(hs, in.th[k])
		}
		return nil, nil, hs
	case VSub:
		s := st.subs[x.ID]
		h, ok := s.Th.(*Handle)
		if !ok {
			break
		}
		if s.Stale {
			st.abort("content", "goes on using a tree which an in-place insertion has replaced by a new root")
		}
		return h, s, nil
	case VPtr:
		if o := st.objs[x.O]; o != nil && x.P == 0 && strings.HasPrefix(o.Tag, "node") {
			if y, ok := o.Cells[in.kidCell(o)].(VSub); ok {
				return st.subs[y.ID].Th.(*Handle), st.subs[y.ID], nil
			}
			st.abort("undecided", "method of a single node")
		}
	}
	st.abort("undecided", "%s is used as a tree", st.show(v))
	return
}

func (in *IPInst) kidCell(o *Obj) int {
	for _, h := range in.th {
		if types.Identical(h.r.T, o.T) {
			return h.r.Kid[0]
		}
	}
	return 0
}

// at checks that an operation is about the searched prefix.
func (h *Handle) at(st *State, key, bits Value) bool {
	want, q, ok := h.key(st)
	b := st.toInt(bits)
	if !ok {
		return false
	}
	if !st.eqLin(b, q) {
		return false
	}
	return st.agreeBytes(key, want, q)
}

func (in *IPInst) pick(st *State, recv, key, bits Value, kinds []string, op string) (*Handle, *Sub) {
	h, s, hs := in.tree(st, recv, kinds)
	if h != nil {
		if h.kind == "1" {
			if !st.eqLin(st.toInt(bits), linC(0)) {
				st.abort("content", "%s with %s bits in the tree of a network shorter than 64 bits, which has one entry of no bits", op, st.show(bits))
			}
			return h, s
		}
		if !h.at(st, key, bits) {
			st.abort("content", "%s of %s/%s isn't about the network given", op, st.show(key), st.show(bits))
		}
		return h, s
	}
	for _, h := range hs {
		if h.kind == "1" {
			if st.eqLin(st.toInt(bits), linC(0)) {
				return h, nil
			}
			continue
		}
		if h.at(st, key, bits) {
			return h, nil
		}
	}
	st.abort("content", "%s of %s/%s isn't about the network given", op, st.show(key), st.show(bits))
	return nil, nil
}

func subWord(s *Sub) []Item {
	if s == nil {
		return nil
	}
	return s.W
}

// buildContracts gives every method of the radix trees its meaning on handles.
func (in *IPInst) buildContracts(p *Program) {
	in.contracts = map[*ssa.Function]contractFn{}
	type tk struct {
		r     *Radix
		kinds []string
	}
	tks := []tk{{in.th["32"].r, []string{"32"}}}
	if in.sized {
		tks = append(tks, tk{in.th["MS"].r, []string{"MS"}}, tk{in.th["LS"].r, []string{"LS", "1"}})
	} else {
		tks = append(tks, tk{in.th["MS"].r, []string{"MS", "LS"}})
	}
	for _, t := range tks {
		t := t
		zero := zeroValue(t.r.valT)
		none := VTuple{[]Value{zero, VBool{Known: true}}}
		yes := func(v Value) Value { return VTuple{[]Value{v, VBool{Known: true, Val: true}}} }
		set := func(name string, n int, f func(st *State, a []Value) Value) {
			fn := p.MethodOf(t.r.T, name)
			if fn == nil || len(fn.Params) != n {
				return
			}
			in.contracts[fn] = func(st *State, a []Value) (Value, bool) { return f(st, a), true }
		}
		lookup := func(st *State, a []Value, op string) (Item, bool) {
			h, s := in.pick(st, a[0], a[1], a[2], t.kinds, op)
			return h.exact(st, subWord(s))
		}
		val := func(st *State, it Item) Value {
			if it.A == 0 {
				return it.V
			}
			return st.atoms[it.A].V
		}
		set("ExactMatch", 3, func(st *State, a []Value) Value {
			if _, ok := a[0].(VNil); ok {
				return none
			}
			if it, ok := lookup(st, a, "ExactMatch"); ok {
				return yes(val(st, it))
			}
			return none
		})
		set("Match", 3, func(st *State, a []Value) Value {
			if _, ok := a[0].(VNil); ok {
				return none
			}
			h, s, _ := in.tree(st, a[0], t.kinds)
			b := st.toInt(a[2])
			if h.kind == "1" {
				if !st.decideLE0(b.neg()) {
					st.abort("undecided", "Match with a negative number of bits")
				}
				return yes(val(st, s.W[0]))
			}
			want, q, ok := h.key(st)
			if ok && st.eqLin(b, q.addC(-1)) && st.agreeBytes(a[1], want, b) {
				if it, ok := h.best(st, s.W); ok {
					return yes(val(st, it))
				}
				return none
			}
			in.pick(st, a[0], a[1], a[2], t.kinds, "Match")
			if it, ok := h.exact(st, s.W); ok {
				return yes(val(st, it))
			}
			if it, ok := h.best(st, s.W); ok {
				return yes(val(st, it))
			}
			return none
		})
		set("FindNode", 3, func(st *State, a []Value) Value {
			if _, ok := a[0].(VNil); ok {
				return VNil{}
			}
			h, s := in.pick(st, a[0], a[1], a[2], t.kinds, "FindNode")
			it, ok := h.exact(st, s.W)
			if !ok {
				return VNil{}
			}
			want, q, _ := h.key(st)
			var w []Item
			for _, it := range s.W {
				if it.A != 0 && st.atoms[it.A].Mask&(rEQ|rDESC) != 0 {
					w = append(w, it)
				}
			}
			return h.node(st, "node", VPack{want}, q, true, val(st, it), h.newSub(st, w, false, true))
		})
		insert := func(st *State, h *Handle, s *Sub, key, v Value) []Item {
			var w []Item
			for _, it := range subWord(s) {
				if it.A != 0 && st.atoms[it.A].Mask&(rANC|rDESC|rOTH) != 0 {
					w = append(w, it)
				}
			}
			return append(w, Item{K: VNil{}, V: v})
		}
		set("Insert", 4, func(st *State, a []Value) Value {
			h, s := in.pick(st, a[0], a[1], a[2], t.kinds, "Insert")
			return h.newSub(st, insert(st, h, s, a[1], a[3]), s == nil, true)
		})
		set("InplaceInsert", 4, func(st *State, a []Value) Value {
			h, s := in.pick(st, a[0], a[1], a[2], t.kinds, "InplaceInsert")
			if s == nil {
				return h.newSub(st, insert(st, h, s, a[1], a[3]), true, true)
			}
			if !s.Fresh && !st.eng.ob.Inplace {
				st.abort("write", "inserts in place into a tree which existed before the call")
			}
			id := s.ID
			if !s.NonNil {
				if st.isNil(VSub{id}) {
					return nil
				}
			}
			pk, ok := st.ghosts["pick"].(VBool)
			if !ok {
				st.fork(func(c *State) bool { c.ghosts["pick"] = VBool{Known: true, Val: true}; return true },
					func(c *State) bool { c.ghosts["pick"] = VBool{Known: true}; return true })
			}
			delete(st.ghosts, "pick")
			w := insert(st, h, s, a[1], a[3])
			if pk.Val {
				s.W = w
				return a[0]
			}
			s.Stale = true
			return h.newSub(st, w, s.Fresh, true)
		})
		set("Delete", 3, func(st *State, a []Value) Value {
			no := VTuple{[]Value{a[0], VBool{Known: true}}}
			if _, ok := a[0].(VNil); ok {
				return no
			}
			h, s := in.pick(st, a[0], a[1], a[2], t.kinds, "Delete")
			_, hit := h.exact(st, s.W)
			if !hit && !st.some(s.W, rDESC) {
				return no
			}
			rest := st.without(s.W, rEQ|rDESC)
			if !st.some(rest, rANC|rOTH) {
				return yes(VNil{})
			}
			return yes(h.newSub(st, rest, false, true))
		})
		set("Enumerate", 1, func(st *State, a []Value) Value {
			ch := &Chan{ID: st.id(), T: types.NewPointer(t.r.T), Closed: 1, In: in.th[t.kinds[0]]}
			st.chans[ch.ID] = ch
			if _, ok := a[0].(VNil); !ok {
				h, s, _ := in.tree(st, a[0], t.kinds)
				ch.In = h
				ch.W = s.W
				if p, ok := a[0].(VPtr); ok && st.objs[p.O].Tag == "node" && len(s.W) > 0 && s.W[0].A != 0 && st.atoms[s.W[0].A].Mask == rEQ {
					st.ghosts["head"] = VTuple{[]Value{VChan{ch.ID}, p}}
				}
			}
			return VChan{ch.ID}
		})
	}
}

// node makes a tree node which the code may look at.
func (h *Handle) node(st *State, tag string, key Value, bits Lin, leaf bool, v, below Value) Value {
	cells := make([]Value, h.r.cells)
	for i := range cells {
		cells[i] = VTop{"a link of a tree node"}
	}
	cells[h.r.Key] = key
	cells[h.r.Bits] = VInt{bits}
	cells[h.r.Leaf] = VBool{Known: true, Val: leaf}
	cells[h.r.Val] = v
	cells[h.r.Kid[0]] = below
	o := st.newObj(h.r.T, cells, false)
	o.Tag = tag
	o.Lock = true
	return VPtr{o.ID, 0}
}

// rootNode lets the code look at the root node of a tree.
func (h *Handle) rootNode(st *State, id int) {
	want, q, ok := h.key(st)
	if !ok || h.kind != "LS" || !st.subs[id].NonNil || !h.in.updates {
		st.abort("undecided", "looks at the root node of a tree")
	}
	st.fork(func(c *State) bool { // the root has just the given network and is stored
		w := c.subs[id].W
		for _, it := range w {
			if a := c.atoms[it.A]; a.Mask&(rANC|rOTH) != 0 {
				if !c.emptyWord([]Item{it}) {
					return false
				}
			}
		}
		var v Value
		found := false
		for _, it := range c.subs[id].W {
			a := c.atoms[it.A]
			if a.Mask == rEQ {
				found = true
				if a.Seq {
					p := c.newPair(rEQ, nil, c.newOpq())
					c.splitAtom(it.A, p.ID)
					a = p
				}
				v = a.V
			}
		}
		if !found {
			return false
		}
		sub := h.newSub(c, c.subs[id].W, false, true)
		c.replace(VSub{id}, h.node(c, "node", VPack{want}, q, true, v, sub))
		return true
	}, func(c *State) bool { // it isn't stored, only a branch
		w := c.subs[id].W
		for _, it := range w {
			if a := c.atoms[it.A]; a.Mask&(rANC|rOTH|rEQ) != 0 {
				if !c.emptyWord([]Item{it}) {
					return false
				}
			}
		}
		sub := h.newSub(c, c.subs[id].W, false, true)
		c.replace(VSub{id}, h.node(c, "node", VPack{want}, q, false, zeroValue(h.r.valT), sub))
		return true
	}, func(c *State) bool { // another number of bits
		lit := c.newOpq()
		b := linS(c.newSym())
		c.zone.assumeLE0(b.neg())
		if !c.zone.assumeLE0(b.sub(q).addC(1)) {
			return false
		}
		sub := h.newSub(c, c.subs[id].W, false, true)
		c.replace(VSub{id}, h.node(c, "node", VPack{litBytes(lit, 0, 8)}, b, true, c.newOpq(), sub))
		return true
	}, func(c *State) bool {
		lit := c.newOpq()
		b := linS(c.newSym())
		c.zone.assumeLE0(b.addC(-64))
		if !c.zone.assumeLE0(q.sub(b).addC(1)) {
			return false
		}
		sub := h.newSub(c, c.subs[id].W, false, true)
		c.replace(VSub{id}, h.node(c, "node", VPack{litBytes(lit, 0, 8)}, b, true, c.newOpq(), sub))
		return true
	}, func(c *State) bool { // as many bits, but another key
		lit := c.newOpq()
		c.ghosts["differ"] = lit
		sub := h.newSub(c, c.subs[id].W, false, true)
		c.replace(VSub{id}, h.node(c, "node", VPack{litBytes(lit, 0, 8)}, q, true, c.newOpq(), sub))
		return true
	})
}

// recv takes the next node of an enumeration.
func (in *IPInst) recv(st *State, v Value, x *ssa.UnOp) Value {
	ret := func(v Value, ok bool) Value {
		if x.CommaOk {
			return VTuple{[]Value{v, VBool{Known: true, Val: ok}}}
		}
		return v
	}
	c, ok := v.(VChan)
	if !ok {
		if _, isNil := v.(VNil); isNil {
			st.abort("channel", "receive from a nil channel blocks forever")
		}
		st.abort("undecided", "receive from %s", st.show(v))
	}
	ch := st.chans[c.ID]
	if ch.In == nil {
		st.abort("channel", "receive from a channel nobody sends to")
	}
	if len(ch.W) == 0 {
		return ret(VNil{}, false)
	}
	h := ch.In
	id := ch.W[0].A
	if id == 0 {
		st.abort("undecided", "enumerates a tree built by the call")
	}
	a := st.atoms[id]
	if !a.Seq {
		if n, ok := st.ghosts["next"].(VTuple); ok {
			// the node made for this entry
			delete(st.ghosts, "next")
			ch.W = ch.W[1:]
			return ret(n.E[0], true)
		}
		if h.kind == "1" {
			ch.W = ch.W[1:]
			return ret(h.node(st, "node entry", VPack{litBytes(st.newOpq(), 0, 8)}, linC(0), true, a.V, VNil{}), true)
		}
		// the entry the enumeration starts at
		want, q, ok := h.key(st)
		if !ok || a.Mask != rEQ {
			st.abort("undecided", "unexpected entry")
		}
		ch.W = ch.W[1:]
		if hd, ok := st.ghosts["head"].(VTuple); ok && valSame(hd.E[0], v) {
			delete(st.ghosts, "head")
			st.objs[hd.E[1].(VPtr).O].Tag = "node entry"
			return ret(hd.E[1], true)
		}
		return ret(h.node(st, "node entry", VPack{want}, q, true, a.V, VNil{}), true)
	}
	if n, ok := st.ghosts["next"].(VTuple); ok {
		delete(st.ghosts, "next")
		ch.W = ch.W[1:]
		return ret(n.E[0], true)
	}
	var alts []func(*State) bool
	if !a.NE {
		alts = append(alts, func(c *State) bool {
			c.splitAtom(id)
			return c.feasible()
		})
	}
	sym := func(c *State, max int64) Lin {
		b := linS(c.newSym())
		c.zone.assumeLE0(b.neg())
		c.zone.assumeLE0(b.addC(-max))
		return b
	}
	entry := func(c *State, bytes []Value, ones Lin) *Atom {
		k := VTuple{[]Value{VAgg{bytes}, VInt{ones}}}
		return c.newPair(a.Mask, k, c.newOpq())
	}
	rest := func(c *State) *Atom {
		s := c.newSeq(a.Mask)
		s.X = a.X
		return s
	}
	next := func(c *State, n Value) { c.ghosts["next"] = VTuple{[]Value{n}} }
	switch h.kind {
	case "32":
		alts = append(alts, func(c *State) bool {
			key := litBytes(c.newOpq(), 0, 4)
			b := sym(c, 32)
			p := entry(c, key, b)
			c.splitAtom(id, p.ID, rest(c).ID)
			next(c, h.node(c, "node entry", VPack{key}, b, true, p.V, VNil{}))
			return true
		})
	case "LS":
		ms, ok := a.X["ms"].(VAgg)
		if !ok {
			st.abort("undecided", "enumerates a tree which isn't that of a /64")
		}
		alts = append(alts, func(c *State) bool {
			key := litBytes(c.newOpq(), 0, 8)
			b := sym(c, 64)
			p := entry(c, append(append([]Value(nil), ms.C...), key...), b.addC(64))
			p.X = a.X
			c.splitAtom(id, p.ID, rest(c).ID)
			next(c, h.node(c, "node entry", VPack{key}, b, true, p.V, VNil{}))
			return true
		})
	case "MS":
		alts = append(alts, func(c *State) bool {
			key := litBytes(c.newOpq(), 0, 8)
			b := sym(c, 63)
			bytes := append([]Value(nil), key...)
			for i := 0; i < 8; i++ {
				bytes = append(bytes, zeroByte)
			}
			p := entry(c, bytes, b)
			c.splitAtom(id, p.ID, rest(c).ID)
			v := p.V
			if in.sized {
				v = in.th["1"].newSub(c, []Item{{A: p.ID}}, false, true)
			}
			next(c, h.node(c, "node entry", VPack{key}, b, true, v, VNil{}))
			return true
		}, func(c *State) bool {
			key := litBytes(c.newOpq(), 0, 8)
			run := c.newSeq(a.Mask)
			run.NE = true
			run.X = map[string]Value{"ms": VAgg{key}}
			c.splitAtom(id, run.ID, rest(c).ID)
			next(c, h.node(c, "node", VPack{key}, linC(64), true, h.wrap(in.th["LS"].newSub(c, []Item{{A: run.ID}}, false, true)), VNil{}))
			return true
		})
	default:
		st.abort("undecided", "unexpected enumeration")
	}
	st.fork(alts...)
	return nil
}

// pairAtom recognises an entry from the key and value the code made of it.
func (in *IPInst) pairAtom(st *State, x Value, verb string) Item {
	pair, ok := x.(VAgg)
	if !ok || len(pair.C) != 2 {
		st.abort("undecided", "unexpected entry %s", st.show(x))
	}
	k, v := pair.C[0], pair.C[1]
	if _, ok := k.(VPtr); !ok {
		if _, ok := v.(VPtr); ok {
			k, v = v, k
		}
	}
	for _, id := range sortedKeys(st.atoms) {
		a := st.atoms[id]
		if a.Seq || !valSame(a.V, v) {
			continue
		}
		kt, ok := a.K.(VTuple)
		if !ok {
			continue
		}
		bytes, ones := kt.E[0].(VAgg).C, kt.E[1].(VInt).L
		ptr, ok := k.(VPtr)
		if !ok || st.objs[ptr.O] == nil || !types.Identical(st.objs[ptr.O].T, in.ipnet) {
			st.abort("content", "%s %s as the network of an entry", verb, st.show(k))
		}
		o := st.objs[ptr.O]
		cells, ok := st.sliceCells(o.Cells[ptr.P+in.ipF])
		if !ok || len(cells) != len(bytes) {
			st.abort("content", "%s an address of %d bytes instead of %d", verb, len(cells), len(bytes))
		}
		m, ok := o.Cells[ptr.P+in.mskF].(VApp)
		if !ok || m.F != "nn:cidr" {
			st.abort("content", "%s the mask %s", verb, st.show(o.Cells[ptr.P+in.mskF]))
		}
		if !st.eqLin(m.Args[0].(VInt).L, ones) || !st.eqLin(m.Args[1].(VInt).L, linC(int64(8*len(bytes)))) {
			st.abort("content", "%s a mask of %s bits out of %s instead of %s out of %d", verb, st.show(m.Args[0]), st.show(m.Args[1]), ones, 8*len(bytes))
		}
		for i, b := range bytes {
			want := st.maskByte(b, ones.addC(int64(-8*i)))
			if !st.sameByte(cells[i], want) {
				st.abort("content", "%s an address whose byte %d is %s instead of %s", verb, i, st.show(cells[i]), st.show(want))
			}
		}
		// from now on it belongs to the receiver
		o.Fresh = false
		if s, ok := o.Cells[ptr.P+in.ipF].(VSlice); ok {
			st.objs[s.O].Fresh = false
		}
		return Item{A: id}
	}
	st.abort("content", "%s %s, which isn't the value of an entry", verb, st.show(v))
	return Item{}
}

// ext models the standard library.
func (in *IPInst) ext(st *State, fn *ssa.Function, a []Value) (Value, bool) {
	bytesT := types.Typ[types.Uint8]
	switch fn.String() {
	case "(net.IPMask).Size":
		two := func(x, y Value) (Value, bool) { return VTuple{[]Value{x, y}}, true }
		switch x := a[0].(type) {
		case VNil:
			return two(VInt{linC(0)}, VInt{linC(0)})
		case VApp:
			if x.F == "nn:mask" || x.F == "nn:cidr" {
				return two(x.Args[0], x.Args[1])
			}
		}
	case "net.CIDRMask":
		ones, bits := st.toInt(a[0]), st.toInt(a[1])
		if !bits.isConst() {
			return nil, false
		}
		if bits.k != 32 && bits.k != 128 || !st.decideLE0(ones.neg()) || !st.decideLE0(ones.sub(bits)) {
			return VNil{}, true
		}
		return VApp{"nn:cidr", []Value{VInt{ones}, VInt{bits}}}, true
	case "(net.IP).Mask":
		m, ok := a[1].(VApp)
		cells, ok2 := st.sliceCells(a[0])
		if !ok || !ok2 || m.F != "nn:cidr" && m.F != "nn:mask" {
			return nil, false
		}
		bits := m.Args[1].(VInt).L
		if !bits.isConst() || bits.k != int64(8*len(cells)) {
			return nil, false
		}
		out := make([]Value, len(cells))
		for i, b := range cells {
			out[i] = st.maskByte(b, m.Args[0].(VInt).L.addC(int64(-8*i)))
		}
		return st.newBytes(bytesT, out, true), true
	case "(net.IP).To4":
		switch x := a[0].(type) {
		case VNil:
			return x, true
		case VSlice:
			if g, ok := st.ghosts["IP"]; !ok || !valSame(g, x) {
				if x.Len.isConst() && x.Len.k == 4 {
					return x, true
				}
				return nil, false
			}
			switch st.ghosts["form"].(VStr).S {
			case "4":
				return x, true
			case "mapped":
				return VSlice{O: x.O, P: x.P, Off: x.Off.addC(12), Len: linC(4), Cap: x.Cap.addC(-12)}, true
			}
			return VNil{}, true
		}
	case "(net.IP).To16":
		switch x := a[0].(type) {
		case VNil:
			return x, true
		case VSlice:
			if !x.Len.isConst() {
				return VNil{}, true
			}
			if x.Len.k == 16 {
				return x, true
			}
			if x.Len.k == 4 {
				cells, ok := st.sliceCells(x)
				if !ok {
					return nil, false
				}
				var out []Value
				for i := 0; i < 10; i++ {
					out = append(out, zeroByte)
				}
				ff := VInt{linC(255)}
				out = append(append(out, ff, ff), cells...)
				return st.newBytes(bytesT, out, true), true
			}
			return VNil{}, true
		}
	case "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64":
		n := 4
		if strings.HasSuffix(fn.Name(), "64") {
			n = 8
		}
		cells, ok := st.sliceCells(a[1])
		if !ok {
			return nil, false
		}
		if len(cells) < n {
			st.abort("panic", "index out of range")
		}
		return VPack{append([]Value(nil), cells[:n]...)}, true
	case "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64":
		n := 4
		if strings.HasSuffix(fn.Name(), "64") {
			n = 8
		}
		cells, ok := st.sliceCells(a[1])
		p, ok2 := asPack(a[2], n)
		if !ok || !ok2 {
			return nil, false
		}
		if len(cells) < n {
			st.abort("panic", "index out of range")
		}
		s := a[1].(VSlice)
		for i, b := range p.B {
			st.storeCell(s.O, s.P+int(s.Off.k)+i, b)
		}
		return VTuple{}, true
	}
	return nil, false
}

func (in *IPInst) glob(p *Program, st *State, g *ssa.Global) (Value, bool) {
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/binary" {
		return VAgg{}, true
	}
	s := (*ssa.Store)(nil)
	if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), p.Mod) && p.constGlobal(g) {
		s = p.globalInit(g)
	}
	if s == nil {
		return nil, false
	}
	if c, ok := s.Val.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && f.String() == "net.CIDRMask" {
			x, ok1 := c.Call.Args[0].(*ssa.Const)
			y, ok2 := c.Call.Args[1].(*ssa.Const)
			if ok1 && ok2 {
				return in.ext(st, f, []Value{st.constVal(x), st.constVal(y)})
			}
		}
	}
	return nil, false
}

func (in *IPInst) obligation(p *Program, kind string, fn *ssa.Function, va ipVariant, isNil bool) *Obligation {
	ob := &Obligation{Name: in.rel + "." + in.T.Obj().Name() + "." + fn.Name(), fn: fn, contracts: in.contracts, radix: true, glue: true, maxC: 70}
	if va.name != "" {
		ob.Name += " (" + va.name + ")"
	}
	if isNil {
		ob.Name += " (nil)"
	}
	inst := *in
	cp := &inst
	cp.updates = kind == "update"
	cp.th = map[string]*Handle{}
	for k, h := range in.th {
		cp.th[k] = &Handle{h.kind, cp, h.r}
	}
	cp.buildContracts(p)
	in = cp
	ob.contracts = in.contracts
	with := func(ps ...string) []string {
		if isNil {
			return append(ps, "C26")
		}
		return ps
	}
	ob.syncFn = func(st *State) bool { return true }
	ob.globFn = func(st *State, g *ssa.Global) (Value, bool) { return in.glob(p, st, g) }
	ob.recvFn = in.recv
	ob.extFn = in.ext
	ob.assertFn = func(st *State, v Value, t types.Type) (bool, Value, bool) {
		if _, ok := v.(VOpq); ok && in.subT != nil && types.Identical(t, in.subT) {
			return false, nil, true
		}
		return false, nil, false
	}
	prop := map[string]string{"insert": "C13", "inplace": "C13", "get": "C14", "delete": "C15", "enum": "C16", "update": "C17"}[kind]
	ob.Props = map[string][]string{"content": with(prop), "shape": with("C27", prop), "panic": with("C27", prop), "channel": with("C29", prop)}
	ob.joinMask = func(a, b uint8) bool { return (a|b)&rEQ == 0 }
	if kind == "enum" || kind == "update" {
		ob.joinMask = func(a, b uint8) bool { return a == b }
	}
	switch kind {
	case "insert":
		ob.Props["write"] = with("C01", prop)
		ob.rule = "the new tree's two radix trees differ from the old ones just by the binding of the given network"
	case "inplace":
		ob.Inplace = true
		ob.writeFn = func(st *State, o *Obj, cell int) bool { return types.Identical(o.T, in.T) }
		ob.Props["write"] = with(prop)
		ob.rule = "the tree's two radix trees differ from before just by the binding of the given network"
	case "get":
		ob.Props["write"] = with("C02", prop)
		ob.rule = "the result is the value of the longest stored network which contains the given one, or the zero value and false"
	case "delete":
		ob.Props["write"] = with("C01", prop)
		ob.rule = "the new tree's two radix trees lack just the networks inside the given one; the flag tells whether there were any"
	case "enum":
		ob.Props["write"] = with("C02", prop)
		ob.rule = "the networks are sent in order, each once with its own address and mask, and the channel is closed once"
		ob.sendFn = func(st *State, x Value) Item { return in.pairAtom(st, x, "sends") }
	case "update":
		ob.Props["write"] = with(prop)
		ob.rule = "the callback is called for the networks strictly inside the target, each once with its own network and value, and just the values it asks for are replaced"
		ob.writeFn = func(st *State, o *Obj, cell int) bool {
			pd, ok := st.ghosts["pend"].(VTuple)
			return ok && valSame(pd.E[0], VPtr{o.ID, 0}) && cell == in.valCell(o)
		}
		ob.callFn = in.callback
	}
	ob.setup = func(st *State) []Value { return in.setup(st, kind, va, isNil) }
	zero := zeroValue(in.valT)
	ob.exitFn = func(st *State, res Value) {
		switch kind {
		case "insert":
			in.exitTree(st, va, res, "insert", false)
		case "inplace":
			in.exitTree(st, va, st.ghosts["T"], "insert", false)
		case "delete":
			t, ok := res.(VTuple)
			if !ok || len(t.E) != 2 {
				st.abort("undecided", "unexpected result")
			}
			in.exitTree(st, va, t.E[0], "delete", st.toBool(t.E[1]))
		case "get":
			t, ok := res.(VTuple)
			if !ok || len(t.E) != 2 {
				st.abort("undecided", "unexpected result")
			}
			found := st.toBool(t.E[1])
			v, ok := in.wanted(st, va)
			if !ok {
				if found {
					st.fail("content", "reports a value (%s) though no stored network contains the given one", st.show(t.E[0]))
				}
				if !valSame(t.E[0], zero) {
					st.fail("content", "returns %s instead of the zero value though no stored network contains the given one", st.show(t.E[0]))
				}
				return
			}
			if !found {
				st.fail("content", "doesn't find a stored network which contains the given one")
			}
			if !valSame(t.E[0], v) {
				st.fail("content", "returns %s instead of the value of the longest network which contains the given one", st.show(t.E[0]))
			}
		case "enum":
			ch, ok := res.(VChan)
			if !ok {
				st.fail("channel", "doesn't return a channel but %s", st.show(res))
			}
			c := st.chans[ch.ID]
			if c.Closed != 1 || c.In != nil {
				st.fail("channel", "the channel isn't closed")
			}
			want := cat(st.words["orig32"], st.words["orig64"])
			if !st.sameWord(c.W, want) {
				st.fail("content", "the channel gets %s while the tree holds %s", st.showWord(c.W), st.showWord(want))
			}
		case "update":
			in.exitUpdate(st, va)
		}
	}
	return ob
}

func (in *IPInst) valCell(o *Obj) int {
	for _, h := range in.th {
		if types.Identical(h.r.T, o.T) {
			return h.r.Val
		}
	}
	return -1
}

func (in *IPInst) setup(st *State, kind string, va ipVariant, isNil bool) []Value {
	bt := types.Typ[types.Uint8]
	// the argument
	var arg Value = VNil{}
	var ip Value = VNil{}
	n := va.len
	lit := st.newOpq()
	switch {
	case n == 0:
		ip = VNil{}
	case n > 0:
		ip = st.newBytes(bt, litBytes(lit, 0, int(n)), false)
	case n < -1:
		l := linS(st.newSym())
		r := map[int64][2]int64{-2: {0, 3}, -3: {5, 15}, -4: {17, 1 << 40}}[n]
		st.zone.assumeLE0(linC(r[0]).sub(l))
		st.zone.assumeLE0(l.addC(-r[1]))
		s := st.newBytes(bt, nil, false)
		s.Len, s.Cap = l, l
		ip = s
	}
	var ones Lin
	lim := func(lo, hi int64) {
		ones = linS(st.newSym())
		st.zone.assumeLE0(linC(lo).sub(ones))
		st.zone.assumeLE0(ones.addC(-hi))
	}
	k32, kms, kls := litBytes(lit, 0, 4), litBytes(lit, 0, 8), litBytes(lit, 8, 8)
	if va.ip == "mapped" {
		k32 = litBytes(lit, 12, 4)
	}
	key := func(k string, b []Value, q Lin) {
		st.ghosts["K"+k] = VTuple{b}
		st.ghosts["Q"+k] = VInt{q}
	}
	switch va.kind {
	case "v4":
		lim(0, 32)
		if va.ip != "" {
			ones = linC(32)
		}
		key("32", k32, ones)
	case "v6s":
		lim(0, 63)
		key("MS", kms, ones)
	case "v6l":
		lim(64, 128)
		if va.ip != "" {
			ones = linC(128)
		}
		key("MS", kms, linC(64))
		key("LS", kls, ones.addC(-64))
	case "none":
		if va.bits == 0 {
			ones = linC(0)
		} else {
			lim(0, va.bits)
		}
	}
	if va.ip != "" {
		arg = ip
		st.ghosts["IP"] = ip
		st.ghosts["form"] = VStr{va.ip}
	} else if n != -1 && kind != "enum" {
		o := st.newObj(in.ipnet, zeroCells(in.ipnet), false)
		o.Cells[in.ipF] = ip
		o.Cells[in.mskF] = VApp{"nn:mask", []Value{VInt{ones}, VInt{linC(va.bits)}}}
		arg = VPtr{o.ID, 0}
	}
	if va.ip == "nil" {
		arg = VNil{}
	}
	// the tree
	var recv Value = VNil{}
	st.words["orig32"], st.words["orig64"] = nil, nil
	if !isNil {
		one := func(m uint8) []Item { return []Item{{A: st.newSeq(m).ID}} }
		w32, w64 := one(rOTH), one(rOTH)
		switch va.kind {
		case "v4":
			w32 = st.regions()
		case "v6s", "v6l":
			w64 = st.regions()
			if va.kind == "v6l" {
				// nothing is contained in a network of 64 bits but itself
				w64 = append(w64[:2:2], w64[3])
			}
		}
		st.words["orig32"], st.words["orig64"] = w32, w64
		o := st.newObj(in.T, zeroCells(in.T), false)
		o.Cells[in.f32] = in.th["32"].newSub(st, w32, false, false)
		o.Cells[in.f64] = in.th["MS"].newSub(st, w64, false, false)
		recv = VPtr{o.ID, 0}
	}
	st.ghosts["T"] = recv
	args := []Value{recv}
	switch kind {
	case "enum":
		return args
	case "insert", "inplace":
		v := st.newOpq()
		st.ghosts["V"] = v
		return append(args, arg, v)
	case "update":
		cb := st.newOpq()
		st.ghosts["cb"] = cb
		st.words["called"] = nil
		return append(args, arg, VApp{"nn:callback", []Value{cb}})
	}
	return append(args, arg)
}

// wanted is the value a lookup should give.
func (in *IPInst) wanted(st *State, va ipVariant) (Value, bool) {
	val := func(it Item) Value {
		v := st.atoms[it.A].V
		if s, ok := v.(VSub); ok { // the tree of one entry
			return st.atoms[st.subs[s.ID].W[0].A].V
		}
		return v
	}
	look := func(h *Handle, w []Item) (Value, bool) {
		if it, ok := h.exact(st, w); ok {
			return val(it), true
		}
		if it, ok := h.best(st, w); ok {
			return val(it), true
		}
		return nil, false
	}
	switch va.kind {
	case "v4":
		return look(in.th["32"], st.words["orig32"])
	case "v6s":
		return look(in.th["MS"], st.words["orig64"])
	case "v6l":
		if _, ok := in.th["MS"].exact(st, st.words["orig64"]); ok {
			if v, ok := look(in.th["LS"], st.words["origLS"]); ok {
				return v, true
			}
		}
		if it, ok := in.th["MS"].best(st, st.words["orig64"]); ok {
			return val(it), true
		}
	}
	return nil, false
}

// rootWord is the content of a tree of the result.
func (in *IPInst) rootWord(st *State, v Value, what string) []Item {
	switch x := v.(type) {
	case VNil:
		return nil
	case VSub:
		s := st.subs[x.ID]
		if s.Stale {
			st.fail("content", "%s is still the one an in-place insertion has replaced by a new root", what)
		}
		return s.W
	}
	st.abort("undecided", "%s is %s", what, st.show(v))
	return nil
}

// exitTree compares the resulting tree with the one wanted.
func (in *IPInst) exitTree(st *State, va ipVariant, res Value, op string, flag bool) {
	var got32, got64 []Item
	switch x := res.(type) {
	case VNil:
	case VPtr:
		o := st.objs[x.O]
		if o == nil || !types.Identical(o.T, in.T) || x.P != 0 {
			st.abort("undecided", "the result is %s", st.show(res))
		}
		got32 = in.rootWord(st, o.Cells[in.f32], "the IPv4 tree")
		got64 = in.rootWord(st, o.Cells[in.f64], "the IPv6 tree")
	default:
		st.abort("undecided", "the result is %s", st.show(res))
	}
	same := func(got []Item, orig, what string) {
		if !st.sameWord(got, st.words[orig]) {
			st.fail("content", "%s changes from %s to %s", what, st.showWord(st.words[orig]), st.showWord(got))
		}
	}
	// rest compares all but what the operation is about
	rest := func(got, orig []Item, m uint8, what string) {
		if g, w := st.without(got, m), st.without(orig, m); !st.sameWord(g, w) {
			st.fail("content", "%s holds besides the given network %s instead of %s", what, st.showWord(g), st.showWord(w))
		}
	}
	bound := func(got []Item, what string) Value {
		var vs []Value
		for _, it := range got {
			if it.A == 0 {
				vs = append(vs, it.V)
			} else if a := st.atoms[it.A]; a.Mask == rEQ && !a.Seq {
				vs = append(vs, a.V)
			} else if a.Mask == rEQ {
				vs = append(vs, VTop{"what it was bound to before"})
			}
		}
		if len(vs) != 1 {
			st.fail("content", "%s has %d bindings of the given network", what, len(vs))
		}
		return vs[0]
	}
	isV := func(v Value, what string) {
		if !valSame(v, st.ghosts["V"]) {
			st.fail("content", "%s binds the given network to %s", what, st.show(v))
		}
	}
	// inner is the content of the tree an entry holds
	inner := func(v Value, kind, what string) []Item {
		if in.subT != nil {
			f, ok := v.(VIface)
			if !ok || !types.Identical(f.T, in.subT) {
				st.fail("shape", "%s holds %s for the /64 of the given network", what, st.show(v))
			}
			v = f.V
		}
		w := in.rootWord(st, v, "the tree of the /64")
		if s, ok := v.(VSub); ok {
			if st.subs[s.ID].Th.(*Handle).kind != kind {
				st.fail("shape", "%s holds an unexpected tree for the given network", what)
			}
		}
		return w
	}
	const t4, t6, tl = "the IPv4 tree", "the IPv6 tree", "the tree of the /64"
	if va.kind != "v4" {
		same(got32, "orig32", t4)
	} else {
		same(got64, "orig64", t6)
	}
	if op == "insert" {
		switch va.kind {
		case "v4":
			rest(got32, st.words["orig32"], rEQ, t4)
			isV(bound(got32, t4), t4)
		case "v6s":
			rest(got64, st.words["orig64"], rEQ, t6)
			v := bound(got64, t6)
			if in.sized {
				v = bound(inner(v, "1", t6), "the tree of the network")
			}
			isV(v, t6)
		case "v6l":
			in.th["MS"].exact(st, st.words["orig64"])
			rest(got64, st.words["orig64"], rEQ, t6)
			w := inner(bound(got64, t6), "LS", t6)
			rest(w, st.words["origLS"], rEQ, tl)
			isV(bound(w, tl), tl)
		case "none":
			same(got64, "orig64", t6)
		}
		return
	}
	check := func(removed bool) {
		if removed != flag {
			st.fail("content", "the result flag is %v", flag)
		}
	}
	del := func(h *Handle, got, orig []Item, what string) bool {
		_, hit := h.exact(st, orig)
		removed := st.some(orig, rDESC) || hit
		rest(got, orig, rEQ|rDESC, what)
		if w := st.without(got, rANC|rOTH); len(w) > 0 {
			st.fail("content", "%s still holds %s", what, st.showWord(w))
		}
		return removed
	}
	switch va.kind {
	case "v4":
		check(del(in.th["32"], got32, st.words["orig32"], t4))
	case "v6s":
		check(del(in.th["MS"], got64, st.words["orig64"], t6))
	case "v6l":
		if _, ok := in.th["MS"].exact(st, st.words["orig64"]); !ok {
			same(got64, "orig64", t6)
			check(false)
			return
		}
		ls := st.words["origLS"]
		_, hit := in.th["LS"].exact(st, ls)
		if !hit && !st.some(ls, rDESC) {
			rest(got64, st.words["orig64"], rEQ, t6)
			if w := inner(bound(got64, t6), "LS", t6); !st.sameWord(w, ls) {
				st.fail("content", "%s changes from %s to %s", tl, st.showWord(ls), st.showWord(w))
			}
			check(false)
			return
		}
		rest(got64, st.words["orig64"], rEQ, t6)
		if !st.some(ls, rANC|rOTH) {
			if w := st.without(got64, rANC|rDESC|rOTH); len(w) > 0 {
				st.fail("content", "%s keeps an empty tree for the /64: %s", t6, st.showWord(w))
			}
			check(true)
			return
		}
		del(in.th["LS"], inner(bound(got64, t6), "LS", t6), ls, tl)
		check(true)
	case "none":
		same(got64, "orig64", t6)
		check(false)
	}
}

// ---- UpdateDescendants

// settlePending checks what became of the last answer of the callback.
func (in *IPInst) settlePending(st *State) {
	pd, ok := st.ghosts["pend"].(VTuple)
	if !ok {
		return
	}
	asked := st.toBool(pd.E[2])
	pd = st.ghosts["pend"].(VTuple)
	o := st.objs[pd.E[0].(VPtr).O]
	v := o.Cells[in.valCell(o)]
	if asked && !valSame(v, pd.E[1]) {
		st.abort("content", "the value which the callback asks for isn't stored")
	}
	if !asked && !valSame(v, pd.E[3]) {
		st.abort("content", "replaces a value though the callback doesn't ask for it")
	}
	delete(st.ghosts, "pend")
}

func (in *IPInst) callback(st *State, fv Value, args []Value, c *ssa.CallCommon) (Value, bool) {
	f, ok := fv.(VApp)
	if !ok || f.F != "nn:callback" || len(args) != 1 {
		return nil, false
	}
	in.settlePending(st)
	it := in.pairAtom(st, args[0], "calls back with")
	// the node which holds the value
	var node *Obj
	for _, id := range sortedKeys(st.objs) {
		o := st.objs[id]
		if o.Tag == "node entry" && valSame(o.Cells[in.valCell(o)], st.atoms[it.A].V) {
			node = o
		}
	}
	if node == nil {
		st.abort("undecided", "the node of an entry isn't known any more")
	}
	st.words["called"] = append(append([]Item(nil), st.words["called"]...), it)
	nv := st.newOpq()
	b := VBool{ID: st.id()}
	st.ghosts["pend"] = VTuple{[]Value{VPtr{node.ID, 0}, nv, b, node.Cells[in.valCell(node)]}}
	return VTuple{[]Value{nv, b}}, true
}

func (in *IPInst) exitUpdate(st *State, va ipVariant) {
	in.settlePending(st)
	called := st.words["called"]
	var want []Item
	stored := false
	pick := func(w []Item) {
		for _, it := range w {
			if st.atoms[it.A].Mask == rDESC {
				want = append(want, it)
			}
		}
	}
	switch va.kind {
	case "v4":
		_, stored = in.th["32"].exact(st, st.words["orig32"])
		pick(st.words["orig32"])
	case "v6s":
		_, stored = in.th["MS"].exact(st, st.words["orig64"])
		pick(st.words["orig64"])
	case "v6l":
		if _, ok := in.th["MS"].exact(st, st.words["orig64"]); ok {
			_, stored = in.th["LS"].exact(st, st.words["origLS"])
			pick(st.words["origLS"])
		}
	}
	if st.sameWord(called, want) || !stored && len(called) == 0 {
		return
	}
	st.fail("content", "the callback is called for %s while %s is strictly inside the target (stored: %v)", st.showWord(called), st.showWord(want), fmt.Sprint(stored))
}
