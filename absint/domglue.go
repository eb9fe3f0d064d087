package main

import (
	"fmt"
	"go/types"
	"hash/maphash"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Domain trees. A tree is described relative to the name d the operation is about, which has n labels: the
// nodes on the way down d's labels as far as the tree has them (depths 0 to m), and for each of them the
// children which aren't on the way, as a whole. The number of labels is at most 127, so it's enumerated;
// everything else stays symbolic. Label trees are taken at what their own obligations establish.
//
// Terms: dom:hv(e), dom:val(e) and dom:br(e) are the fields of the node at depth e before the call,
// nn:label(e) is the e-th label of d (from 1), the key of node e in dom:br(e-1).
// Facts decided on a path: kid(e): node e has a child on the way; oth(e): it has other children; hv(e): it
// holds a value; nil(e): its field for the children is nil.

// DomInst is one domain tree type.
type DomInst struct {
	pkg           *ssa.Package
	rel           string
	T             *types.Named
	mapT          *types.Named
	br, hv, val   int
	valT          types.Type
	sized         bool
	labels        *ssa.Function // domain.Name.GetLabels
	p             *Program
	mapEnum       types.Type
	names         map[string]string
	nodeP         types.Type
	kidsN         []int
	contractNames map[*ssa.Function]string
}

var domProps = []string{"C01", "C22", "C23", "C24", "C25", "C26", "C27", "C29"}

func findDomInst(p *Program) []*DomInst {
	var out []*DomInst
	for _, q := range p.Pkgs {
		for _, mn := range sortedNames(q.Members) {
			tm, ok := q.Members[mn].(*ssa.Type)
			if !ok || !tm.Object().Exported() {
				continue
			}
			named, ok := tm.Type().(*types.Named)
			if !ok {
				continue
			}
			s, ok := named.Underlying().(*types.Struct)
			if !ok || s.NumFields() != 3 {
				continue
			}
			ins := p.MethodOf(named, "Insert")
			if ins == nil || len(ins.Params) != 3 {
				continue
			}
			dn, ok := ins.Params[1].Type().(*types.Named)
			if !ok || dn.Obj().Pkg() == nil || dn.Obj().Pkg().Path() != p.Mod+"/domain" {
				continue
			}
			in := &DomInst{pkg: q, rel: strings.TrimPrefix(q.Pkg.Path(), p.Mod+"/"), T: named, br: -1, hv: -1, val: -1, p: p}
			in.labels = p.MethodOf(dn, "GetLabels")
			for i := 0; i < 3; i++ {
				t := s.Field(i).Type()
				n := ptrNamed(t)
				b, _ := t.Underlying().(*types.Basic)
				switch {
				case n != nil && in.br < 0:
					in.br, in.mapT = i, n
				case b != nil && b.Kind() == types.Bool && in.hv < 0:
					in.hv = i
				default:
					in.val, in.valT = i, t
				}
			}
			if in.br < 0 || in.hv < 0 || in.val < 0 || in.labels == nil {
				continue
			}
			in.nodeP = types.NewPointer(named)
			in.sized = in.mapT.Obj().Pkg() == q.Pkg
			in.contractNames = map[*ssa.Function]string{}
			gen := map[string]string{"RawGet": "get", "RawInsert": "insert", "RawInplaceInsert": "inplace", "RawDelete": "delete", "IsEmpty": "empty", "Enumerate": "enum",
				"Get": "-", "Insert": "-", "InplaceInsert": "-", "Delete": "-", "RawEnumerate": "enumraw", "Dot": "-"}
			siz := map[string]string{"rawGet": "get", "rawInsert": "insert", "rawInplaceInsert": "inplace", "rawDel": "delete", "isEmpty": "empty", "enumerate": "enum",
				"get": "-", "insert": "-", "inplaceInsert": "-", "del": "-", "rawEnumerate": "enumraw", "dot": "-"}
			tab, mk := gen, "NewTree"
			if in.sized {
				tab, mk = siz, "newLabelTree"
			}
			for k, v := range tab {
				if f := p.MethodOf(in.mapT, k); f != nil {
					in.contractNames[f] = v
				}
			}
			for _, q2 := range p.Pkgs {
				if q2.Pkg == in.mapT.Obj().Pkg() {
					if f := q2.Func(mk); f != nil {
						in.contractNames[f] = "new"
					}
				}
			}
			out = append(out, in)
		}
	}
	return out
}

// ---- terms

func domTerm(f string, e int) VApp {
	return VApp{F: "dom:" + f, Args: []Value{VInt{linC(int64(e))}}}
}
func domLabel(e int) VApp { return VApp{F: "nn:label", Args: []Value{VInt{linC(int64(e))}}} }

func domDepth(v Value, f string) (int, bool) {
	x, ok := v.(VApp)
	if !ok || x.F != f || len(x.Args) != 1 {
		return 0, false
	}
	i, ok := x.Args[0].(VInt)
	if !ok || !i.L.isConst() {
		return 0, false
	}
	return int(i.L.k), true
}

// ---- facts

func factKey(kind string, e int) string { return "f:" + kind + ":" + itoa(e) }

func (d *DomInst) n(st *State) int {
	if v, ok := st.ghosts["n"].(VInt); ok {
		return int(v.L.k)
	}
	var alts []func(c *State) bool
	for _, n := range d.kidsN {
		n := n
		alts = append(alts, func(c *State) bool { c.ghosts["n"] = VInt{linC(int64(n))}; return true })
	}
	st.fork(alts...)
	return 0
}

// known looks a fact up.
func (d *DomInst) known(st *State, kind string, e int) (val, ok bool) {
	if b, ok := st.ghosts[factKey(kind, e)].(VBool); ok {
		return b.Val, true
	}
	get := func(k string) (bool, bool) {
		b, ok := st.ghosts[factKey(k, e)].(VBool)
		return b.Val, ok
	}
	switch kind {
	case "kid":
		if n, ok := st.ghosts["n"].(VInt); ok && e >= int(n.L.k) {
			return false, true
		}
		if x, ok := get("nil"); ok && x {
			return false, true
		}
	case "oth":
		if x, ok := get("nil"); ok && x {
			return false, true
		}
	case "nil":
		for _, k := range []string{"kid", "oth"} {
			if x, ok := get(k); ok && x {
				return false, true
			}
		}
	}
	return false, false
}

// consistent: a node without children can't have some, and every node but the root has a value or children.
func (d *DomInst) consistent(st *State, e int) bool {
	kid, k1 := d.known(st, "kid", e)
	oth, k2 := d.known(st, "oth", e)
	hv, k3 := d.known(st, "hv", e)
	if b, ok := st.ghosts[factKey("nil", e)].(VBool); ok && b.Val {
		if x, ok := st.ghosts[factKey("kid", e)].(VBool); ok && x.Val {
			return false
		}
		if x, ok := st.ghosts[factKey("oth", e)].(VBool); ok && x.Val {
			return false
		}
	}
	return e == 0 || !(k1 && k2 && k3 && !kid && !oth && !hv)
}

// fact decides a fact about the node at depth e, forking when it's open.
func (d *DomInst) fact(st *State, kind string, e int) bool {
	if v, ok := d.known(st, kind, e); ok {
		return v
	}
	if kind == "kid" {
		if n := d.n(st); e >= n {
			return false
		}
	}
	alt := func(val bool) func(c *State) bool {
		return func(c *State) bool {
			c.ghosts[factKey(kind, e)] = VBool{Known: true, Val: val}
			return d.consistent(c, e)
		}
	}
	st.fork(alt(true), alt(false))
	return false
}

// node is the node at depth e.
func (d *DomInst) node(st *State, e int) VPtr {
	k := "obj:" + itoa(e)
	if p, ok := st.ghosts[k].(VPtr); ok {
		return p
	}
	cells := make([]Value, 3)
	cells[d.br], cells[d.hv], cells[d.val] = domTerm("br", e), domTerm("hv", e), domTerm("val", e)
	o := st.newObj(d.T, cells, false)
	o.Tag = "P" + itoa(e)
	p := VPtr{o.ID, 0}
	st.ghosts[k] = p
	return p
}

// ---- label trees

// labelMap is what is known about a tree of labels: what it was made from and one key's value that differs.
type labelMap struct {
	base  int // depth, or -1 for nothing
	lbl   int // 0: no key differs
	child Value
	obj   *Obj
	null  bool
}

func (d *DomInst) mapOf(st *State, v Value) labelMap {
	switch x := v.(type) {
	case VNil:
		return labelMap{base: -1, null: true}
	case VApp:
		if e, ok := domDepth(x, "dom:br"); ok {
			return labelMap{base: e}
		}
	case VPtr:
		o := st.objs[x.O]
		if o == nil || x.P != 0 || !types.Identical(o.T, d.mapT) {
			break
		}
		if o.Tag != "map" {
			for _, c := range o.Cells {
				if _, ok := c.(VNil); !ok {
					st.abort("undecided", "tree of labels made by hand")
				}
			}
			return labelMap{base: -1, obj: o}
		}
		return labelMap{base: int(o.Cells[0].(VInt).L.k), lbl: int(o.Cells[1].(VInt).L.k), child: o.Cells[2], obj: o}
	}
	st.abort("undecided", "tree of labels expected but got %s", st.show(v))
	return labelMap{}
}

func (d *DomInst) newMap(st *State, base, lbl int, child Value) VPtr {
	o := st.newObj(d.mapT, []Value{VInt{linC(int64(base))}, VInt{linC(int64(lbl))}, child}, true)
	o.Tag = "map"
	return VPtr{o.ID, 0}
}

func (d *DomInst) label(st *State, m labelMap, v Value) int {
	k, ok := domDepth(v, "nn:label")
	if !ok {
		st.abort("undecided", "a child is looked for under %s, which isn't a label of the name", st.show(v))
	}
	if m.base >= 0 && k != m.base+1 || m.lbl > 0 && k != m.lbl {
		st.abort("undecided", "a child is looked for under label %d of the name in the children of the node which %d labels lead to", k, m.base)
	}
	return k
}

// has tells whether the tree has the key, and its value.
func (d *DomInst) has(st *State, m labelMap, k int) (Value, bool) {
	if m.lbl > 0 {
		_, gone := m.child.(VNil)
		return m.child, !gone
	}
	if m.base < 0 || !d.fact(st, "kid", m.base) {
		return nil, false
	}
	return d.node(st, m.base+1), true
}

func (d *DomInst) isEmpty(st *State, m labelMap) bool {
	if m.lbl > 0 {
		if _, gone := m.child.(VNil); !gone {
			return false
		}
	} else if m.base >= 0 && d.fact(st, "kid", m.base) {
		return false
	}
	return m.base < 0 || !d.fact(st, "oth", m.base)
}

func (d *DomInst) unwrap(st *State, v Value) Value {
	if i, ok := v.(VIface); ok && types.Identical(i.T, d.nodeP) {
		v = i.V
	}
	p, ok := v.(VPtr)
	if !ok || p.P != 0 || st.objs[p.O] == nil || !types.Identical(st.objs[p.O].T, d.T) {
		st.abort("undecided", "node expected but got %s", st.show(v))
	}
	return p
}

func (d *DomInst) wrap(v Value) Value {
	if d.sized {
		return v
	}
	return VIface{d.nodeP, v}
}

func (d *DomInst) contracts(inplace bool) map[*ssa.Function]contractFn {
	out := map[*ssa.Function]contractFn{}
	for fn, kind := range d.contractNames {
		fn, kind := fn, kind
		out[fn] = func(st *State, a []Value) (Value, bool) {
			if kind == "new" {
				return d.newMap(st, -1, 0, VNil{}), true
			}
			st.eng.fnsSeen[fn] = true
			m := d.mapOf(st, a[0])
			switch kind {
			case "get":
				if c, ok := d.has(st, m, d.label(st, m, a[1])); ok {
					return VTuple{[]Value{d.wrap(c), VBool{Known: true, Val: true}}}, true
				}
				return VTuple{[]Value{VNil{}, VBool{Known: true}}}, true
			case "insert":
				return d.newMap(st, m.base, d.label(st, m, a[1]), d.unwrap(st, a[2])), true
			case "delete":
				k := d.label(st, m, a[1])
				if _, ok := d.has(st, m, k); !ok {
					return VTuple{[]Value{a[0], VBool{Known: true}}}, true
				}
				return VTuple{[]Value{d.newMap(st, m.base, k, VNil{}), VBool{Known: true, Val: true}}}, true
			case "empty":
				return VBool{Known: true, Val: d.isEmpty(st, m)}, true
			case "inplace":
				if m.null || m.obj == nil && d.fact(st, "nil", m.base) {
					st.abort("panic", "inserts in place into a nil tree of labels")
				}
				k := d.label(st, m, a[1])
				c := d.unwrap(st, a[2])
				if m.obj == nil || !m.obj.Fresh {
					if !inplace {
						st.fail("write", "changes children of a node which belongs to the tree before the call")
					}
				}
				if m.obj == nil {
					x := d.newMap(st, m.base, k, c)
					st.objs[x.O].Fresh = false
					from := a[0]
					st.rewrite(func(v Value) Value {
						if valSame(v, from) {
							return x
						}
						return v
					})
					return VTuple{}, true
				}
				m.obj.Tag = "map"
				m.obj.Cells = []Value{VInt{linC(int64(m.base))}, VInt{linC(int64(k))}, c}
				return VTuple{}, true
			case "enum", "enumraw":
				if kind == "enumraw" {
					st.ghosts["raw"] = VStr{"raw"}
				}
				return d.enumMap(st, m), true
			}
			st.abort("undecided", "unexpected use of %s", fn)
			return nil, false
		}
	}
	return out
}

// ---- obligations

func domObligations(p *Program) (obs []*Obligation, errs []anchorErr) {
	insts := findDomInst(p)
	if len(insts) != 5 {
		errs = append(errs, anchorErr{"expected 5 domain trees, found " + itoa(len(insts)), domProps})
	}
	for _, in := range insts {
		for _, op := range []struct {
			name, kind string
			np         int
		}{{"Insert", "insert", 3}, {"InplaceInsert", "inplace", 3}, {"Get", "get", 2}, {"Delete", "delete", 2}, {"DeleteSubdomains", "delsub", 2}} {
			fn := p.MethodOf(in.T, op.name)
			if fn == nil || len(fn.Params) != op.np {
				errs = append(errs, anchorErr{in.rel + " has no " + op.name, domProps})
				continue
			}
			for _, isNil := range []bool{false, true} {
				if isNil && op.kind == "inplace" {
					continue
				}
				for _, ns := range domCounts() {
					ob := in.obligation(op.kind, fn, isNil, ns)
					ob.Class = fmt.Sprint("dom/", op.kind, isNil, ns, in.isoKey(fn))
					ob.Cost = ns[len(ns)-1] / 20
					obs = append(obs, ob)
				}
			}
		}
		o, e := in.enumObligations()
		obs = append(obs, o...)
		errs = append(errs, e...)
	}
	return
}

func (in *DomInst) isoKey(fn *ssa.Function) string {
	return in.p.isoKey(fn, map[string]string{in.pkg.Pkg.Path(): "PKG", in.valT.String(): "VAL"}, in.T.Underlying().String(), in.mapT.Underlying().String())
}

// domCounts are the numbers of labels to look at, in portions.
func domCounts() [][]int {
	out := [][]int{{}, {127}}
	for i := 0; i <= 8; i++ {
		out[0] = append(out[0], i)
	}
	if !thorough {
		return out
	}
	for i := 9; i < 127; i += 9 {
		var ns []int
		for k := i; k < i+9 && k < 127; k++ {
			ns = append(ns, k)
		}
		out = append(out, ns)
	}
	return out
}

var thorough bool

func (in *DomInst) base(ob *Obligation) {
	ob.inline = true
	ob.boolFn = func(st *State, v Value) (bool, bool) {
		if e, ok := domDepth(v, "dom:hv"); ok {
			return in.fact(st, "hv", e), true
		}
		return false, false
	}
	ob.nilFn = func(st *State, v Value) (bool, bool) {
		if e, ok := domDepth(v, "dom:br"); ok {
			return in.fact(st, "nil", e), true
		}
		return false, false
	}
	ob.syncFn = func(st *State) bool { return true }
}

func (in *DomInst) obligation(kind string, fn *ssa.Function, isNil bool, ns []int) *Obligation {
	cp := *in
	in = &cp
	in.kidsN = ns
	ob := &Obligation{Name: fmt.Sprintf("%s.%s.%s (names of %d to %d labels)", in.rel, in.T.Obj().Name(), fn.Name(), ns[0], ns[len(ns)-1]), fn: fn,
		contracts: in.contracts(kind == "inplace")}
	if isNil {
		ob.Name += " (nil)"
	}
	in.base(ob)
	with := func(ps ...string) []string {
		if isNil {
			return append(ps, "C26")
		}
		return ps
	}
	prop := map[string]string{"insert": "C22", "inplace": "C22", "get": "C23", "delete": "C24", "delsub": "C24"}[kind]
	ob.Props = map[string][]string{"content": with(prop), "shape": with("C27", prop), "panic": with("C27", prop), "write": with("C01", prop)}
	switch kind {
	case "insert":
		ob.rule = "the new tree differs from the old one just by the binding of the given name"
	case "inplace":
		ob.Props["write"] = with(prop)
		ob.Inplace = true
		ob.writeFn = func(st *State, o *Obj, cell int) bool { return types.Identical(o.T, in.T) }
		ob.rule = "the tree differs from before just by the binding of the given name"
	case "get":
		ob.Props["write"] = with("C02", prop)
		ob.rule = "the result is the value of the name or its closest bound ancestor, or the zero value and false"
	case "delete":
		ob.rule = "the new tree lacks just the binding of the given name; the flag tells whether there was one"
	case "delsub":
		ob.rule = "the new tree lacks just the bindings of the given name and the names under it; the flag tells whether there were any"
	}
	ob.iterFn = func(st *State, f *ssa.Function, args []Value) (int, func(int) Value, bool) {
		if f != in.labels {
			return 0, nil, false
		}
		if !valSame(args[0], st.ghosts["d"]) {
			st.abort("undecided", "labels of another name")
		}
		st.eng.fnsSeen[f] = true
		return in.n(st), func(k int) Value { return domLabel(k + 1) }, true
	}
	ob.unroll = func(st *State) { in.forget(st, kind) }
	ob.setup = func(st *State) []Value {
		var recv Value = VNil{}
		if !isNil {
			recv = in.node(st, 0)
		}
		st.ghosts["recv"] = recv
		dt := fn.Params[1].Type()
		var name Value = st.newOpq()
		if isAgg(dt) {
			cells := make([]Value, cellCount(dt))
			for i := range cells {
				cells[i] = st.newOpq()
			}
			name = VAgg{cells}
		}
		st.ghosts["d"] = name
		if len(fn.Params) == 2 {
			return []Value{recv, name}
		}
		v := st.newOpq()
		st.ghosts["v"] = v
		return []Value{recv, name, v}
	}
	ob.exitFn = func(st *State, res Value) { in.exit(st, kind, isNil, res) }
	return ob
}

// ---- what is forgotten on the way

func (d *DomInst) forget(st *State, kind string) {
	if kind != "inplace" {
		objs := map[string]Value{}
		for k, v := range st.ghosts {
			if strings.HasPrefix(k, "obj:") {
				objs[k] = v
				delete(st.ghosts, k)
			}
		}
		st.gc()
		for k, v := range objs {
			if st.objs[v.(VPtr).O] != nil {
				st.ghosts[k] = v
			}
		}
	}
	nv, ok := st.ghosts["n"].(VInt)
	if !ok {
		return
	}
	n := int(nv.L.k)
	drop := false
	for e := n; e >= 0; e-- {
		if drop {
			delete(st.ghosts, factKey("hv", e))
			delete(st.ghosts, factKey("oth", e))
			continue
		}
		hv, k1 := d.known(st, "hv", e)
		oth, k2 := d.known(st, "oth", e)
		switch kind {
		case "get":
			drop = k1 && hv
		case "delete", "delsub":
			if e == n {
				drop = kind == "delete" && k2 && oth
			} else {
				drop = k1 && hv || k2 && oth
			}
		}
	}
}

var memoSeed = maphash.MakeSeed()

// memo tells whether a state is new, without any generalisation.
func (e *Engine) memo(st *State, atHead bool) bool {
	if !st.forked {
		return true
	}
	st.forked = false
	st.prune(atHead)
	e.ob.unroll(st)
	st.gc()
	c := st.canonical(nil)
	k := c.key()
	var h1, h2 maphash.Hash
	h1.SetSeed(memoSeed)
	h2.SetSeed(memoSeed)
	h1.WriteString(k)
	h2.WriteByte(1)
	h2.WriteString(k)
	key := fmt.Sprintf("%x.%x.%d", h1.Sum64(), h2.Sum64(), len(k))
	if e.debug {
		key = k
	}
	if e.seen[key] != nil {
		return false
	}
	e.seen[key] = &headRec{}
	if len(st.objs) > e.maxObjs {
		e.maxObjs = len(st.objs)
	}
	return true
}

// iterate calls fv with each of n items until it returns an error, which is the result.
func (e *Engine) iterate(st *State, fv Value, k, n int, item func(int) Value, res *ssa.Call) bool {
	done := func(v Value) {
		delete(st.ghosts, "k")
		if res != nil {
			g := st.top()
			st.setReg(g, res, v)
			g.pc++
		}
	}
	if k == n {
		done(VNil{})
		return true
	}
	if _, ok := st.ghosts["k"]; ok && k == 0 {
		st.abort("undecided", "iterates over the labels within the iteration over the labels")
	}
	st.ghosts["k"] = VInt{linC(int64(k))}
	if !e.memo(st, false) {
		panic(stopPanic{})
	}
	fn, ok := fv.(VFunc)
	if !ok {
		st.abort("undecided", "calls an unknown function for the labels")
	}
	if !e.prog.InRepo(fn.Fn) || len(fn.Fn.Blocks) == 0 || e.ob.contract(fn.Fn) != nil {
		st.abort("undecided", "calls %s for the labels", fn.Fn)
	}
	fr := e.enter(st, fn, []Value{item(k)})
	fr.cont = func(st *State, r Value) {
		switch x := r.(type) {
		case VNil:
			e.iterate(st, fv, k+1, n, item, res)
			return
		case VIface:
		case VApp:
			if x.F != "global" && x.F != "error" {
				st.abort("undecided", "unexpected error %s", st.show(r))
			}
		default:
			st.abort("undecided", "unexpected error %s", st.show(r))
		}
		delete(st.ghosts, "k")
		if res != nil {
			g := st.top()
			st.setReg(g, res, r)
			g.pc++
		}
	}
	return true
}

// ---- judging results

type domSpec struct {
	d     *DomInst
	kind  string // insert, same, delete, delsub
	n, m  int
	v     Value
	empty bool // no tree before
}

// alive tells whether the node at depth e exists afterwards.
func (s *domSpec) alive(st *State, e int) bool {
	switch {
	case s.kind == "insert":
		return e <= s.n
	case e > s.m:
		return false
	case s.kind == "same", e == 0:
		return true
	case e == s.n:
		return s.kind == "delete" && s.d.fact(st, "oth", e)
	}
	return s.alive(st, e+1) || s.d.fact(st, "hv", e) || s.d.fact(st, "oth", e)
}

func (s *domSpec) hv(e int) Value {
	switch {
	case s.kind == "insert" && e == s.n:
		return VBool{Known: true, Val: true}
	case e > s.m, e == s.n && s.kind != "same":
		return VBool{Known: true}
	}
	return domTerm("hv", e)
}

func (s *domSpec) val(e int) Value {
	switch {
	case s.kind == "insert" && e == s.n:
		return s.v
	case e > s.m, e == s.n && s.kind != "same":
		return zeroValue(s.d.valT)
	}
	return domTerm("val", e)
}

// base tells whether the node keeps the children which aren't on the way.
func (s *domSpec) base(e int) bool {
	return e <= s.m && !(e == s.n && s.kind == "delsub")
}

func (d *DomInst) simpleVal(st *State, v Value) Value {
	if e, ok := domDepth(v, "dom:val"); ok && e == 0 && !d.fact(st, "hv", 0) {
		return zeroValue(d.valT)
	}
	return v
}

func (s *domSpec) where(e int) string {
	switch {
	case e == s.n:
		return "the name's node"
	case e == 0:
		return "the root"
	}
	return fmt.Sprintf("the node of the last %d labels", e)
}

func (s *domSpec) walk(st *State, v Value, e int) {
	d := s.d
	p, ok := v.(VPtr)
	if !ok || p.P != 0 || st.objs[p.O] == nil || !types.Identical(st.objs[p.O].T, d.T) {
		st.fail("shape", "%s is %s", s.where(e), st.show(v))
	}
	o := st.objs[p.O]
	want := s.hv(e)
	has := false
	if valSame(o.Cells[d.hv], want) {
		if b, ok := want.(VBool); ok {
			has = b.Val
		} else if !valSame(o.Cells[d.val], s.val(e)) {
			has = st.toBool(want)
		} else {
			has = true
		}
	} else {
		has = st.toBool(want)
		if st.toBool(o.Cells[d.hv]) != has {
			st.fail("content", "%s (of %d labels, %d of them in the tree before) has a value: %v, but should: %v", s.where(e), s.n, s.m, !has, has)
		}
	}
	if has || e == 0 {
		w, g := s.val(e), o.Cells[d.val]
		if !valSame(w, g) && !valSame(d.simpleVal(st, w), d.simpleVal(st, g)) {
			st.fail("content", "%s (of %d labels, %d of them in the tree before) holds %s instead of %s", s.where(e), s.n, s.m, st.show(g), st.show(w))
		}
	}
	m := d.mapOf(st, o.Cells[d.br])
	if m.base >= 0 && m.base != e || m.lbl > 0 && m.lbl != e+1 {
		st.fail("content", "%s has the children of another node", s.where(e))
	}
	if s.base(e) != (m.base >= 0) && e <= s.m && d.fact(st, "oth", e) {
		if s.base(e) {
			st.fail("content", "%s (of %d labels, %d of them in the tree before) loses its children which aren't on the way to the name", s.where(e), s.n, s.m)
		}
		st.fail("content", "%s (of %d labels) keeps its children", s.where(e), s.n)
	}
	if e == s.n {
		if m.lbl > 0 {
			st.fail("content", "%s gets a child", s.where(e))
		}
		return
	}
	kid, has := d.has(st, m, e+1)
	if w := s.alive(st, e+1); w != has {
		if w {
			st.fail("content", "%s (of %d labels, %d of them in the tree before) has lost the child which leads to the name", s.where(e), s.n, s.m)
		}
		st.fail("content", "%s (of %d labels, %d of them in the tree before) has a child with nothing in it on the way to the name", s.where(e), s.n, s.m)
	}
	if has {
		s.walk(st, kid, e+1)
	}
}

func (d *DomInst) exit(st *State, kind string, isNil bool, res Value) {
	n, m := d.n(st), 0
	if isNil {
		m = -1
	} else {
		for m < n && d.fact(st, "kid", m) {
			m++
		}
	}
	recv := st.ghosts["recv"]
	s := &domSpec{d: d, kind: kind, n: n, m: m, v: st.ghosts["v"]}
	switch kind {
	case "insert":
		s.walk(st, res, 0)
	case "inplace":
		s.kind = "insert"
		s.walk(st, recv, 0)
	case "get":
		t, ok := res.(VTuple)
		if !ok || len(t.E) != 2 {
			st.abort("undecided", "unexpected result")
		}
		for e := m; e >= 0; e-- {
			if !d.fact(st, "hv", e) {
				continue
			}
			if !st.toBool(t.E[1]) {
				st.fail("content", "name of %d labels: doesn't find the value of the name of its last %d labels", n, e)
			}
			if !valSame(t.E[0], domTerm("val", e)) {
				st.fail("content", "name of %d labels: returns %s instead of the value of the name of its last %d labels", n, st.show(t.E[0]), e)
			}
			return
		}
		if st.toBool(t.E[1]) {
			st.fail("content", "name of %d labels: reports a value though neither the name nor an ancestor is bound", n)
		}
		if v := t.E[0]; !isNil {
			if !valSame(d.simpleVal(st, v), zeroValue(d.valT)) {
				st.fail("content", "returns %s instead of the zero value though nothing is found", st.show(v))
			}
		} else if !valSame(v, zeroValue(d.valT)) {
			st.fail("content", "returns %s instead of the zero value though nothing is found", st.show(v))
		}
	case "delete", "delsub":
		t, ok := res.(VTuple)
		if !ok || len(t.E) != 2 {
			st.abort("undecided", "unexpected result")
		}
		found := m == n
		if found {
			switch {
			case kind == "delete":
				found = d.fact(st, "hv", n)
			case n == 0:
				found = d.fact(st, "hv", 0) || d.fact(st, "oth", 0)
			}
		}
		if st.toBool(t.E[1]) != found {
			st.fail("content", "name of %d labels, %d of them in the tree: reports %v though the name was bound: %v", n, m, !found, found)
		}
		if isNil {
			if _, ok := t.E[0].(VNil); ok {
				return
			}
			s.m = 0
			s.kind = "none"
			st.fail("content", "returns %s for a nil tree", st.show(t.E[0]))
		}
		if !found {
			s.kind = "same"
		}
		s.walk(st, t.E[0], 0)
	}
}
