package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Enumeration of domain trees, by induction on the height: the recursive function is analysed once for any node
// and any name, its calls for the children being taken at what is to be shown. What is sent must be the node's
// own binding, if it has one, and the bindings below each child once, under the child's label put before the name.

const enumMarker = "all bindings below the children"

// childItem stands for what is sent for one child.
func childItem(x, name Value) Item {
	return Item{K: VApp{F: "below", Args: []Value{x, name}}, V: VNil{}}
}

func (d *DomInst) enumMap(st *State, m labelMap) Value {
	if m.base != 0 && !m.null || m.lbl > 0 {
		st.abort("undecided", "enumerates children of an unexpected node")
	}
	if _, ok := st.ghosts["kids"]; ok {
		st.fail("content", "enumerates the children twice")
	}
	c := &Chan{ID: st.id(), T: d.mapEnum, Outer: true, Closed: 0}
	st.chans[c.ID] = c
	st.ghosts["kids"] = VChan{c.ID}
	if m.null {
		st.ghosts["rest"] = VStr{"none"}
	}
	return VChan{c.ID}
}

// collapse takes the child received last as done.
func (d *DomInst) collapse(st *State) {
	x, ok := st.ghosts["child"].(VOpq)
	if !ok {
		return
	}
	delete(st.ghosts, "child")
	out := st.chans[st.ghosts["ch"].(VChan).ID]
	at := -1
	for i, it := range out.W {
		if k, ok := it.K.(VApp); ok && k.F == "below" {
			if at >= 0 || !valSame(k.Args[0], x) {
				st.fail("content", "enumerates what is below a child more than once")
			}
			at = i
			want := d.childName(st, x)
			if !valSame(k.Args[1], want) {
				st.fail("content", "enumerates what is below a child under the name %s instead of %s", st.show(k.Args[1]), st.show(want))
			}
		}
	}
	if at < 0 {
		st.fail("content", "doesn't enumerate what is below one of the children")
	}
	w := append(append([]Item(nil), out.W[:at]...), out.W[at+1:]...)
	seen := false
	for _, it := range w {
		if s, ok := it.K.(VStr); ok && s.S == enumMarker {
			seen = true
		}
	}
	if !seen {
		w = append(w, Item{K: VStr{enumMarker}, V: VNil{}})
	}
	out.W = w
}

func (d *DomInst) childName(st *State, x VOpq) Value {
	l := VApp{F: "nn:human", Args: []Value{x}}
	if s, ok := st.ghosts["s"].(VApp); ok {
		return catStrings(l, catStrings(VStr{"."}, s))
	}
	return l
}

// catStrings joins parts of strings.
func catStrings(a, b Value) Value {
	var parts []Value
	for _, v := range []Value{a, b} {
		if x, ok := v.(VApp); ok && x.F == "nn:cat" {
			parts = append(parts, x.Args...)
		} else {
			parts = append(parts, v)
		}
	}
	var out []Value
	for _, v := range parts {
		if s, ok := v.(VStr); ok {
			if s.S == "" {
				continue
			}
			if n := len(out); n > 0 {
				if t, ok := out[n-1].(VStr); ok {
					out[n-1] = VStr{t.S + s.S}
					continue
				}
			}
		}
		out = append(out, v)
	}
	switch len(out) {
	case 0:
		return VStr{""}
	case 1:
		return out[0]
	}
	return VApp{F: "nn:cat", Args: out}
}

func nonEmptyString(v Value) bool {
	x, ok := v.(VApp)
	return ok && (x.F == "nn:human" || x.F == "nn:name" || x.F == "nn:cat")
}

func (d *DomInst) recv(st *State, v Value, x *ssa.UnOp) Value {
	ret := func(v Value, ok bool) Value {
		if x.CommaOk {
			return VTuple{[]Value{v, VBool{Known: true, Val: ok}}}
		}
		return v
	}
	et := x.X.Type().Underlying().(*types.Chan).Elem()
	if c, ok := v.(VChan); !ok || !valSame(c, st.ghosts["kids"]) {
		if _, ok := v.(VNil); ok {
			st.abort("channel", "receive from a nil channel blocks forever")
		}
		st.abort("undecided", "receive from %s", st.show(v))
	}
	if n, ok := st.ghosts["next"].(VOpq); ok {
		delete(st.ghosts, "next")
		d.collapse(st)
		st.ghosts["child"] = n
		s, ok := et.Underlying().(*types.Struct)
		if !ok || s.NumFields() != 2 {
			st.abort("undecided", "unexpected type of children's entries")
		}
		cells := make([]Value, 2)
		for i := range cells {
			if isString(s.Field(i).Type()) {
				cells[i] = VApp{F: "nn:human", Args: []Value{n}}
				if st.ghosts["raw"] != nil {
					cells[i] = VApp{F: "binary", Args: []Value{n}}
				}
			} else {
				cells[i] = d.wrap(VApp{F: "nn:child", Args: []Value{n}})
			}
		}
		return ret(VAgg{cells}, true)
	}
	if _, ok := st.ghosts["rest"]; ok {
		d.collapse(st)
		return ret(zeroValue(et), false)
	}
	st.fork(func(c *State) bool {
		if m, ok := c.ghosts["f:any"].(VBool); ok && !m.Val {
			return false
		}
		c.ghosts["f:any"] = VBool{Known: true, Val: true}
		c.ghosts["next"] = c.newOpq()
		return true
	}, func(c *State) bool {
		if m, ok := c.ghosts["f:any"].(VBool); ok && m.Val && c.ghosts["child"] == nil {
			return false
		}
		c.ghosts["rest"] = VStr{"none"}
		return true
	})
	return nil
}

func (in *DomInst) enumObligations() (obs []*Obligation, errs []anchorErr) {
	top := in.p.MethodOf(in.T, "Enumerate")
	if top == nil || len(top.Params) != 1 {
		return nil, []anchorErr{{in.rel + " has no Enumerate", domProps}}
	}
	// the recursive function
	var rec *ssa.Function
	e := &Engine{prog: in.p, rec: map[*ssa.Function]bool{}}
	for _, f := range in.p.closure(top) {
		if f.Pkg == in.pkg && f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), in.nodeP) && e.isRec(f) {
			if rec != nil {
				rec = nil
				break
			}
			rec = f
		}
	}
	if rec == nil {
		return nil, []anchorErr{{in.rel + ": no recursive method enumerates the tree", []string{"C25"}}}
	}
	for _, fn := range []*ssa.Function{top, rec} {
		for _, isNil := range []bool{false, true} {
			ob := in.enumObligation(fn, rec, isNil)
			if ob == nil {
				return nil, []anchorErr{{fn.String() + " has unexpected parameters", []string{"C25"}}}
			}
			ob.Class = "dom/enum/" + fn.Name() + "/" + map[bool]string{true: "nil"}[isNil] + in.isoKey(fn)
			obs = append(obs, ob)
		}
	}
	return
}

func (in *DomInst) enumObligation(fn, rec *ssa.Function, isNil bool) *Obligation {
	// parameters of the recursive function
	pn, ps, pc := -1, -1, -1
	for i, p := range rec.Params {
		switch t := p.Type(); {
		case types.Identical(t, in.nodeP) && pn < 0:
			pn = i
		case isString(t) && ps < 0:
			ps = i
		default:
			if _, ok := t.Underlying().(*types.Chan); !ok || pc >= 0 {
				return nil
			}
			pc = i
		}
	}
	if pn < 0 || ps < 0 || pc < 0 {
		return nil
	}
	cp := *in
	in = &cp
	in.kidsN = []int{0}
	ob := &Obligation{Name: in.rel + "." + in.T.Obj().Name() + "." + fn.Name() + " (enumeration)", fn: fn, contracts: in.contracts(false)}
	if isNil {
		ob.Name += " (nil)"
	}
	in.base(ob)
	ob.noGo = fn == rec
	ps0 := []string{"C25"}
	with := func(qs ...string) []string {
		if isNil {
			return append(qs, "C26")
		}
		return qs
	}
	ob.Props = map[string][]string{"content": with(ps0...), "panic": with("C27", "C25"), "channel": with("C29", "C25"), "write": with("C02", "C25")}
	ob.rule = "the node's own binding and the bindings below each child are sent once, each child under its label put before the name, and the channel is closed once"
	ob.strLen = func(st *State, v Value) (Lin, bool) {
		if !nonEmptyString(v) {
			return Lin{}, false
		}
		s := linS(st.newSym())
		st.zone.assumeLE0(linC(1).sub(s))
		return s, true
	}
	ob.strEqual = func(st *State, a, b Value) (bool, bool) {
		if s, ok := a.(VStr); ok && s.S == "" && nonEmptyString(b) {
			return false, true
		}
		if s, ok := b.(VStr); ok && s.S == "" && nonEmptyString(a) {
			return false, true
		}
		return false, false
	}
	ob.concatFn = func(st *State, a, b Value) (Value, bool) { return catStrings(a, b), true }
	ob.recvFn = in.recv
	ob.contracts[rec] = func(st *State, a []Value) (Value, bool) {
		c, ok := a[pn].(VApp)
		if !ok || c.F != "nn:child" {
			return nil, false
		}
		ch, ok := a[pc].(VChan)
		if !ok || st.chans[ch.ID] == nil {
			st.abort("undecided", "enumerates a child into %s", st.show(a[pc]))
		}
		st.ghosts["ch"] = ch
		o := st.chans[ch.ID]
		if o.Closed > 0 {
			st.abort("panic", "send on a closed channel")
		}
		if !st.inGo() && !o.Outer {
			st.abort("channel", "send on a channel nobody can receive from yet")
		}
		o.W = append(append([]Item(nil), o.W...), childItem(c.Args[0], a[ps]))
		return VTuple{}, true
	}
	if h := in.labels.Pkg.Func("MakeHumanReadableLabel"); h != nil {
		// what it makes is C20
		ob.contracts[h] = func(st *State, a []Value) (Value, bool) {
			x, ok := a[0].(VApp)
			if !ok || x.F != "binary" {
				st.abort("undecided", "human-readable form of %s", st.show(a[0]))
			}
			return VApp{F: "nn:human", Args: x.Args}, true
		}
	}
	ob.sendFn = func(st *State, x Value) Item {
		a, ok := x.(VAgg)
		if !ok || len(a.C) != 2 {
			st.abort("undecided", "sends %s", st.show(x))
		}
		return Item{K: a.C[0], V: a.C[1]}
	}
	ob.setup = func(st *State) []Value {
		var recv Value = VNil{}
		if !isNil {
			recv = in.node(st, 0)
		}
		st.ghosts["n"] = VInt{linC(0)}
		if fn != rec {
			st.ghosts["s"] = VStr{""}
			return []Value{recv}
		}
		s := VApp{F: "nn:name", Args: []Value{st.newOpq()}}
		st.ghosts["s"] = s
		c := &Chan{ID: st.id(), T: rec.Params[pc].Type().Underlying().(*types.Chan).Elem(), Outer: true}
		st.chans[c.ID] = c
		st.ghosts["ch"] = VChan{c.ID}
		args := make([]Value, 3)
		args[pn], args[ps], args[pc] = recv, s, VChan{c.ID}
		return args
	}
	ob.exitFn = func(st *State, res Value) {
		cv := res
		if fn == rec {
			cv = st.ghosts["ch"]
		}
		ch, ok := cv.(VChan)
		if !ok || st.chans[ch.ID] == nil {
			st.fail("channel", "doesn't return a channel but %s", st.show(res))
		}
		st.ghosts["ch"] = ch
		if fn != rec && st.chans[ch.ID].Closed != 1 {
			st.fail("channel", "the channel isn't closed")
		}
		if fn == rec && st.chans[ch.ID].Closed != 0 {
			st.fail("channel", "closes the channel before all is sent")
		}
		in.collapse(st)
		_, began := st.ghosts["kids"]
		if _, ended := st.ghosts["rest"]; began && !ended {
			st.fail("channel", "doesn't receive all of the children, which blocks their producer forever")
		}
		kids, own := 0, 0
		for _, it := range st.chans[ch.ID].W {
			if s, ok := it.K.(VStr); ok && s.S == enumMarker {
				kids++
				continue
			}
			own++
			if own > 1 {
				st.fail("content", "sends something more than the node's binding: %s", st.showItem(it))
			}
			if isNil {
				st.fail("content", "sends %s for a nil tree", st.showItem(it))
			}
			if !valSame(it.K, st.ghosts["s"]) || !valSame(it.V, domTerm("val", 0)) {
				st.fail("content", "sends %s instead of the node's name and value", st.showItem(it))
			}
		}
		if isNil {
			return
		}
		if !began && !in.isEmpty(st, labelMap{base: 0}) {
			st.fail("content", "doesn't enumerate the children")
		}
		if in.fact(st, "hv", 0) != (own == 1) {
			st.fail("content", "sends %d bindings of the node itself which should be %d", own, 1-own)
		}
	}
	return ob
}
