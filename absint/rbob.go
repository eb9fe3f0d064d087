package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RBInst is an ordered map implementation found in the repository.
type RBInst struct {
	pkg   *ssa.Package
	rel   string
	tree  *types.Named // the map type
	rb    *RB
	root  int // cell of the root link
	cmp   int // cell of the comparison function or -1
	label bool
	names map[string]*ssa.Function
}

// the operations of an ordered map; raw variants take the stored form of the key
type rbOp struct {
	name, kind string
	raw        bool
}

func findRBInst(p *Program) []*RBInst {
	var out []*RBInst
	for _, q := range p.Pkgs {
		for _, mn := range sortedNames(q.Members) {
			tm, ok := q.Members[mn].(*ssa.Type)
			if !ok {
				continue
			}
			named, ok := tm.Type().(*types.Named)
			if !ok {
				continue
			}
			s, ok := named.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			inst := &RBInst{pkg: q, rel: strings.TrimPrefix(q.Pkg.Path(), p.Mod+"/"), tree: named, root: -1, cmp: -1}
			good := true
			off := 0
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				if pt, ok := ft.Underlying().(*types.Pointer); ok && inst.root < 0 {
					if nn, ok := pt.Elem().(*types.Named); ok && nn != named {
						if rb := findRB(nn); rb != nil {
							inst.rb, inst.root = rb, off
							off++
							continue
						}
					}
				}
				if sg, ok := ft.Underlying().(*types.Signature); ok && inst.cmp < 0 && sg.Params().Len() == 2 && isString(sg.Params().At(0).Type()) {
					inst.cmp = off
					off++
					continue
				}
				good = false
			}
			if !good || inst.root < 0 {
				continue
			}
			inst.label = inst.cmp < 0
			out = append(out, inst)
		}
	}
	return out
}

// method finds an operation by either of its names.
func (in *RBInst) method(p *Program, names ...string) *ssa.Function {
	for _, n := range names {
		if f := p.MethodOf(in.tree, n); f != nil {
			return f
		}
	}
	return nil
}

const maxLen = 1 << 40

// rbObligations builds the obligations of all ordered maps; errs lists missing anchors.
func rbObligations(p *Program) (obs []*Obligation, errs []anchorErr) {
	props := []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C26", "C27", "C29"}
	missing := func(s string) { errs = append(errs, anchorErr{s, props}) }
	insts := findRBInst(p)
	if len(insts) != 10 {
		missing("expected 10 ordered map implementations, found " + itoa(len(insts)))
	}
	mkLabel := p.Func("domain", "MakeLabel")
	human := p.Func("domain", "MakeHumanReadableLabel")
	if mkLabel == nil || human == nil {
		missing("domain.MakeLabel or domain.MakeHumanReadableLabel not found")
	}
	for _, in := range insts {
		in := in
		ops := []rbOp{{"Insert", "insert", false}, {"InplaceInsert", "inplace", false}, {"Get", "get", false},
			{"Delete", "delete", false}, {"Enumerate", "enum", false}, {"IsEmpty", "empty", false}}
		if in.label {
			ops = append(ops, rbOp{"RawInsert", "insert", true}, rbOp{"RawInplaceInsert", "inplace", true},
				rbOp{"RawGet", "get", true}, rbOp{"RawDelete", "delete", true}, rbOp{"RawEnumerate", "enum", true})
		}
		for _, op := range ops {
			lower := strings.ToLower(op.name[:1]) + op.name[1:]
			alt := map[string]string{"delete": "del", "rawDelete": "rawDel"}[lower]
			fn := in.method(p, op.name, lower, alt)
			if fn == nil {
				missing(in.rel + "." + in.tree.Obj().Name() + " has no " + op.name)
				continue
			}
			for _, isNil := range []bool{false, true} {
				if isNil && op.kind == "inplace" {
					continue
				}
				ob := in.obligation(p, op, fn, isNil, mkLabel, human)
				ob.Class = op.kind + "/" + op.name + "/" + p.isoKey(fn, map[string]string{in.pkg.Pkg.Path(): "PKG", rbFieldType(in.rb).String(): "VAL"},
					in.tree.Underlying().String(), in.rb.T.Underlying().String())
				if isNil {
					ob.Class += "/nil"
				}
				obs = append(obs, ob)
			}
		}
		// constructors
		for _, c := range []struct{ name, kind string }{{"NewTree", "new"}, {"NewTreeWithCustomComparison", "newcmp"}, {"newLabelTree", "new"}} {
			fn := in.pkg.Func(c.name)
			if fn == nil || fn.Signature.Results().Len() != 1 || !types.Identical(fn.Signature.Results().At(0).Type(), types.NewPointer(in.tree)) {
				if c.name == "newLabelTree" && in.tree.Obj().Exported() || c.name == "NewTree" && !in.tree.Obj().Exported() || c.kind == "newcmp" && in.label {
					continue
				}
				missing(in.rel + " has no " + c.name)
				continue
			}
			obs = append(obs, in.newObligation(c.kind, fn))
		}
	}
	return
}

func (in *RBInst) newObligation(kind string, fn *ssa.Function) *Obligation {
	ob := &Obligation{Name: in.rel + "." + fn.Name(), fn: fn, theories: []Theory{in.rb},
		rule:  "a new tree is empty and has its comparison function",
		Props: map[string][]string{"content": {"C03"}, "shape": {"C03", "C27"}, "panic": {"C27", "C03"}, "write": {"C03"}}}
	ob.setup = func(st *State) []Value {
		if kind == "newcmp" {
			f := st.newOpq()
			st.ghosts["F"] = f
			return []Value{f}
		}
		return nil
	}
	ob.exitFn = func(st *State, res Value) {
		ptr, ok := res.(VPtr)
		if !ok {
			st.fail("content", "the new tree is %s", st.show(res))
		}
		o := st.objs[ptr.O]
		if !o.Fresh {
			st.fail("content", "the new tree isn't new")
		}
		if _, ok := o.Cells[in.root].(VNil); !ok {
			st.fail("content", "the new tree isn't empty")
		}
		if in.cmp >= 0 {
			in.checkCmp(st, o.Cells[in.cmp], st.ghosts["F"])
		}
	}
	return ob
}

// shapeIf is the category of what breaks the shape which all operations rely on.
func shapeIf(b bool) string {
	if b {
		return "shape"
	}
	return "content"
}

func nilFunc(v Value) bool {
	_, ok := v.(VNil)
	return ok
}

func (in *RBInst) checkCmp(st *State, got, want Value) {
	if want == nil {
		if f, ok := got.(VFunc); ok && f.Fn.String() == "strings.Compare" {
			return
		}
		st.fail(shapeIf(nilFunc(got)), "the comparison function of the tree isn't strings.Compare but %s", st.show(got))
	}
	if !valSame(got, want) {
		st.fail(shapeIf(nilFunc(got)), "the comparison function of the tree is replaced by %s", st.show(got))
	}
}

func (in *RBInst) obligation(p *Program, op rbOp, fn *ssa.Function, isNil bool, mkLabel, human *ssa.Function) *Obligation {
	rb := in.rb
	ob := &Obligation{Name: in.rel + "." + in.tree.Obj().Name() + "." + fn.Name(), fn: fn, theories: []Theory{rb}, contracts: map[*ssa.Function]contractFn{}}
	if isNil {
		ob.Name += "(nil)"
	}
	with := func(ps ...string) []string {
		if isNil {
			return append(ps, "C26")
		}
		return ps
	}
	switch op.kind {
	case "insert", "inplace":
		ob.Props = map[string][]string{"content": with("C03"), "balance": with("C06", "C27"), "shape": with("C03", "C27"), "panic": with("C27", "C03")}
		if op.kind == "insert" {
			ob.Props["write"] = with("C01")
		} else {
			ob.Inplace = true
		}
		ob.rule = "the resulting tree holds the entries before the key, the key with the new value, the entries after it, and is a balanced red-black tree"
	case "get":
		ob.Props = map[string][]string{"content": with("C04"), "panic": with("C27", "C04"), "write": with("C02")}
		ob.rule = "the result is the value of the entry equal to the key, or the zero value and false"
	case "delete":
		ob.Props = map[string][]string{"content": with("C05"), "balance": with("C06", "C27"), "shape": with("C05", "C27"), "panic": with("C27", "C05"), "write": with("C01")}
		ob.rule = "the resulting tree holds the entries before and after the key and is a balanced red-black tree; the flag tells whether the key was present"
	case "enum":
		ob.Props = map[string][]string{"content": with("C07"), "channel": with("C29", "C07"), "panic": with("C27", "C07"), "write": with("C02")}
		ob.rule = "the entries are sent in order, each once, and the channel is closed once"
	case "empty":
		ob.Props = map[string][]string{"content": with("C04"), "panic": with("C27"), "write": with("C02")}
		ob.rule = "true exactly for a tree without entries"
	}
	ob.order = ordFunc
	if in.label {
		ob.order = ordShort
	} else if isNil {
		ob.order = ordLex
	}
	if !isNil {
		ob.Cost = map[string]int{"insert": 4, "inplace": 4, "delete": 3}[op.kind]
	}
	vt := rbFieldType(rb)
	ob.setup = func(st *State) []Value {
		var recv Value = VNil{}
		if !isNil {
			a := st.newSeq(cAll)
			w := []Item{{A: a.ID}}
			st.words["orig"] = w
			bh := st.newSym()
			st.zone.assumeLE0(linS(bh).neg())
			root := rb.newSub(st, w, false, colBlack, linS(bh), false)
			cells := make([]Value, cellCount(in.tree))
			cells[in.root] = root
			if in.cmp >= 0 {
				f := st.newOpq()
				st.ghosts["F"] = f
				cells[in.cmp] = f
			}
			o := st.newObj(in.tree, cells, false)
			recv = VPtr{o.ID, 0}
		} else {
			st.words["orig"] = nil
		}
		st.ghosts["objrecv"] = recv
		args := []Value{recv}
		np := len(fn.Params) - 1
		if np >= 1 {
			k := st.newOpq()
			st.ghosts["K"] = k
			if in.label && !op.raw {
				arg := st.newOpq()
				st.ghosts["arg"] = arg
				args = append(args, arg)
			} else {
				args = append(args, k)
			}
		}
		if np >= 2 {
			v := st.newOpq()
			st.ghosts["V"] = v
			args = append(args, v)
		}
		return args
	}
	if mkLabel != nil {
		ob.contracts[mkLabel] = func(st *State, args []Value) (Value, bool) {
			if len(args) == 1 && st.ghosts["arg"] != nil && valSame(args[0], st.ghosts["arg"]) {
				return VTuple{[]Value{st.ghosts["K"], VNil{}}}, true
			}
			return VTuple{[]Value{VApp{F: "label", Args: args}, VNil{}}}, true
		}
	}
	if human != nil {
		ob.contracts[human] = func(st *State, args []Value) (Value, bool) {
			return VApp{F: "human", Args: args}, true
		}
	}
	zero := zeroValue(vt)
	ob.exitFn = func(st *State, res Value) {
		switch op.kind {
		case "insert", "inplace", "delete":
			st.resolve()
			in.exitTree(st, op, res, isNil)
		case "get":
			st.resolve()
			t, ok := res.(VTuple)
			if !ok || len(t.E) != 2 {
				st.abort("undecided", "unexpected result")
			}
			found := st.toBool(t.E[1])
			var eq *Atom
			for _, it := range st.words["orig"] {
				if a := st.atoms[it.A]; a.Mask == cEQ {
					eq = a
				}
			}
			if eq == nil {
				if found {
					st.fail("content", "reports an absent key as found (value %s)", st.show(t.E[0]))
				}
				if !valSame(t.E[0], zero) {
					st.fail("content", "returns %s instead of the zero value for an absent key", st.show(t.E[0]))
				}
				return
			}
			if !found {
				st.fail("content", "doesn't find a present key")
			}
			if !valSame(t.E[0], eq.V) {
				st.fail("content", "returns %s instead of the value of the key", st.show(t.E[0]))
			}
		case "enum":
			ch, ok := res.(VChan)
			if !ok {
				st.fail("channel", "doesn't return a channel but %s", st.show(res))
			}
			c := st.chans[ch.ID]
			if c.Closed != 1 {
				st.fail("channel", "the channel isn't closed")
			}
			f := ""
			if in.label && !op.raw {
				f = "human"
			}
			var want []Item
			for _, it := range st.words["orig"] {
				want = append(want, Item{A: it.A, F: f})
			}
			if !st.sameWord(c.W, want) {
				st.fail("content", "the channel gets %s while the tree holds %s", st.showWord(c.W), st.showWord(want))
			}
		case "empty":
			b := st.toBool(res)
			w := st.words["orig"]
			if len(w) == 0 {
				if !b {
					st.fail("content", "an empty tree is reported as not empty")
				}
				return
			}
			if b {
				st.fail("content", "a tree which may have entries is reported as empty")
			}
			one := false
			for _, it := range w {
				one = one || !st.atoms[it.A].Seq
			}
			if !one {
				st.fail("content", "a tree which may be empty is reported as not empty")
			}
		}
	}
	return ob
}

func rbFieldType(rb *RB) types.Type {
	s := rb.T.Underlying().(*types.Struct)
	off := 0
	for i := 0; i < s.NumFields(); i++ {
		if off == rb.Val {
			return s.Field(i).Type()
		}
		off += cellCount(s.Field(i).Type())
	}
	return nil
}

func (in *RBInst) exitTree(st *State, op rbOp, res Value, isNil bool) {
	var tv, flag Value
	switch op.kind {
	case "insert":
		tv = res
	case "inplace":
		tv = st.ghosts["objrecv"]
	case "delete":
		t, ok := res.(VTuple)
		if !ok || len(t.E) != 2 {
			st.abort("undecided", "unexpected result")
		}
		tv, flag = t.E[0], VBool{Known: true, Val: st.toBool(t.E[1])}
	}
	st = st.clone()
	var root Value = VNil{}
	switch x := tv.(type) {
	case VNil:
		if !(op.kind == "delete" && isNil) {
			st.fail("content", "the resulting tree is nil")
		}
	case VPtr:
		if op.kind == "delete" && valSame(tv, st.ghosts["objrecv"]) {
			// the original tree, which can't have changed
			for _, it := range st.words["orig"] {
				if st.atoms[it.A].Mask == cEQ {
					st.fail("content", "the original tree is returned though it has the key")
				}
			}
			if flag.(VBool).Val {
				st.fail("content", "the result flag is true while the key is absent")
			}
			return
		}
		o := st.objs[x.O]
		root = o.Cells[in.root]
		if in.cmp >= 0 {
			in.checkCmp(st, o.Cells[in.cmp], st.ghosts["F"])
		}
	default:
		st.abort("undecided", "the resulting tree is %s", st.show(tv))
	}
	k := st.ghosts["K"]
	v := st.ghosts["V"]
	// the searched entry as it may be rebuilt
	st.ghosts["wantK"], st.ghosts["wantV"] = k, v
	st.settle(root)
	s := st.treeContent(in.rb)
	if s == nil {
		st.fail("shape", "the result isn't a tree: %s", st.show(st.ghosts["tree"]))
	}
	if s.Color != colBlack {
		st.eng.report(st, "balance", "the root of the resulting tree may be red")
	}
	var want []Item
	exists := false
	done := false
	put := func(ek Value) {
		if !done && op.kind != "delete" {
			want = append(want, Item{K: ek, V: v})
		}
		done = true
	}
	for _, it := range st.words["orig"] {
		a := st.atoms[it.A]
		switch a.Mask {
		case cEQ:
			exists = true
			put(a.K)
		case cGT:
			put(k)
			want = append(want, it)
		default:
			want = append(want, it)
		}
	}
	put(k)
	got := s.W
	ok := st.sameWord(got, want)
	if !ok && exists {
		// an equal key may be stored in either of its two spellings
		var w2 []Item
		for _, it := range want {
			if it.A == 0 {
				it.K = k
			}
			w2 = append(w2, it)
		}
		ok = st.sameWord(got, w2)
	}
	if !ok {
		st.fail("content", "the resulting tree holds %s instead of %s", st.showWord(got), st.showWord(want))
	}
	if flag != nil && flag.(VBool).Val != exists {
		st.fail("content", "the result flag is %v while the key's presence is %v", flag.(VBool).Val, exists)
	}
}
