package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RadixInst is a radix tree found in the repository.
type RadixInst struct {
	pkg  *ssa.Package
	rel  string
	r    *Radix
	name string
}

func findRadixInst(p *Program) []*RadixInst {
	var out []*RadixInst
	for _, q := range p.Pkgs {
		for _, mn := range sortedNames(q.Members) {
			tm, ok := q.Members[mn].(*ssa.Type)
			if !ok {
				continue
			}
			named, ok := tm.Type().(*types.Named)
			if !ok {
				continue
			}
			if r := findRadix(named); r != nil {
				out = append(out, &RadixInst{pkg: q, rel: strings.TrimPrefix(q.Pkg.Path(), p.Mod+"/"), r: r, name: mn})
			}
		}
	}
	return out
}

var radixProps = []string{"C01", "C02", "C08", "C09", "C10", "C11", "C12", "C26", "C27", "C29"}

// radixObligations builds the obligations of all radix trees.
func radixObligations(p *Program) (obs []*Obligation, errs []anchorErr) {
	missing := func(s string) { errs = append(errs, anchorErr{s, radixProps}) }
	insts := findRadixInst(p)
	if len(insts) != 14 {
		missing("expected 14 radix tree implementations, found " + itoa(len(insts)))
	}
	kinds := []struct{ name, kind string }{{"Insert", "insert"}, {"InplaceInsert", "inplace"}, {"Match", "match"},
		{"ExactMatch", "exact"}, {"FindNode", "find"}, {"Delete", "delete"}, {"Enumerate", "enum"}}
	for _, in := range insts {
		for _, op := range kinds {
			fn := p.MethodOf(in.r.T, op.name)
			if fn == nil {
				if op.kind == "find" && in.rel != "numtree" {
					continue
				}
				missing(in.rel + "." + in.name + " has no " + op.name)
				continue
			}
			np := map[string]int{"insert": 4, "inplace": 4, "enum": 1}[op.kind]
			if np == 0 {
				np = 3
			}
			if len(fn.Params) != np {
				missing(fn.String() + " has unexpected parameters")
				continue
			}
			for _, isNil := range []bool{false, true} {
				for rng := 0; rng < 3; rng++ {
					if rng > 0 && op.kind == "enum" {
						continue
					}
					ob := in.obligation(p, op.kind, fn, isNil, rng)
					ob.Class = "radix/" + op.name + "/" + itoa(rng) + "/" + p.isoKey(fn, map[string]string{in.pkg.Pkg.Path(): "PKG", in.r.valT.String(): "VAL"},
						in.r.T.Underlying().String())
					if isNil {
						ob.Class += "/nil"
					}
					obs = append(obs, ob)
				}
			}
		}
	}
	return
}

func (in *RadixInst) obligation(p *Program, kind string, fn *ssa.Function, isNil bool, rng int) *Obligation {
	r := *in.r
	r.NoKey = kind == "enum"
	th := &r
	ob := &Obligation{Name: in.rel + "." + in.name + "." + fn.Name(), fn: fn, theories: []Theory{th}, contracts: map[*ssa.Function]contractFn{}, radix: true}
	ob.Name += []string{"", " (bits<0)", " (bits>" + itoa(int(r.W)) + ")"}[rng]
	with := func(ps ...string) []string {
		if isNil {
			return append(ps, "C26")
		}
		return ps
	}
	if isNil {
		ob.Name += " (nil)"
	}
	ob.syncFn = func(st *State) bool { return true }
	ob.joinMask = func(a, b uint8) bool { return (a|b)&rEQ == 0 }
	prop := map[string]string{"insert": "C08", "inplace": "C08", "match": "C09", "exact": "C10", "find": "C10", "delete": "C11", "enum": "C12"}[kind]
	ob.Props = map[string][]string{"content": with(prop), "shape": with("C27", prop), "panic": with("C27", prop)}
	switch kind {
	case "insert":
		ob.Props["write"] = with("C01")
		ob.rule = "the resulting tree is a radix tree with the given prefix bound to the value and all other prefixes as before"
	case "inplace":
		ob.Inplace = true
		ob.rule = "the tree becomes a radix tree with the given prefix bound to the value and all other prefixes as before"
	case "delete":
		ob.Props["write"] = with("C01")
		ob.rule = "the resulting tree is a radix tree with exactly the prefixes which aren't contained in the given one; the flag tells whether there were any"
		ob.joinMask = func(a, b uint8) bool {
			const kept = rANC | rOTH
			return a&^kept == 0 && b&^kept == 0 || a == rDESC && b == rDESC
		}
	case "match":
		ob.Props["write"] = with("C02")
		ob.keepRes = true
		ob.rule = "the result is the value of the last entry on the path to the given prefix, or the zero value and false"
	case "exact", "find":
		ob.Props["write"] = with("C02")
		ob.keepRes = true
		ob.rule = "the result is the entry of the given prefix, or nothing"
	case "enum":
		ob.Props["write"] = with("C02")
		ob.Props["channel"] = with("C29", prop)
		ob.rule = "the nodes with data are sent in order, each once, and the channel is closed once"
		ob.sendFn = func(st *State, x Value) Item {
			ptr, ok := x.(VPtr)
			if ok && ptr.P == 0 && st.objs[ptr.O] != nil && th.Node(st.objs[ptr.O].T) {
				o := st.objs[ptr.O]
				if key, bits, leaf, ok := th.parts(o); ok {
					if !leaf {
						st.abort("content", "a node without data is sent")
					}
					return th.item(st, key, bits, o.Cells[th.Val])
				}
			}
			st.abort("content", "%s is sent instead of a node with data", st.show(x))
			return Item{}
		}
	}
	if !isNil {
		ob.Cost = map[string]int{"insert": 5, "inplace": 5, "delete": 5}[kind]
		if rng > 0 {
			ob.Cost--
		}
	}
	ob.tabFn = func(st *State) {
		st.narrowOrig()
		for i, id := range sortedKeys(st.subs) {
			if R := st.subs[id].R; R != nil {
				st.ghosts[fmt.Sprintf("cutlo%03d", i)] = VTuple{[]Value{VInt{R.loB}, VInt{R.loC}}}
			}
		}
	}
	ob.setup = func(st *State) []Value {
		var recv Value = VNil{}
		st.facts.W = th.W
		if kind != "enum" {
			st.facts.K = st.id()
			k := litWord(st.facts.K, th.W)
			st.ghosts["K"] = k
		}
		st.words["orig"] = nil
		if !isNil {
			m := rAll
			if kind == "enum" {
				m = rOTH
			}
			a := st.newSeq(m)
			w := []Item{{A: a.ID}}
			st.words["orig"] = w
			recv = th.newSub(st, w, false, true, &RadixSub{})
		}
		args := []Value{recv}
		if kind == "enum" {
			return args
		}
		b := linS(st.newSym())
		q := b
		switch rng {
		case 0:
			st.zone.assumeLE0(b.neg())
			st.zone.assumeLE0(b.addC(-th.W))
		case 1:
			st.zone.assumeLE0(b.addC(1))
			q = linC(0)
		case 2:
			st.zone.assumeLE0(b.neg().addC(th.W + 1))
			q = linC(th.W)
		}
		st.ghosts["Q"] = VInt{q}
		args = append(args, st.ghosts["K"], VInt{b})
		if kind == "insert" || kind == "inplace" {
			v := st.newOpq()
			st.ghosts["V"] = v
			args = append(args, v)
		}
		return args
	}
	zero := zeroValue(r.valT)
	ob.exitFn = func(st *State, res Value) {
		switch kind {
		case "insert", "inplace":
			st.divide(rEQ, false)
			th.exitTree(st, kind, res)
		case "delete":
			st.divide(rEQ|rDESC, false)
			th.exitTree(st, kind, res)
		case "match", "exact", "find":
			m := rANC | rEQ
			if kind != "match" {
				m = rEQ
			}
			hit := st.divide(m, kind == "match")
			what := map[string]string{"match": "no stored prefix contains the given one", "exact": "the prefix isn't stored", "find": "the prefix isn't stored"}[kind]
			if kind == "find" {
				if hit == nil {
					if _, ok := res.(VNil); !ok {
						st.fail("content", "returns %s though %s", st.show(res), what)
					}
					return
				}
				if ptr, ok := res.(VPtr); ok && ptr.P == 0 && st.objs[ptr.O] != nil && th.Node(st.objs[ptr.O].T) {
					o := st.objs[ptr.O]
					key, bits, leaf, ok := th.parts(o)
					if ok && leaf && st.sameWord([]Item{th.item(st, key, bits, o.Cells[th.Val])}, []Item{{A: hit.ID}}) {
						return
					}
				}
				st.fail("content", "returns %s instead of the node of the prefix", st.show(res))
			}
			t, ok := res.(VTuple)
			if !ok || len(t.E) != 2 {
				st.abort("undecided", "unexpected result")
			}
			found := st.toBool(t.E[1])
			if hit == nil {
				if found {
					st.fail("content", "reports a value (%s) though %s", st.show(t.E[0]), what)
				}
				if !valSame(t.E[0], zero) {
					st.fail("content", "returns %s instead of the zero value though %s", st.show(t.E[0]), what)
				}
				return
			}
			if !found {
				st.fail("content", "doesn't find a stored prefix")
			}
			if !valSame(t.E[0], hit.V) {
				st.fail("content", "returns %s instead of the value of the right prefix", st.show(t.E[0]))
			}
		case "enum":
			ch, ok := res.(VChan)
			if !ok {
				st.fail("channel", "doesn't return a channel but %s", st.show(res))
			}
			c := st.chans[ch.ID]
			if c.Closed != 1 {
				st.fail("channel", "the channel isn't closed")
			}
			if !st.sameWord(c.W, st.words["orig"]) {
				st.fail("content", "the channel gets %s while the tree holds %s", st.showWord(c.W), st.showWord(st.words["orig"]))
			}
		}
	}
	return ob
}

// narrowOrig drops what a function can't reach from the initial content as the function sees it.
func (st *State) narrowOrig() {
	orig := st.words["orig"]
	delete(st.words, "orig")
	here, vals := map[int]bool{}, map[int]bool{}
	st.eachWord(func(w []Item) []Item {
		for _, it := range w {
			here[it.A] = true
		}
		return w
	})
	for _, o := range st.objs {
		for _, c := range o.Cells {
			if q, ok := c.(VOpq); ok {
				vals[q.ID] = true
			}
		}
	}
	var w []Item
	for _, it := range orig {
		q, ok := st.atoms[it.A].V.(VOpq)
		if here[it.A] || ok && vals[q.ID] {
			w = append(w, it)
		}
	}
	st.words["orig"] = w
	st.gc()
}

// divide makes it definite for every piece of the initial content whether its class is one of the given,
// forking when open: an open run yields a single entry of the class. With last set only what follows the
// last such entry matters.
func (st *State) divide(m uint8, last bool) *Atom {
	w := st.words["orig"]
	var hit *Atom
	for i := len(w) - 1; i >= 0; i-- {
		a := st.atoms[w[i].A]
		if a.Mask&m == 0 || a.Seq && a.Mask&^m == 0 && m&rDESC != 0 {
			continue
		}
		id, rest := a.ID, a.Mask&^m
		if !a.Seq {
			if rest != 0 {
				st.fork(func(c *State) bool { c.atoms[id].Mask = rest; return true },
					func(c *State) bool { c.atoms[id].Mask &= m; return true })
			}
			if hit == nil {
				hit = a
			}
			if last {
				return hit
			}
			continue
		}
		st.fork(func(c *State) bool {
			b := c.atoms[id]
			if rest == 0 {
				if b.NE {
					return false
				}
				c.splitAtom(id)
				return true
			}
			b.Mask = rest
			return true
		}, func(c *State) bool {
			x, p, y := c.newSeq(rest), c.newPair(a.Mask&m, VTuple{[]Value{c.newOpq()}}, c.newOpq()), c.newSeq(rest)
			c.splitAtom(id, x.ID, p.ID, y.ID)
			return true
		})
	}
	return hit
}

func (r *Radix) exitTree(st *State, kind string, res Value) {
	root := res
	var flag bool
	if kind == "delete" {
		t, ok := res.(VTuple)
		if !ok || len(t.E) != 2 {
			st.abort("undecided", "unexpected result")
		}
		root, flag = t.E[0], st.toBool(t.E[1])
	}
	st = st.clone()
	st.settle(root)
	s := st.treeContent(r)
	if s == nil {
		st.fail("shape", "the result isn't a radix tree: %s", st.show(st.ghosts["tree"]))
	}
	orig := st.words["orig"]
	if kind == "delete" {
		var want []Item
		removed := false
		for _, it := range orig {
			a := st.atoms[it.A]
			if a.Mask&(rEQ|rDESC) == 0 {
				want = append(want, it)
				continue
			}
			if !a.Seq || a.NE {
				removed = true
			} else if !removed && flag {
				st.fail("content", "the result flag is true though there may be nothing to delete")
			}
		}
		if !st.sameWord(s.W, want) {
			st.fail("content", "the resulting tree holds %s instead of %s", st.showWord(s.W), st.showWord(want))
		}
		if removed != flag {
			st.fail("content", "the result flag is %v", flag)
		}
		return
	}
	var want, got []Item
	for _, it := range orig {
		if st.atoms[it.A].Mask != rEQ {
			want = append(want, it)
		}
	}
	k := r.entryKey(r.kword(st), r.q(st))
	n := 0
	for _, it := range s.W {
		if it.A == 0 && valSame(it.K, k) && valSame(it.V, st.ghosts["V"]) {
			n++
			continue
		}
		got = append(got, it)
	}
	if n != 1 {
		st.fail("content", "the resulting tree holds the new entry %d times: %s", n, st.showWord(s.W))
	}
	if !st.sameWord(got, want) {
		st.fail("content", "the resulting tree holds besides the new entry %s instead of %s", st.showWord(got), st.showWord(want))
	}
}
