package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Typestate of the channels which enumerations return: open, with one producer, closed once.

// chanSum is what a function does with a channel it was given open.
type chanSum struct {
	uses bool          // may send to it or close it
	outs map[bool]bool // possible states at return: closed or not
}

type chanKey struct {
	fn *ssa.Function
	i  int // parameters, then captured variables
}

type typestate struct {
	p     *Program
	sums  map[chanKey]*chanSum
	fns   map[*ssa.Function]bool
	again bool
	add   func(fn *ssa.Function, ins ssa.Instruction, msg string)
	final bool
	sites int
	paths int
}

func isChan(t types.Type) bool {
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// root finds where a channel value (or the address of a variable with one) comes from.
func chanRoot(v ssa.Value, seen map[ssa.Value]bool) ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeChan, *ssa.Parameter, *ssa.FreeVar, *ssa.Call, *ssa.Extract, *ssa.Const:
		return v
	case *ssa.ChangeType:
		return chanRoot(x.X, seen)
	case *ssa.Alloc:
		var r ssa.Value
		for _, u := range *x.Referrers() {
			switch y := u.(type) {
			case *ssa.Store:
				if y.Addr != x {
					return v
				}
				s := chanRoot(y.Val, seen)
				if r != nil && s != r {
					return v
				}
				r = s
			case *ssa.FieldAddr, *ssa.IndexAddr:
				return v
			}
		}
		if r == nil {
			return v
		}
		return r
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				return chanRoot(a, seen)
			case *ssa.FieldAddr:
				if base, ok := a.X.(*ssa.Alloc); ok {
					var r ssa.Value
					for _, u := range *base.Referrers() {
						fa, ok := u.(*ssa.FieldAddr)
						if !ok || fa.Field != a.Field {
							continue
						}
						for _, w := range *fa.Referrers() {
							if st, ok := w.(*ssa.Store); ok && st.Addr == fa {
								s := chanRoot(st.Val, seen)
								if r != nil && s != r {
									return v
								}
								r = s
							}
						}
					}
					if r != nil {
						return r
					}
				}
			}
		}
		return v
	case *ssa.Phi:
		var r ssa.Value
		for _, e := range x.Edges {
			s := chanRoot(e, seen)
			if s == nil {
				continue
			}
			if r != nil && s != r {
				return v
			}
			r = s
		}
		if r == nil {
			return v
		}
		return r
	}
	return v
}

func rootOf(v ssa.Value) ssa.Value { return chanRoot(v, map[ssa.Value]bool{}) }

// tstate is the typestate of the tracked channel on one path.
type tstate struct {
	made    bool
	started int
	closed  bool
	defers  string // indexes of deferred calls
}

type chanTracker struct {
	ts     *typestate
	fn     *ssa.Function
	root   ssa.Value // the tracked channel
	owner  bool      // fn made the channel
	deferI []*ssa.Defer
	outs   map[bool]bool
	uses   bool
}

func (t *chanTracker) mine(v ssa.Value) bool { return rootOf(v) == t.root }

func (t *chanTracker) report(ins ssa.Instruction, format string, a ...interface{}) {
	if t.ts.final {
		t.ts.add(t.fn, ins, fmt.Sprintf(format, a...))
	}
}

// passes lists the parameters of the callees which get the tracked channel.
func (t *chanTracker) passes(c *ssa.CallCommon) (out []chanKey, unknown bool) {
	var callees []*ssa.Function
	var bind []ssa.Value
	switch {
	case c.IsInvoke():
		for _, g := range t.ts.p.AllFuncs {
			if g.Signature.Recv() != nil && g.Name() == c.Method.Name() && types.Implements(g.Signature.Recv().Type(), c.Value.Type().Underlying().(*types.Interface)) {
				callees = append(callees, g)
			}
		}
	default:
		switch v := c.Value.(type) {
		case *ssa.MakeClosure:
			callees = append(callees, v.Fn.(*ssa.Function))
			bind = v.Bindings
		case *ssa.Builtin:
			return nil, false
		default:
			if g := c.StaticCallee(); g != nil {
				callees = append(callees, g)
			} else if mc := closureOf(c.Value); mc != nil {
				callees = append(callees, mc.Fn.(*ssa.Function))
				bind = mc.Bindings
			}
		}
	}
	off := 0
	if c.IsInvoke() {
		off = 1
	}
	for i, a := range c.Args {
		if carriesChan(a.Type()) && t.mine(a) {
			if len(callees) == 0 {
				unknown = true
			}
			for _, g := range callees {
				if !t.ts.p.InRepo(g) || len(g.Blocks) == 0 {
					unknown = true
					continue
				}
				out = append(out, chanKey{g, i + off})
			}
		}
	}
	for i, b := range bind {
		if carriesChan(b.Type()) && t.mine(b) {
			g := callees[0]
			out = append(out, chanKey{g, len(g.Params) + i})
		}
	}
	// closures given as arguments may use the channel any number of times
	for _, a := range c.Args {
		if mc := closureOf(a); mc != nil {
			for i, b := range mc.Bindings {
				if carriesChan(b.Type()) && t.mine(b) {
					g := mc.Fn.(*ssa.Function)
					out = append(out, chanKey{g, -1 - (len(g.Params) + i)})
				}
			}
		}
	}
	return
}

// closureOf finds the closure a function value is, looking through variables assigned once.
func closureOf(v ssa.Value) *ssa.MakeClosure {
	switch r := rootOf(v).(type) {
	case *ssa.MakeClosure:
		return r
	}
	return nil
}

func carriesChan(t types.Type) bool {
	if isChan(t) {
		return true
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return isChan(p.Elem())
	}
	return false
}

func (ts *typestate) sum(k chanKey) *chanSum {
	s := ts.sums[k]
	if s == nil {
		s = &chanSum{outs: map[bool]bool{}}
		ts.sums[k] = s
		ts.again = true
	}
	return s
}

// use applies a call which gets the channel.
func (t *chanTracker) use(st tstate, ins ssa.Instruction, c *ssa.CallCommon) []tstate {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "close" && t.mine(c.Args[0]) {
			t.uses = true
			if st.closed {
				t.report(ins, "closes the channel a second time")
			}
			if t.owner && st.started > 0 {
				t.report(ins, "closes the channel which its producer closes")
			}
			st.closed = true
		}
		return []tstate{st}
	}
	ks, unknown := t.passes(c)
	if unknown {
		t.report(ins, "hands the channel to a function which can't be analysed")
	}
	outs := []tstate{st}
	for _, k := range ks {
		loop := k.i < 0
		if loop {
			k.i = -1 - k.i
		}
		s := t.ts.sum(k)
		if s.uses {
			t.uses = true
		}
		var next []tstate
		for _, o := range outs {
			if s.uses && o.closed {
				t.report(ins, "gives the channel to %s after it was closed", k.fn)
				next = append(next, o)
				continue
			}
			if s.uses && t.owner && o.started > 0 {
				t.report(ins, "gives the channel to %s while its producer runs", k.fn)
			}
			if loop && s.outs[true] {
				t.report(ins, "a function which may be called many times closes the channel")
			}
			if o.closed || loop {
				next = append(next, o)
			}
			for _, c := range []bool{false, true} {
				if s.outs[c] && !o.closed {
					n := o
					n.closed = c
					next = append(next, n)
				}
			}
		}
		outs = next
	}
	return outs
}

func (t *chanTracker) step(st tstate, ins ssa.Instruction) []tstate {
	switch x := ins.(type) {
	case *ssa.MakeChan:
		if x == t.root {
			st.made = true
			st.started, st.closed = 0, false
		}
	case *ssa.Send:
		if t.mine(x.Chan) {
			t.uses = true
			if st.closed {
				t.report(ins, "sends on the closed channel")
			}
			if t.owner {
				t.report(ins, "sends before the channel is returned, when nobody can receive yet")
			}
		} else if t.ts.final {
			switch rootOf(x.Chan).(type) {
			case *ssa.Parameter, *ssa.FreeVar: // judged as the tracked channel of its own summary
			default:
				t.report(ins, "sends on a channel which isn't the one returned")
			}
		}
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.SendOnly && t.mine(s.Chan) {
				t.uses = true
				if st.closed {
					t.report(ins, "sends on the closed channel")
				}
			}
		}
	case *ssa.Go:
		ks, unknown := t.passes(&x.Call)
		if unknown {
			t.report(ins, "starts a producer which can't be analysed")
		}
		for _, k := range ks {
			if k.i < 0 {
				t.report(ins, "starts a producer which can't be analysed")
				continue
			}
			t.uses = true
			if !t.owner {
				t.report(ins, "a producer starts another producer for the same channel")
				continue
			}
			s := t.ts.sum(k)
			if st.closed {
				t.report(ins, "starts a producer for a closed channel")
			}
			st.started++
			if st.started > 1 {
				st.started = 2
				t.report(ins, "starts a second producer for the channel")
			}
			if s.outs[false] && !s.outs[true] {
				t.report(ins, "the producer %s never closes the channel", k.fn)
			} else if s.outs[false] {
				t.report(ins, "the producer %s leaves the channel open on some way out", k.fn)
			} else if !s.outs[true] {
				t.report(ins, "the producer %s has no way out", k.fn)
			}
		}
	case *ssa.Defer:
		b, isB := x.Call.Value.(*ssa.Builtin)
		rel := isB && b.Name() == "close" && t.mine(x.Call.Args[0])
		if ks, unknown := t.passes(&x.Call); len(ks) > 0 || unknown {
			rel = true
		}
		if rel {
			i := -1
			for k, d := range t.deferI {
				if d == x {
					i = k
				}
			}
			if i < 0 {
				i = len(t.deferI)
				t.deferI = append(t.deferI, x)
			}
			if len(st.defers) < 4 {
				st.defers += string(rune('a' + i))
			}
		}
	case *ssa.RunDefers:
		outs := []tstate{st}
		ds := st.defers
		for i := len(ds) - 1; i >= 0; i-- {
			d := t.deferI[ds[i]-'a']
			var next []tstate
			for _, o := range outs {
				next = append(next, t.use(o, d, &d.Call)...)
			}
			outs = next
		}
		for i := range outs {
			outs[i].defers = ""
		}
		return outs
	case *ssa.Call:
		return t.use(st, ins, &x.Call)
	case *ssa.Return:
		if t.ts.final {
			t.ts.paths++
		}
		t.outs[st.closed] = true
		if t.owner && st.made {
			ret := false
			for _, r := range x.Results {
				if isChan(r.Type()) && t.mine(r) {
					ret = true
				}
			}
			switch {
			case !ret && st.started > 0:
				t.report(ins, "starts a producer for a channel which isn't returned")
			case ret && st.started == 0 && !st.closed:
				t.report(ins, "returns a channel without a producer which is never closed")
			}
		}
	case *ssa.Store:
		if isChan(x.Val.Type()) && t.mine(x.Val) {
			if _, ok := x.Addr.(*ssa.Alloc); !ok {
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if _, ok := fa.X.(*ssa.Alloc); ok {
						break
					}
				}
				t.report(ins, "stores the channel where others can use it")
			}
		}
	}
	return []tstate{st}
}

// run explores every path of the function, for one tracked channel.
func (t *chanTracker) run() {
	type node struct {
		b  *ssa.BasicBlock
		st tstate
	}
	seen := map[node]bool{}
	var todo []node
	push := func(n node) {
		if !seen[n] {
			seen[n] = true
			todo = append(todo, n)
		}
	}
	push(node{t.fn.Blocks[0], tstate{made: !t.owner}})
	for len(todo) > 0 {
		n := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		sts := []tstate{n.st}
		for _, ins := range n.b.Instrs {
			if t.ts.final {
				t.ts.sites++
			}
			var next []tstate
			dup := map[tstate]bool{}
			for _, s := range sts {
				for _, o := range t.step(s, ins) {
					if !dup[o] {
						dup[o] = true
						next = append(next, o)
					}
				}
			}
			sts = next
		}
		for _, s := range sts {
			for _, b := range n.b.Succs {
				push(node{b, s})
			}
		}
	}
}

// solve computes summaries to a fixpoint and judges the functions.
func (ts *typestate) solve(root *ssa.Function) {
	one := func() {
		ts.owner(root)
		var ks []chanKey
		for k := range ts.sums {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool {
			if a, b := ks[i].fn.String(), ks[j].fn.String(); a != b {
				return a < b
			}
			return ks[i].i < ks[j].i
		})
		for _, k := range ks {
			if k.i < 0 {
				continue
			}
			var r ssa.Value
			if k.i < len(k.fn.Params) {
				r = k.fn.Params[k.i]
			} else {
				r = k.fn.FreeVars[k.i-len(k.fn.Params)]
			}
			ts.fns[k.fn] = true
			t := &chanTracker{ts: ts, fn: k.fn, root: r, outs: map[bool]bool{}}
			t.run()
			s := ts.sums[k]
			if t.uses && !s.uses {
				s.uses = true
				ts.again = true
			}
			for c := range t.outs {
				if !s.outs[c] {
					s.outs[c] = true
					ts.again = true
				}
			}
		}
	}
	for ts.again = true; ts.again; {
		ts.again = false
		one()
	}
	ts.final = true
	one()
}

// owner judges a function which returns a channel.
func (ts *typestate) owner(f *ssa.Function) {
	ts.fns[f] = true
	made := map[*ssa.MakeChan]bool{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if m, ok := ins.(*ssa.MakeChan); ok {
				made[m] = true
				t := &chanTracker{ts: ts, fn: f, root: m, owner: true, outs: map[bool]bool{}}
				t.run()
			}
			r, ok := ins.(*ssa.Return)
			if !ok {
				continue
			}
			for _, v := range r.Results {
				if !isChan(v.Type()) || !ts.final {
					continue
				}
				for _, o := range chanSources(v, map[ssa.Value]bool{}) {
					switch x := o.(type) {
					case *ssa.MakeChan:
						if x.Parent() != f {
							ts.add(f, ins, "returns a channel made elsewhere")
						}
					case *ssa.Call:
						g := x.Call.StaticCallee()
						if x.Call.IsInvoke() || g == nil || !ts.p.InRepo(g) {
							ts.add(f, ins, "returns a channel from a function which can't be analysed")
						} else if !ts.fns[g] {
							ts.owner(g)
						}
					case *ssa.Const:
						ts.add(f, ins, "returns a nil channel, which is never closed")
					default:
						ts.add(f, ins, "returns a channel which the function didn't make")
					}
				}
			}
		}
	}
}

// chanSources lists what a returned channel may be.
func chanSources(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	r := rootOf(v)
	if p, ok := r.(*ssa.Phi); ok && !seen[p] {
		seen[p] = true
		var out []ssa.Value
		for _, e := range p.Edges {
			out = append(out, chanSources(e, seen)...)
		}
		return out
	}
	if r == nil || seen[r] {
		return nil
	}
	return []ssa.Value{r}
}

func typestateObligations(p *Program) (obs []*Obligation, errs []anchorErr) {
	seen := map[string]bool{}
	for _, pkg := range p.treePkgs() {
		for _, f := range p.AllFuncs {
			if f.Pkg != pkg || f.Synthetic != "" {
				continue
			}
			res := f.Signature.Results()
			has := false
			for i := 0; i < res.Len(); i++ {
				has = has || isChan(res.At(i).Type())
			}
			if !has {
				continue
			}
			f := f
			seen[p.rel(pkg)] = true
			ob := &Obligation{Name: p.rel(pkg) + "." + f.RelString(pkg.Pkg) + " channel typestate", fn: f, Props: map[string][]string{"typestate": {"C29"}},
				rule: "on every path the returned channel gets one producer (or is closed before it's returned), which closes it exactly once on every way out and uses it no more afterwards"}
			ob.custom = func(r *Result) {
				ts := &typestate{p: p, sums: map[chanKey]*chanSum{}, fns: map[*ssa.Function]bool{}}
				seenF := map[string]bool{}
				ts.add = func(fn *ssa.Function, ins ssa.Instruction, msg string) {
					fd := &Finding{Ob: ob.Name, Cat: "typestate", Fn: fn.String(), Pos: p.posOf(fn, ins), Msg: msg}
					if !seenF[fd.Pos+fd.Msg] {
						seenF[fd.Pos+fd.Msg] = true
						r.Finds = append(r.Finds, fd)
					}
				}
				ts.solve(f)
				for g := range ts.fns {
					r.Fns = append(r.Fns, g.String())
				}
				sort.Strings(r.Fns)
				r.Steps, r.Exits = ts.sites, ts.paths
			}
			obs = append(obs, ob)
		}
	}
	for _, q := range []string{"strtree", "dltree", "domaintree", "iptree", "numtree", "uintX/strtree8", "uintX/domaintree8", "uintX/iptree8"} {
		if !seen[q] {
			errs = append(errs, anchorErr{"no enumeration found in package " + q, []string{"C29"}})
		}
	}
	return
}

// drainer follows channels the library itself receives from: their producers stop only when the channel is read to its end.
type drainer struct {
	p     *Program
	sums  map[chanKey]map[bool]bool // whether a function given the channel has read it to the end, on its ways out
	fns   map[*ssa.Function]bool
	again bool
	sites int
}

// run explores a function; the states are "not received yet", "read to the end".
func (d *drainer) run(fn *ssa.Function, root ssa.Value, param bool, bad func(ins ssa.Instruction)) map[bool]bool {
	type dst struct{ live, done bool }
	type node struct {
		b  *ssa.BasicBlock
		st dst
	}
	d.fns[fn] = true
	outs := map[bool]bool{}
	seen := map[node]bool{}
	todo := []node{{fn.Blocks[0], dst{live: param}}}
	ends := func(b *ssa.BasicBlock) (which int, ok bool) {
		i, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !isIf {
			return 0, false
		}
		which = 1
		c := i.Cond
		for {
			n, isNot := c.(*ssa.UnOp)
			if !isNot || n.Op != token.NOT {
				break
			}
			which = 1 - which
			c = n.X
		}
		ex, isEx := c.(*ssa.Extract)
		if !isEx || ex.Index != 1 {
			return 0, false
		}
		r, isR := ex.Tuple.(*ssa.UnOp)
		return which, isR && r.Op == token.ARROW && r.CommaOk && rootOf(r.X) == root
	}
	call := func(s dst, c *ssa.CallCommon) []dst {
		tr := &chanTracker{ts: &typestate{p: d.p}, fn: fn, root: root}
		ks, _ := tr.passes(c)
		res := []dst{s}
		for _, k := range ks {
			if k.i < 0 {
				continue
			}
			sm := d.sums[k]
			if sm == nil {
				sm = map[bool]bool{}
				d.sums[k] = sm
				d.again = true
			}
			var next []dst
			for _, o := range res {
				for _, e := range []bool{false, true} {
					if sm[e] {
						next = append(next, dst{o.live, o.done || e})
					}
				}
			}
			res = next
		}
		return res
	}
	for len(todo) > 0 {
		n := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		sts := []dst{n.st}
		for _, ins := range n.b.Instrs {
			d.sites++
			var next []dst
			for _, s := range sts {
				switch x := ins.(type) {
				case *ssa.Call:
					next = append(next, call(s, &x.Call)...)
					if ssa.Value(x) == root {
						next = []dst{{live: true}}
					}
				case *ssa.Go:
					next = append(next, call(s, &x.Call)...)
				case *ssa.Return:
					ret := false
					for _, r := range x.Results {
						if isChan(r.Type()) {
							for _, o := range chanSources(r, map[ssa.Value]bool{}) {
								ret = ret || o == root
							}
						}
					}
					if s.live && !ret {
						outs[s.done] = true
						if !s.done && bad != nil {
							bad(ins)
						}
					}
					next = append(next, s)
				default:
					next = append(next, s)
				}
			}
			sts = next
		}
		w, ok := ends(n.b)
		for _, s := range sts {
			for i, b := range n.b.Succs {
				o := s
				if ok && i == w {
					o.done = true
				}
				todo = append(todo, node{b, o})
			}
		}
	}
	return outs
}

func (d *drainer) solve(f *ssa.Function, src *ssa.Call, bad func(fn *ssa.Function, ins ssa.Instruction)) {
	for d.again = true; d.again; {
		d.again = false
		d.run(f, src, false, nil)
		for k, s := range d.sums {
			r := ssa.Value(nil)
			if k.i < len(k.fn.Params) {
				r = k.fn.Params[k.i]
			} else {
				r = k.fn.FreeVars[k.i-len(k.fn.Params)]
			}
			for e := range d.run(k.fn, r, true, nil) {
				if !s[e] {
					s[e] = true
					d.again = true
				}
			}
		}
	}
	d.run(f, src, false, func(ins ssa.Instruction) { bad(f, ins) })
}

// drainObligations: every enumeration the library starts for itself is read to its end.
func drainObligations(p *Program) (obs []*Obligation, errs []anchorErr) {
	n := 0
	for _, f := range p.AllFuncs {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Pkg == nil || top.Pkg.Pkg.Name() == "main" || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || !isChan(c.Type()) {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil || !p.InRepo(g) {
					continue
				}
				f := f
				n++
				ob := &Obligation{Name: fmt.Sprintf("%s drains %s (%d)", f, g, n), fn: f, Props: map[string][]string{"typestate": {"C29"}},
					rule: "a channel which the library itself receives from is read to its end on every path, so that its producer stops"}
				ob.custom = func(r *Result) {
					d := &drainer{p: p, sums: map[chanKey]map[bool]bool{}, fns: map[*ssa.Function]bool{}}
					seen := map[ssa.Instruction]bool{}
					d.solve(f, c, func(fn *ssa.Function, at ssa.Instruction) {
						if !seen[at] {
							seen[at] = true
							r.Finds = append(r.Finds, &Finding{Ob: ob.Name, Cat: "typestate", Fn: fn.String(), Pos: p.posOf(fn, at),
								Msg: fmt.Sprintf("returns without having read the channel of %s (made at %s) to its end: its producer never stops", g, p.posOf(f, c))})
						}
					})
					for g := range d.fns {
						r.Fns = append(r.Fns, g.String())
					}
					sort.Strings(r.Fns)
					r.Steps, r.Exits = d.sites, 1
				}
				obs = append(obs, ob)
			}
		}
	}
	return
}
