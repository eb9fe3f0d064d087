package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// control flow of the interpreter itself
type forkPanic struct{ sts []*State }
type stopPanic struct{}                   // the path ends (infeasible, subsumed or reported)
type abortPanic struct{ cat, msg string } // the path ends with a finding

// Finding is a rule violation (or an undecided construct) on some abstract path.
type Finding struct {
	Ob, Cat, Fn, Pos, Msg string
	Trace                 []string
}

func (f *Finding) key() string { return f.Ob + "|" + f.Cat + "|" + f.Fn + "|" + f.Pos + "|" + f.Msg }

// Engine runs one obligation.
type Engine struct {
	prog     *Program
	repo     string
	infos    map[*ssa.Function]*FnInfo
	ob       *Obligation
	work     []*State
	finds    map[string]*Finding
	seen     map[string]*headRec
	masks    map[string]*maskRec
	entries  map[string]*Entry
	rec      map[*ssa.Function]bool
	nForks   int
	nStates  int
	nSteps   int
	nExits   int
	heads    map[string]int
	maxObjs  int
	fnsSeen  map[*ssa.Function]bool
	edges    map[string]bool
	overflow bool
	debug    bool
	dbgN     int
	start    time.Time
	curSt    *State
	gvals    map[*ssa.Global]Value
	theories []Theory

	typeTexts map[types.Type]string

	waiting map[string]*State // states at loop heads which haven't gone on yet
	queue   []string
	lastKey string
}

type headRec struct {
	zone  *Zone
	joins int
}

type maskRec struct {
	seen []map[int64]bool
}

func (st *State) abort(cat, format string, args ...interface{}) {
	panic(abortPanic{cat, fmt.Sprintf(format, args...)})
}

// fork replaces the current state by refined alternatives; the current instruction is retried in each.
func (st *State) fork(alts ...func(c *State) bool) {
	var out []*State
	for _, a := range alts {
		c := st.clone()
		c.forked = true
		if a(c) && c.sync() {
			out = append(out, c)
		}
	}
	st.eng.nForks++
	panic(forkPanic{out})
}

// decideLE0 tells whether e <= 0, forking when both are possible.
func (st *State) decideLE0(e Lin) bool {
	if st.zone.upper(e) <= 0 {
		return true
	}
	if st.zone.lower(e) > 0 {
		return false
	}
	if st.eng.ob.text && len(e.t) > 1 {
		a, b := st.zone.clone(), st.zone.clone()
		okA, okB := a.assumeLE0(e), b.assumeLE0(e.neg().addC(1))
		if okA && a.upper(e) > 0 || okB && b.lower(e) <= 0 {
			st.nameSum(e)
		}
	}
	st.fork(
		func(c *State) bool { return c.zone.assumeLE0(e) },
		func(c *State) bool { return c.zone.assumeLE0(e.neg().addC(1)) })
	return false
}

func (st *State) decideEQ0(e Lin) bool {
	lo, hi := st.zone.lower(e), st.zone.upper(e)
	if lo > 0 || hi < 0 {
		return false
	}
	if lo == 0 && hi == 0 {
		return true
	}
	if st.zone.known0(e) {
		return false
	}
	if st.eng.ob.text && len(e.t) > 1 {
		a, b, d := st.zone.clone(), st.zone.clone(), st.zone.clone()
		okA, okB, okD := a.assumeEQ0(e), b.assumeLE0(e.addC(1)), d.assumeLE0(e.neg().addC(1))
		if okA && (a.upper(e) != 0 || a.lower(e) != 0) || okB && b.upper(e) >= 0 || okD && d.lower(e) <= 0 {
			st.nameSum(e)
		}
	}
	st.fork(
		func(c *State) bool { return c.zone.assumeEQ0(e) },
		func(c *State) bool { return c.zone.assumeLE0(e.addC(1)) },
		func(c *State) bool { return c.zone.assumeLE0(e.neg().addC(1)) })
	return false
}

// known0 is a place for disequalities (not tracked).
func (z *Zone) known0(Lin) bool { return false }

func (e *Engine) report(st *State, cat, msg string) {
	fn, pos := "-", "-"
	var tr []string
	if st != nil {
		// report at the innermost repository frame
		for i := len(st.frames) - 1; i >= 0; i-- {
			f := st.frames[i]
			if f.blk != nil && f.pc < len(f.blk.Instrs) {
				p := f.blk.Instrs[f.pc].Pos()
				for k := f.pc; !p.IsValid() && k >= 0; k-- {
					p = f.blk.Instrs[k].Pos()
				}
				if !p.IsValid() {
					p = f.fn.Pos()
				}
				fn, pos = f.fn.String(), e.pos(p)
				break
			}
		}
		tr = st.trace
	}
	f := &Finding{Ob: e.ob.Name, Cat: cat, Fn: fn, Pos: pos, Msg: msg, Trace: append([]string(nil), tr...)}
	if _, ok := e.finds[f.key()]; !ok {
		if len(e.finds) < 50 {
			e.finds[f.key()] = f
			if e.debug && st != nil {
				for _, h := range st.hist {
					fmt.Println("=== HEAD", h)
				}
				fmt.Printf("--- %s %s %s %s: %s\n%s\n%s\n", e.ob.Name, cat, fn, pos, msg, strings.Join(tr, "\n"), st.Dump())
			}
		}
	}
}

const maxSteps = 40000000

func (e *Engine) push(st *State) { e.work = append(e.work, st) }

func (e *Engine) loop() {
	for len(e.work) > 0 || len(e.queue) > 0 {
		if len(e.work) == 0 {
			k := e.queue[0]
			e.queue = e.queue[1:]
			e.push(e.waiting[k])
			delete(e.waiting, k)
		}
		st := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.exec(st)
		if e.broken() {
			e.overflow = true
			return
		}
		if e.nSteps > e.ob.limit() || time.Since(started) > 700*time.Second || lowMemory.Load() {
			e.report(st, "undecided", fmt.Sprintf("analysis budget exhausted after %d steps", e.nSteps))
			e.overflow = true
			return
		}
	}
}

// refuted tells that some obligation of this run is refuted for good.
var refuted atomic.Bool

var started = time.Now()

// deciding is the property which this run decides.
var deciding string

// broken tells that enough was found to stop.
func (e *Engine) broken() bool {
	if e.debug {
		return false
	}
	n := 0
	for _, f := range e.finds {
		if f.Cat != "undecided" && (deciding == "" || e.ob.refutes(f, deciding)) {
			n++
			refuted.Store(true)
		}
	}
	took := time.Since(e.start)
	switch {
	case len(e.finds) > 20:
		return true
	case n >= 4 && took > 10*time.Second, n > 0 && took > 40*time.Second, len(e.finds) > 0 && took > 120*time.Second:
		return true
	}
	return refuted.Load() && time.Since(started) > 60*time.Second
}

// exec runs a state until it forks or ends.
func (e *Engine) exec(st *State) {
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
		case forkPanic:
			for i := len(x.sts) - 1; i >= 0; i-- {
				e.push(x.sts[i])
			}
		case stopPanic:
		case abortPanic:
			e.report(st, x.cat, x.msg)
		default:
			if e.debug {
				panic(r)
			}
			e.report(st, "undecided", fmt.Sprintf("internal error: %v", r))
		}
	}()
	e.curSt = st
	e.nStates++
	if e.debug && e.nStates%e.dbgN == 0 {
		fmt.Println(e.nStates, len(e.seen), len(e.work), len(st.zone.sym), len(st.objs), st.Dump())
	}
	for {
		e.nSteps++
		if len(st.frames) == 0 {
			return
		}
		f := st.top()
		ins := f.blk.Instrs[f.pc]
		if !e.step(st, f, ins) {
			return
		}
	}
}

func (st *State) setReg(f *Frame, v ssa.Value, x Value) {
	f.regs[f.info.num[v]] = x
}

// get evaluates an operand.
func (st *State) get(f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return st.constVal(x)
	case *ssa.Function:
		return VFunc{Fn: x}
	case *ssa.Global:
		return VGlob{x}
	case *ssa.Builtin:
		return VTop{"builtin"}
	}
	n, ok := f.info.num[v]
	if !ok {
		st.abort("undecided", "unknown operand %s", v)
	}
	r := f.regs[n]
	if r == nil {
		st.abort("undecided", "use of a value that was not kept: %s = %s", v.Name(), v)
	}
	return r
}

func (st *State) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{Known: true, Val: constant.BoolVal(c.Value)}
		case u.Info()&types.IsString != 0:
			return VStr{constant.StringVal(c.Value)}
		case u.Info()&types.IsInteger != 0:
			if isWordType(u) {
				return wordConst(c.Uint64(), wordWidth(u))
			}
			if k, ok := constInt(c); ok {
				return VInt{linC(k)}
			}
			return wordConst(c.Uint64(), 64)
		}
	}
	return VTop{"constant " + c.String()}
}

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{Known: true}
		case u.Info()&types.IsString != 0:
			return VStr{""}
		case u.Info()&types.IsInteger != 0:
			if isWordType(u) {
				return wordConst(0, wordWidth(u))
			}
			return VInt{linC(0)}
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return VNil{}
		}
		return VTop{"zero " + t.String()}
	case *types.Struct, *types.Array:
		if isBigArray(t) {
			return zeroBig(t)
		}
		return VAgg{zeroCells(t)}
	case *types.Tuple:
		return VTuple{}
	}
	return VNil{}
}

func zeroCells(t types.Type) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []Value
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, zeroCells(u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		if bigLen(u) {
			return []Value{zeroBig(t)}
		}
		var out []Value
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, zeroCells(u.Elem())...)
		}
		return out
	}
	return []Value{zeroValue(t)}
}

// toInt views a value as an integer expression.
func (st *State) toInt(v Value) Lin {
	switch x := v.(type) {
	case VInt:
		return x.L
	case VWord:
		return linC(st.wordToSmall(x))
	}
	st.abort("undecided", "integer expected but got %s", st.show(v))
	return Lin{}
}

// toBool resolves a boolean, forking on symbols.
func (st *State) toBool(v Value) bool {
	b, ok := v.(VBool)
	if !ok {
		if f := st.eng.ob.boolFn; f != nil {
			if r, ok := f(st, v); ok {
				return r
			}
		}
		st.abort("undecided", "boolean expected but got %s", st.show(v))
	}
	if b.Known {
		return b.Val
	}
	eq := fmt.Sprintf("eq:%d", b.ID)
	alt := func(val bool) func(c *State) bool {
		return func(c *State) bool {
			if t, ok := c.ghosts[eq].(VTuple); ok {
				delete(c.ghosts, eq)
				if val {
					c.replaceVal(t.E[0], t.E[1])
				}
			}
			c.rewrite(func(v Value) Value {
				if y, ok := v.(VBool); ok && !y.Known && y.ID == b.ID {
					return VBool{Known: true, Val: val != y.Val}
				}
				return v
			})
			return true
		}
	}
	st.fork(alt(true), alt(false))
	return false
}

func (st *State) isNil(v Value) bool {
	switch x := v.(type) {
	case VNil:
		return true
	case VPtr, VSeg, VFunc, VChan, VIface, VSlice, VGlob:
		return false
	case VSub:
		if st.subs[x.ID].NonNil {
			return false
		}
		if r, ok := st.subs[x.ID].Th.(*Radix); ok {
			r.forkNil(st, x.ID)
		}
		if h, ok := st.subs[x.ID].Th.(*Handle); ok {
			h.forkNil(st, x.ID)
		}
		st.unfoldSub(x.ID)
	case VApp:
		if x.F == "global" || x.F == "error" || strings.HasPrefix(x.F, "nn:") {
			return false
		}
		if f := st.eng.ob.nilFn; f != nil {
			if r, ok := f(st, v); ok {
				return r
			}
		}
		st.forkNil(v)
	case VOpq:
		st.forkNil(v)
	}
	st.abort("undecided", "nil comparison of %s", st.show(v))
	return false
}

func (st *State) forkNil(v Value) {
	st.fork(func(c *State) bool {
		c.rewrite(func(x Value) Value {
			if valSame(x, v) {
				return VNil{}
			}
			return x
		})
		return true
	}, func(c *State) bool {
		w := VApp{F: "nn:" + c.show(v), Args: nil}
		if q, ok := v.(VOpq); ok {
			w = VApp{F: "nn:", Args: []Value{VApp{F: "id", Args: []Value{VInt{linC(int64(q.ID))}}}}}
			w = VApp{F: "nn:q", Args: []Value{VOpq{c.id()}}}
		}
		c.rewrite(func(x Value) Value {
			if valSame(x, v) {
				return w
			}
			return x
		})
		return true
	})
}

// ptr resolves a pointer operand to an object cell.
func (st *State) ptr(v Value, what string) VPtr {
	switch x := v.(type) {
	case VPtr:
		return x
	case VNil:
		st.abort("panic", "nil pointer dereference (%s)", what)
	case VSub:
		st.unfoldSub(x.ID)
	case VSeg:
		st.unfoldSeg(x.ID)
	}
	st.abort("undecided", "pointer expected but got %s (%s)", st.show(v), what)
	return VPtr{}
}

func (st *State) loadCells(p VPtr, n int) []Value {
	o := st.objs[p.O]
	if o == nil {
		st.abort("undecided", "dangling pointer")
	}
	return o.Cells[p.P : p.P+n]
}

func (st *State) load(v Value, t types.Type) Value {
	if g, ok := v.(VGlob); ok {
		return st.loadGlobal(g.G)
	}
	if e, ok := v.(VElem); ok {
		return st.loadElem(e)
	}
	p := st.ptr(v, "read")
	if isAgg(t) {
		return VAgg{append([]Value(nil), st.loadCells(p, cellCount(t))...)}
	}
	return st.loadCells(p, 1)[0]
}

func (st *State) store(v Value, t types.Type, x Value) {
	if g, ok := v.(VGlob); ok {
		st.abort("write", "write to package variable %s", g.G)
	}
	if e, ok := v.(VElem); ok {
		st.storeElem(e, x)
		return
	}
	p := st.ptr(v, "write")
	o := st.objs[p.O]
	if !o.Fresh && !st.eng.ob.mayWrite(st, o, p.P) {
		st.eng.report(st, "write", fmt.Sprintf("writes to a node which belongs to the tree before the call (%s)", st.eng.cellName(o, p.P)))
		panic(stopPanic{})
	}
	if isAgg(t) {
		a, ok := x.(VAgg)
		if !ok {
			st.abort("undecided", "aggregate expected but got %s", st.show(x))
		}
		copy(o.Cells[p.P:], a.C)
		return
	}
	o.Cells[p.P] = x
}

func (e *Engine) cellName(o *Obj, c int) string {
	name := types.TypeString(o.T, func(p *types.Package) string { return p.Name() })
	if s, ok := o.T.Underlying().(*types.Struct); ok {
		off := 0
		for i := 0; i < s.NumFields(); i++ {
			n := cellCount(s.Field(i).Type())
			if c < off+n {
				return name + "." + s.Field(i).Name()
			}
			off += n
		}
	}
	return name
}

func (e *Engine) jump(st *State, f *Frame, to *ssa.BasicBlock) bool {
	from := f.blk
	e.edges[f.fn.String()+itoa(from.Index)+">"+itoa(to.Index)] = true
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vals []Value
	n := 0
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var x Value
		if k, ok := f.info.num[phi.Edges[pi]]; ok {
			x = f.regs[k]
			if x == nil {
				x = VTop{"undefined phi operand"}
			}
		} else {
			x = st.get(f, phi.Edges[pi])
		}
		vals = append(vals, x)
		n++
	}
	for i := 0; i < n; i++ {
		f.regs[f.info.num[to.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	f.prev, f.blk, f.pc = from, to, n
	if f.info.header[to] && !st.short(f, f.info.count[to]) {
		ok := e.atHeader(st, f)
		if ok && e.ob.afterFn != nil {
			e.ob.afterFn(st, f)
		}
		if ok && e.ob.text {
			// others may join before it goes on
			if e.waiting == nil {
				e.waiting = map[string]*State{}
			}
			if e.waiting[e.lastKey] == nil {
				e.queue = append(e.queue, e.lastKey)
			}
			e.waiting[e.lastKey] = st
			return false
		}
		return ok
	}
	return true
}

// step executes one instruction; false ends the path.
func (e *Engine) step(st *State, f *Frame, ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := deref(x.Type())
		o := st.newObj(t, zeroCells(t), true)
		st.setReg(f, x, VPtr{o.ID, 0})
	case *ssa.Store:
		p := st.get(f, x.Addr)
		v := st.get(f, x.Val)
		st.store(p, x.Val.Type(), v)
	case *ssa.FieldAddr:
		bt := deref(x.X.Type())
		v := st.get(f, x.X)
		if el, ok := v.(VElem); ok {
			st.setReg(f, x, el.field(bt, x.Field))
			break
		}
		if _, ok := v.(VGlob); ok {
			st.abort("undecided", "field of package variable")
		}
		if p, ok := v.(VPtr); ok && st.objs[p.O] != nil && st.objs[p.O].Tag == "map" {
			st.abort("undecided", "looks into a tree of labels")
		}
		p := st.ptr(v, "field "+bt.Underlying().(*types.Struct).Field(x.Field).Name())
		st.setReg(f, x, VPtr{p.O, p.P + fieldOff(bt, x.Field)})
	case *ssa.Field:
		a, ok := st.get(f, x.X).(VAgg)
		if !ok {
			st.abort("undecided", "struct expected")
		}
		off := fieldOff(x.X.Type(), x.Field)
		st.setReg(f, x, st.part(a, off, x.Type()))
	case *ssa.IndexAddr:
		st.setReg(f, x, st.indexAddr(st.get(f, x.X), x.X.Type(), st.get(f, x.Index)))
	case *ssa.Index:
		st.setReg(f, x, st.indexVal(st.get(f, x.X), x.X.Type(), st.get(f, x.Index), x.Type()))
	case *ssa.Lookup:
		st.setReg(f, x, st.lookup(st.get(f, x.X), x, st.get(f, x.Index)))
	case *ssa.UnOp:
		st.setReg(f, x, st.unop(f, x))
	case *ssa.BinOp:
		st.setReg(f, x, st.binop(x.Op, st.get(f, x.X), st.get(f, x.Y), x.X.Type(), x.Y.Type(), x.Type()))
	case *ssa.Phi:
		st.abort("undecided", "unexpected phi")
	case *ssa.ChangeType:
		st.setReg(f, x, st.get(f, x.X))
	case *ssa.ChangeInterface:
		st.setReg(f, x, st.get(f, x.X))
	case *ssa.Convert:
		st.setReg(f, x, st.convert(st.get(f, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		st.abort("undecided", "conversion")
	case *ssa.MakeInterface:
		st.setReg(f, x, st.makeIface(st.get(f, x.X), x.X.Type()))
	case *ssa.TypeAssert:
		st.setReg(f, x, st.typeAssert(st.get(f, x.X), x))
	case *ssa.Extract:
		t, ok := st.get(f, x.Tuple).(VTuple)
		if !ok || x.Index >= len(t.E) {
			st.abort("undecided", "tuple expected")
		}
		st.setReg(f, x, t.E[x.Index])
	case *ssa.MakeClosure:
		var caps []Value
		for _, b := range x.Bindings {
			caps = append(caps, st.get(f, b))
		}
		st.setReg(f, x, VFunc{x.Fn.(*ssa.Function), caps})
	case *ssa.MakeChan:
		n := st.get(f, x.Size)
		c := &Chan{ID: st.id(), T: x.Type().Underlying().(*types.Chan).Elem()}
		if l, ok := n.(VInt); !ok || !l.L.isConst() || l.L.k != 0 {
			c.Buf = true
		}
		st.chans[c.ID] = c
		st.setReg(f, x, VChan{c.ID})
	case *ssa.MakeSlice:
		st.setReg(f, x, st.makeSlice(x.Type(), st.toInt(st.get(f, x.Len)), st.toInt(st.get(f, x.Cap))))
	case *ssa.MakeMap:
		st.setReg(f, x, VApp{F: "nn:map", Args: []Value{VOpq{st.id()}}})
	case *ssa.MapUpdate:
		st.abort("undecided", "map update")
	case *ssa.Slice:
		st.setReg(f, x, st.slice(f, x))
	case *ssa.SliceToArrayPointer:
		st.abort("undecided", "slice to array conversion")
	case *ssa.Range:
		st.abort("undecided", "range over map or string")
	case *ssa.Next:
		st.abort("undecided", "range over map or string")
	case *ssa.Select:
		st.abort("undecided", "select statement")
	case *ssa.If:
		b := st.toBool(st.get(f, x.Cond))
		to := f.blk.Succs[1]
		if b {
			to = f.blk.Succs[0]
		}
		if p := x.Cond.Pos(); p.IsValid() {
			st.note(fmt.Sprintf("%s: %s is %v", e.pos(p), condText(x.Cond), b))
		}
		return e.jump(st, f, to)
	case *ssa.Jump:
		return e.jump(st, f, f.blk.Succs[0])
	case *ssa.Return:
		var res Value = VTuple{}
		switch len(x.Results) {
		case 0:
		case 1:
			res = st.get(f, x.Results[0])
		default:
			var out []Value
			for _, r := range x.Results {
				out = append(out, st.get(f, r))
			}
			res = VTuple{out}
		}
		return e.ret(st, res)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			// run one deferred call, then retry this instruction
			e.doCall(st, f, d.call, d.fn, d.args, nil, true)
			return true
		}
	case *ssa.Panic:
		v := st.get(f, x.X)
		if e.ob.onPanic != nil && e.ob.onPanic(st, v) {
			return false
		}
		st.abort("panic", "panics: %s", st.show(v))
	case *ssa.Go:
		fn, args := st.callee(f, &x.Call)
		if st.inGo() || e.ob.noGo {
			st.abort("channel", "starts a goroutine while sending, so the order and the end of what is sent aren't determined")
		}
		f.pc++
		n := len(st.frames)
		e.doCall(st, f, &x.Call, fn, args, nil, true)
		if len(st.frames) > n {
			st.top().isGo = true
		}
		return true
	case *ssa.Defer:
		fn, args := st.callee(f, &x.Call)
		f.defers = append(f.defers, deferred{&x.Call, fn, args})
	case *ssa.Send:
		st.send(st.get(f, x.Chan), st.get(f, x.X))
	case *ssa.Call:
		fn, args := st.callee(f, &x.Call)
		return e.doCall(st, f, &x.Call, fn, args, x, false)
	default:
		st.abort("undecided", "unsupported instruction %T", ins)
	}
	f.pc++
	return true
}

func condText(v ssa.Value) string {
	if b, ok := v.(*ssa.BinOp); ok {
		return fmt.Sprintf("(%s %s %s)", valText(b.X, 2), b.Op, valText(b.Y, 2))
	}
	return valText(v, 3)
}

func valText(v ssa.Value, depth int) string {
	if depth == 0 {
		return v.Name()
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return x.Value.String()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return valText(x.X, depth)
		}
		return x.Op.String() + valText(x.X, depth-1)
	case *ssa.FieldAddr:
		return valText(x.X, depth) + "." + deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.IndexAddr:
		return valText(x.X, depth) + "[" + valText(x.Index, depth-1) + "]"
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Call:
		if c := x.Call.StaticCallee(); c != nil {
			return c.Name() + "(...)"
		}
	}
	return v.Name()
}

func (st *State) note(s string) {
	if len(st.trace) > 60 {
		st.trace = append(st.trace[:0:0], st.trace[len(st.trace)-40:]...)
	}
	st.trace = append(st.trace, s)
}

func (st *State) part(a VAgg, off int, t types.Type) Value {
	if isAgg(t) {
		return VAgg{append([]Value(nil), a.C[off:off+cellCount(t)]...)}
	}
	return a.C[off]
}

// smallIndex resolves an index into [0,n), reporting a possible out-of-range access.
func (st *State) smallIndex(iv Value, n int64) int64 {
	l := st.toInt(iv)
	if l.isConst() {
		if l.k < 0 || l.k >= n {
			st.abort("panic", "index %d out of range [0,%d)", l.k, n)
		}
		return l.k
	}
	st.boundsCheck(l, linC(n))
	var alts []func(c *State) bool
	for i := int64(0); i < n; i++ {
		i := i
		alts = append(alts, func(c *State) bool {
			if !c.zone.assumeEQ0(l.addC(-i)) {
				return false
			}
			c.substLin(l, i)
			return true
		})
	}
	st.fork(alts...)
	return 0
}

// substLin replaces a single-symbol expression's symbol by the constant it has.
func (st *State) substLin(l Lin, val int64) {
	if len(l.t) != 1 || (l.t[0].c != 1 && l.t[0].c != -1) {
		return
	}
	s := l.t[0].s
	k := (val - l.k) * l.t[0].c
	st.substSym(s, linC(k))
}

func (st *State) substSym(s Sym, e Lin) {
	st.rewrite(func(v Value) Value {
		if x, ok := v.(VInt); ok {
			return VInt{x.L.subst(s, e)}
		}
		if x, ok := v.(VWord); ok {
			return x.mapLin(func(l Lin) Lin { return l.subst(s, e) })
		}
		if x, ok := v.(VElem); ok {
			x.I = x.I.subst(s, e)
			return x
		}
		if x, ok := v.(VSlice); ok {
			x.Off, x.Len, x.Cap = x.Off.subst(s, e), x.Len.subst(s, e), x.Cap.subst(s, e)
			return x
		}
		return v
	})
	if st.facts != nil {
		st.facts.substSym(s, e)
	}
	for _, u := range st.subs {
		u.BH = u.BH.subst(s, e)
		u.R = u.R.substSym(s, e)
	}
	for _, u := range st.segs {
		u.TopBH = u.TopBH.subst(s, e)
		u.HoleBH = u.HoleBH.subst(s, e)
		u.X = u.X.substSym(s, e)
	}
}

func (st *State) boundsCheck(l, n Lin) {
	if !st.decideLE0(l.neg()) { // -l <= 0
		st.abort("panic", "index may be negative")
	}
	if !st.decideLE0(l.sub(n).addC(1)) {
		st.abort("panic", "index out of range")
	}
}

func (st *State) indexAddr(v Value, t types.Type, iv Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if g, ok := v.(VGlob); ok {
			return st.globElem(g.G, iv)
		}
		p := st.ptr(v, "array")
		if bigLen(at) {
			l := st.toInt(iv)
			st.boundsCheck(l, linC(at.Len()))
			return VElem{O: p.O, P: p.P, I: l}
		}
		i := st.smallIndex(iv, at.Len())
		return VPtr{p.O, p.P + int(i)*cellCount(at.Elem())}
	case *types.Slice:
		switch s := v.(type) {
		case VSlice:
			l := st.toInt(iv)
			st.boundsCheck(l, s.Len)
			return st.sliceElem(s, l, u.Elem())
		case VNil:
			st.abort("panic", "index out of range of nil slice")
		case VApp, VOpq:
			return st.opqElem(v, iv)
		case VTable:
			return VElem{Tab: s.G, I: st.toInt(iv)}
		}
	}
	st.abort("undecided", "element address of %s", st.show(v))
	return nil
}

func (st *State) indexVal(v Value, t types.Type, iv Value, et types.Type) Value {
	if a, ok := t.Underlying().(*types.Array); ok {
		if g, ok := v.(VAgg); ok && !bigLen(a) {
			i := st.smallIndex(iv, a.Len())
			return st.part(g, int(i)*cellCount(a.Elem()), et)
		}
	}
	if isString(t) {
		return st.strIndex(v, st.toInt(iv))
	}
	st.abort("undecided", "index of %s", st.show(v))
	return nil
}

func (st *State) lookup(v Value, x *ssa.Lookup, iv Value) Value {
	if isString(x.X.Type()) {
		return st.strIndex(v, st.toInt(iv))
	}
	st.abort("undecided", "map lookup")
	return nil
}

func (st *State) unop(f *Frame, x *ssa.UnOp) Value {
	v := st.get(f, x.X)
	switch x.Op {
	case token.MUL:
		return st.load(v, x.Type())
	case token.NOT:
		b, ok := v.(VBool)
		if !ok {
			return VBool{Known: true, Val: !st.toBool(v)}
		}
		b.Val = !b.Val
		return b
	case token.SUB:
		return VInt{st.fit(st.toInt(v).neg(), x.Type())}
	case token.XOR:
		if isWordType(x.Type()) {
			return st.wordNot(v, wordWidth(x.Type()))
		}
		lo, hi, _ := intRange(x.Type())
		if isUnsigned(x.Type()) {
			return VInt{linC(lo + hi).sub(st.toInt(v))}
		}
		return VInt{linC(-1).sub(st.toInt(v))}
	case token.ARROW:
		return st.recv(v, x)
	}
	st.abort("undecided", "unsupported operator %s", x.Op)
	return nil
}

// fit keeps a result in the range of its type (wrapping exactly).
func (st *State) fit(l Lin, t types.Type) Lin {
	lo, hi, ok := intRange(t)
	if !ok || hi >= inf-1 && lo < 0 {
		return l
	}
	if hi >= inf-1 { // 64-bit unsigned
		if !st.decideLE0(l.neg()) {
			st.abort("undecided", "64-bit unsigned wrap-around")
		}
		return l
	}
	if n := hi - lo + 1; st.zone.upper(l) > hi+4*n || st.zone.lower(l) < lo-4*n {
		if !st.decideLE0(l.addC(1-lo)) && !st.decideLE0(linC(hi+1).sub(l)) {
			return l
		}
		// some value of the type
		r := linS(st.newSym())
		st.zone.assumeLE0(linC(lo).sub(r))
		st.zone.assumeLE0(r.addC(-hi))
		return r
	}
	if st.decideLE0(l.addC(1 - lo)) { // l < lo
		return st.fit(l.addC(hi-lo+1), t)
	}
	if st.decideLE0(linC(hi + 1).sub(l)) { // l > hi
		return st.fit(l.addC(-(hi - lo + 1)), t)
	}
	return l
}

func (st *State) convert(v Value, from, to types.Type) Value {
	if st.eng.ob.glue {
		if x, ok := st.packConvert(v, from, to); ok {
			return x
		}
	}
	if _, _, ok := intRange(to); ok {
		if _, _, ok := intRange(from); !ok {
			st.abort("undecided", "conversion from %s", from)
		}
		if isWordType(to) || isWordType(from) {
			return st.wordConvert(v, from, to)
		}
		if x, ok := v.(VInt); ok {
			return VInt{st.fit(x.L, to)}
		}
		if q, ok := v.(VOpq); ok {
			return VApp{F: "conv:" + to.String(), Args: []Value{q}}
		}
	}
	if isString(to) {
		if isString(from) {
			return v
		}
		return st.bytesToString(v)
	}
	if s, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		_ = s
		return st.stringToBytes(v)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	st.abort("undecided", "conversion from %s to %s", from, to)
	return nil
}

func (st *State) makeIface(v Value, t types.Type) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return VIface{t, v}
}

func (st *State) typeAssert(v Value, x *ssa.TypeAssert) Value {
	var ok bool
	var res Value
	switch y := v.(type) {
	case VNil:
		ok = false
	case VIface:
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(y.T, it)
			res = v
		} else {
			ok = types.Identical(y.T, x.AssertedType)
			res = y.V
		}
	default:
		ok, res = st.assertHook(v, x)
	}
	if !ok {
		if !x.CommaOk {
			st.abort("panic", "type assertion to %s fails", x.AssertedType)
		}
		return VTuple{[]Value{zeroValue(x.AssertedType), VBool{Known: true}}}
	}
	if x.CommaOk {
		return VTuple{[]Value{res, VBool{Known: true, Val: true}}}
	}
	return res
}

func (st *State) binop(op token.Token, a, b Value, at, bt, rt types.Type) Value {
	if st.eng.ob.glue {
		if x, ok := st.packBinop(op, a, b, rt); ok {
			return x
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		if x, ok := st.opqEqual(a, b, at); ok {
			x.Val = op != token.EQL
			return x
		}
		if isWordType(at) {
			_, wa := a.(VWord)
			_, wb := b.(VWord)
			if wa || wb {
				x := st.wordEqualV(a, b, at)
				x.Val = x.Val != (op != token.EQL)
				return x
			}
		}
		r := st.equal(a, b, at)
		return VBool{Known: true, Val: r == (op == token.EQL)}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isString(at) {
			c := st.compareStrings(a, b)
			switch op {
			case token.LSS:
				return VBool{Known: true, Val: c < 0}
			case token.LEQ:
				return VBool{Known: true, Val: c <= 0}
			case token.GTR:
				return VBool{Known: true, Val: c > 0}
			default:
				return VBool{Known: true, Val: c >= 0}
			}
		}
		if isWordType(at) {
			return st.wordCompare(op, a, b)
		}
		x, y := st.toInt(a), st.toInt(b)
		var r bool
		switch op {
		case token.LSS:
			r = st.decideLE0(x.sub(y).addC(1))
		case token.LEQ:
			r = st.decideLE0(x.sub(y))
		case token.GTR:
			r = !st.decideLE0(x.sub(y))
		default:
			r = !st.decideLE0(x.sub(y).addC(1))
		}
		return VBool{Known: true, Val: r}
	case token.ADD:
		if isString(rt) {
			return st.concat(a, b)
		}
	case token.LAND, token.LOR:
		st.abort("undecided", "unsupported operator %s", op)
	}
	if isWordType(rt) {
		if r, ok := st.wordBinop(op, a, b, at, bt, rt); ok {
			return r
		}
	}
	x, y := st.toInt(a), st.toInt(b)
	switch op {
	case token.ADD:
		return VInt{st.fit(x.add(y), rt)}
	case token.SUB:
		return VInt{st.fit(x.sub(y), rt)}
	case token.MUL:
		if x.isConst() {
			return VInt{st.fit(y.scale(x.k), rt)}
		}
		if y.isConst() {
			return VInt{st.fit(x.scale(y.k), rt)}
		}
	}
	if x.isConst() && y.isConst() {
		if r, ok := constOp(op, x.k, y.k); ok {
			return VInt{st.fit(linC(r), rt)}
		}
		if (op == token.QUO || op == token.REM) && y.k == 0 {
			st.abort("panic", "division by zero")
		}
	}
	if y.isConst() {
		return VInt{st.fit(st.piecewise(x, func(v int64) (int64, bool) { return constOp(op, v, y.k) }), rt)}
	}
	if x.isConst() {
		return VInt{st.fit(st.piecewise(y, func(v int64) (int64, bool) { return constOp(op, x.k, v) }), rt)}
	}
	st.abort("undecided", "unsupported arithmetic %s %s %s", x, op, y)
	return nil
}

func constOp(op token.Token, a, b int64) (int64, bool) {
	switch op {
	case token.ADD:
		return a + b, true
	case token.SUB:
		return a - b, true
	case token.MUL:
		return a * b, true
	case token.QUO:
		if b == 0 {
			return 0, false
		}
		return a / b, true
	case token.REM:
		if b == 0 {
			return 0, false
		}
		return a % b, true
	case token.AND:
		return a & b, true
	case token.OR:
		return a | b, true
	case token.XOR:
		return a ^ b, true
	case token.AND_NOT:
		return a &^ b, true
	case token.SHL:
		if b < 0 || b > 62 {
			return 0, b >= 0
		}
		return a << uint(b), true
	case token.SHR:
		if b < 0 {
			return 0, false
		}
		if b > 62 {
			b = 62
		}
		return a >> uint(b), true
	}
	return 0, false
}

// piecewise applies a function to a bounded one-symbol expression, forking into ranges on which
// the function is constant or a shift.
func (st *State) piecewise(x Lin, f func(int64) (int64, bool)) Lin {
	lo, hi := st.zone.lower(x), st.zone.upper(x)
	if hi-lo > 5000 || hi >= inf || lo <= -inf {
		st.abort("undecided", "non-linear arithmetic on an unbounded value %s", x)
	}
	type piece struct {
		lo, hi int64
		slope  int64
		off    int64
	}
	var ps []piece
	for v := lo; v <= hi; v++ {
		r, ok := f(v)
		if !ok {
			st.abort("undecided", "non-linear arithmetic")
		}
		if n := len(ps); n > 0 {
			p := &ps[n-1]
			if p.hi == p.lo && (r == p.off+p.slope*p.lo+1 || r == p.off+p.slope*p.lo) {
				prev := p.off + p.slope*p.lo
				if r == prev {
					p.slope, p.off = 0, r
				} else {
					p.slope, p.off = 1, r-v
				}
				p.hi = v
				continue
			}
			if p.off+p.slope*v == r {
				p.hi = v
				continue
			}
		}
		ps = append(ps, piece{v, v, 0, r})
	}
	if len(ps) == 1 {
		return x.scale(ps[0].slope).addC(ps[0].off)
	}
	var alts []func(c *State) bool
	for _, p := range ps {
		p := p
		alts = append(alts, func(c *State) bool {
			return c.zone.assumeLE0(x.addC(-p.hi)) && c.zone.assumeLE0(x.neg().addC(p.lo))
		})
	}
	st.fork(alts...)
	return Lin{}
}

// replaceVal puts y in place of x everywhere.
func (st *State) replaceVal(x, y Value) {
	if _, ok := x.(VOpq); !ok {
		x, y = y, x
	}
	st.rewrite(func(v Value) Value {
		if valSame(v, x) {
			return y
		}
		return v
	})
}

// opqEqual compares values the analysis knows nothing about.
func (st *State) opqEqual(a, b Value, t types.Type) (VBool, bool) {
	_, qa := a.(VOpq)
	_, qb := b.(VOpq)
	if u, ok := t.Underlying().(*types.Basic); ok {
		if u.Info()&types.IsInteger == 0 || !qa && !qb || valSame(a, b) {
			return VBool{}, false
		}
	} else if types.IsInterface(t) {
		if !qa || !qb {
			return VBool{}, false
		}
		if !types.Identical(t, types.Universe.Lookup("error").Type()) {
			st.eng.report(st, "panic", "compares values of unknown types with ==, which panics when they aren't comparable")
			panic(stopPanic{})
		}
		if valSame(a, b) {
			return VBool{}, false
		}
	} else {
		return VBool{}, false
	}
	id := st.id()
	if st.entry == nil {
		st.ghosts[fmt.Sprintf("eq:%d", id)] = VTuple{[]Value{a, b}}
	}
	return VBool{ID: id}, true
}

// equal decides a == b, forking when needed.
func (st *State) equal(a, b Value, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return st.toBool(a) == st.toBool(b)
		case u.Info()&types.IsString != 0:
			return st.stringsEqual(a, b)
		case u.Info()&types.IsInteger != 0:
			if isWordType(u) {
				return st.wordEqual(a, b)
			}
			if _, ok := a.(VOpq); ok && valSame(a, b) {
				return true
			}
			return st.decideEQ0(st.toInt(a).sub(st.toInt(b)))
		}
	}
	if _, ok := b.(VNil); ok {
		return st.isNil(a)
	}
	if _, ok := a.(VNil); ok {
		return st.isNil(b)
	}
	// pointers
	if st.isPtrLike(a) && st.isPtrLike(b) {
		if valSame(a, b) {
			return true
		}
		// different summarised values may only coincide when both are nil; node identities are disjoint
		sa, okA := a.(VSub)
		sb, okB := b.(VSub)
		if okA && okB && st.eng.ob.glue {
			return st.handlesEqual(sa.ID, sb.ID)
		}
		if okA {
			if okB {
				_ = sb
				if !st.subs[sa.ID].NonNil {
					st.unfoldSub(sa.ID)
				}
				if !st.subs[sb.ID].NonNil {
					st.unfoldSub(sb.ID)
				}
			}
		}
		return false
	}
	if ia, ok := a.(VIface); ok {
		if ib, ok := b.(VIface); ok {
			if !types.Identical(ia.T, ib.T) {
				return false
			}
			return st.equal(ia.V, ib.V, ia.T)
		}
		if x, ok := b.(VApp); ok && (x.F == "global" || x.F == "error") {
			return false
		}
	}
	if x, ok := a.(VApp); ok {
		if y, ok := b.(VApp); ok && x.F == "global" && y.F == "global" {
			return valSame(a, b)
		}
		if x.F == "global" || x.F == "error" {
			if _, ok := b.(VIface); ok {
				return false
			}
		}
	}
	if valSame(a, b) {
		if _, ok := a.(VOpq); ok {
			return true
		}
		if _, ok := a.(VApp); ok {
			return true
		}
	}
	st.abort("undecided", "comparison of %s and %s", st.show(a), st.show(b))
	return false
}

func (st *State) isPtrLike(v Value) bool {
	switch v.(type) {
	case VPtr, VSub, VSeg, VChan:
		return true
	}
	return false
}

// ---- calls

func (st *State) callee(f *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		args = append(args, st.get(f, c.Value))
		for _, a := range c.Args {
			args = append(args, st.get(f, a))
		}
		return nil, args
	}
	for _, a := range c.Args {
		args = append(args, st.get(f, a))
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, args
	}
	return st.get(f, c.Value), args
}

// doCall performs a call; the result goes to instruction res of frame f, which resumes after it.
func (e *Engine) doCall(st *State, f *Frame, c *ssa.CallCommon, fv Value, args []Value, res *ssa.Call, noRes bool) bool {
	finish := func(v Value) bool {
		if res != nil {
			st.setReg(f, res, v)
			f.pc++
		}
		return true
	}
	if c.IsInvoke() {
		v, ok := st.invoke(c, args)
		if !ok {
			st.abort("undecided", "call of interface method %s", c.Method.FullName())
		}
		return finish(v)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return finish(st.builtin(b.Name(), args, c))
	}
	fn, ok := fv.(VFunc)
	if !ok {
		if _, isNil := fv.(VNil); isNil {
			st.abort("panic", "call of nil function")
		}
		v, ok := st.callOpaque(fv, args, c)
		if !ok {
			st.abort("undecided", "call of unknown function %s", st.show(fv))
		}
		return finish(v)
	}
	if h := e.ob.contract(fn.Fn); h != nil {
		v, ok := h(st, args)
		if ok {
			return finish(v)
		}
	}
	if e.ob.iterFn != nil && !noRes {
		if n, item, ok := e.ob.iterFn(st, fn.Fn, args); ok {
			return e.iterate(st, args[len(args)-1], 0, n, item, res)
		}
	}
	if !e.prog.InRepo(fn.Fn) || len(fn.Fn.Blocks) == 0 {
		v, ok := st.external(fn.Fn, args, c)
		if !ok {
			st.abort("undecided", "call of external function %s", fn.Fn)
		}
		return finish(v)
	}
	if e.isRec(fn.Fn) && !noRes && !st.eng.ob.inline {
		return e.tabCall(st, f, fn, args, res)
	}
	if len(st.frames) > 300 {
		st.abort("undecided", "call stack too deep")
	}
	e.enter(st, fn, args)
	st.top().noRes = noRes
	if e.ob.unroll != nil && e.isRec(fn.Fn) {
		return e.memo(st, true)
	}
	return true
}

func (e *Engine) enter(st *State, fn VFunc, args []Value) *Frame {
	in := e.info(fn.Fn)
	e.fnsSeen[fn.Fn] = true
	g := &Frame{fn: fn.Fn, info: in, blk: fn.Fn.Blocks[0], regs: make([]Value, len(in.vals))}
	for i, p := range fn.Fn.Params {
		g.regs[in.num[p]] = args[i]
	}
	for i, p := range fn.Fn.FreeVars {
		g.regs[in.num[p]] = fn.Caps[i]
	}
	st.frames = append(st.frames, g)
	return g
}

// ret pops a frame.
func (e *Engine) ret(st *State, res Value) bool {
	f := st.top()
	if len(f.defers) > 0 {
		st.abort("undecided", "return with pending deferred calls")
	}
	if len(st.frames) == 1 {
		if st.entry != nil {
			e.tabExit(st, res)
			return false
		}
		e.nExits++
		e.ob.exit(st, res)
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	g := st.top()
	if f.cont != nil {
		f.cont(st, res)
		return true
	}
	if f.noRes || f.isGo {
		return true
	}
	call := g.blk.Instrs[g.pc].(*ssa.Call)
	st.setReg(g, call, res)
	g.pc++
	return true
}

// isRec tells whether a function can (transitively, by static calls) call itself.
func (e *Engine) isRec(fn *ssa.Function) bool {
	if r, ok := e.rec[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var c *ssa.Function
				switch x := ins.(type) {
				case ssa.CallInstruction:
					c = x.Common().StaticCallee()
				case *ssa.MakeClosure:
					c = x.Fn.(*ssa.Function)
				}
				if c == nil || !e.prog.InRepo(c) {
					continue
				}
				if c == fn {
					return true
				}
				if !seen[c] {
					seen[c] = true
					if walk(c) {
						return true
					}
				}
			}
		}
		return false
	}
	r := walk(fn)
	e.rec[fn] = r
	return r
}
