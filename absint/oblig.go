package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type contractFn func(st *State, args []Value) (Value, bool)

// Obligation is one statement to be discharged by abstract interpretation of one entry function.
type Obligation struct {
	Name     string
	Class    string              // obligations of one class are about equal code
	Props    map[string][]string // finding category -> properties it refutes
	Inplace  bool
	inline   bool
	radix    bool // runs of entries are known to be non-empty or not
	keepRes  bool // results of recursive functions aren't summarised
	bytes    bool // the bytes of words matter
	text     bool // the bytes of strings matter
	glue     bool // trees are handles with a contract
	joinMask func(a, b uint8) bool
	order    string
	fn       *ssa.Function
	theories []Theory
	rule     string

	setup     func(st *State) []Value // builds the entry state and the arguments
	exitFn    func(st *State, res Value)
	contracts map[*ssa.Function]contractFn

	onPanic  func(st *State, v Value) bool
	syncFn   func(st *State) bool
	strEqual func(st *State, a, b Value) (bool, bool)
	strLen   func(st *State, v Value) (Lin, bool)
	callFn   func(st *State, fv Value, args []Value, c *ssa.CallCommon) (Value, bool)
	invokeFn func(st *State, c *ssa.CallCommon, args []Value) (Value, bool)
	extFn    func(st *State, fn *ssa.Function, args []Value) (Value, bool)
	globFn   func(st *State, g *ssa.Global) (Value, bool)
	sendFn   func(st *State, x Value) Item
	recvFn   func(st *State, v Value, x *ssa.UnOp) Value
	writeFn  func(st *State, o *Obj, cell int) bool
	assertFn func(st *State, v Value, t types.Type) (ok bool, res Value, done bool)
	noGo     bool
	boolFn   func(st *State, v Value) (bool, bool)
	nilFn    func(st *State, v Value) (bool, bool)
	concatFn func(st *State, a, b Value) (Value, bool)
	iterFn   func(st *State, fn *ssa.Function, args []Value) (n int, item func(k int) Value, ok bool) // a function which calls its last argument n times
	unroll   func(st *State)                                                                          // loops are followed as they are; forgets what isn't needed
	mergeFn  func(st *State, a, b *Atom) bool
	tabFn    func(st *State)
	headFn   func(st *State, f *Frame) // before a state is generalised at a loop head
	afterFn  func(st *State, f *Frame)
	thr      []int64 // bounds to try at loop heads instead of the function's constants
	maxC     int
	steps    int
	Cost     int             // rough, for scheduling
	custom   func(r *Result) // a check which doesn't interpret code
}

func (o *Obligation) limit() int {
	if dbgSteps > 0 {
		return dbgSteps
	}
	if o.steps > 0 {
		return o.steps
	}
	return maxSteps
}

func (o *Obligation) contract(fn *ssa.Function) contractFn { return o.contracts[fn] }

func (o *Obligation) mayWrite(st *State, ob *Obj, cell int) bool {
	if o.writeFn != nil {
		return o.writeFn(st, ob, cell)
	}
	return o.Inplace
}

func (o *Obligation) exit(st *State, res Value) { o.exitFn(st, res) }

func (o *Obligation) mergeable(st *State, a, b *Atom) bool {
	if o.mergeFn != nil {
		return o.mergeFn(st, a, b)
	}
	return true
}

func (o *Obligation) maxConsts() int {
	if o.maxC > 0 {
		return o.maxC
	}
	return 4
}

func (o *Obligation) enterTab(c *State) {
	if o.tabFn != nil {
		o.tabFn(c)
	}
}

// props lists every property the obligation takes part in.
func (o *Obligation) props() []string {
	set := map[string]bool{}
	for _, ps := range o.Props {
		for _, p := range ps {
			set[p] = true
		}
	}
	var out []string
	for p := range set {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// Result is the outcome of an obligation.
type Result struct {
	Ob      *Obligation
	Finds   []*Finding
	States  int
	Steps   int
	Forks   int
	Exits   int
	Heads   int
	Entries int
	Fns     []string
	Edges   int
	MaxObjs int
	Took    time.Duration
	Note    string
}

// Run discharges an obligation.
func (p *Program) Run(repo string, ob *Obligation, debug bool) *Result {
	if ob.custom != nil {
		r := &Result{Ob: ob}
		func() {
			defer func() {
				if x := recover(); x != nil {
					r.Finds = append(r.Finds, &Finding{Ob: ob.Name, Cat: "undecided", Fn: "-", Pos: "-", Msg: fmt.Sprintf("internal error: %v", x)})
				}
			}()
			ob.custom(r)
		}()
		return r
	}
	e := &Engine{prog: p, start: time.Now(), repo: repo, infos: map[*ssa.Function]*FnInfo{}, ob: ob, finds: map[string]*Finding{},
		seen: map[string]*headRec{}, masks: map[string]*maskRec{}, entries: map[string]*Entry{}, rec: map[*ssa.Function]bool{},
		dbgN: dbgN, heads: map[string]int{}, fnsSeen: map[*ssa.Function]bool{}, edges: map[string]bool{}, debug: debug,
		gvals: map[*ssa.Global]Value{}, theories: ob.theories}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(abortPanic); ok {
					e.report(nil, a.cat, a.msg)
					return
				}
				if debug {
					panic(r)
				}
				e.report(nil, "undecided", fmt.Sprintf("internal error: %v", r))
			}
		}()
		st := &State{eng: e, objs: map[int]*Obj{}, subs: map[int]*Sub{}, segs: map[int]*Seg{}, atoms: map[int]*Atom{},
			chans: map[int]*Chan{}, words: map[string][]Item{}, ghosts: map[string]Value{}, zone: newZone(), lens: map[int]Sym{}, facts: newFacts()}
		args := ob.setup(st)
		e.enter(st, VFunc{Fn: ob.fn}, args)
		e.push(st)
		e.loop()
	}()
	r := &Result{Ob: ob, States: e.nStates, Steps: e.nSteps, Forks: e.nForks, Exits: e.nExits, MaxObjs: e.maxObjs, Heads: len(e.seen), Entries: len(e.entries), Edges: len(e.edges)}
	if debug {
		for _, k := range sortedNames(e.entries) {
			fmt.Println("ENTRY", strings.ReplaceAll(k, "\n", " "), e.entries[k].zone)
			for _, x := range sortedNames(e.entries[k].exits) {
				fmt.Println("   EXIT", strings.ReplaceAll(x, "\n", " "), e.entries[k].exits[x].zone)
			}
		}
		for k := range e.seen {
			fmt.Println("KEY", strings.ReplaceAll(k, "\n", " "))
		}
	}
	for f := range e.fnsSeen {
		r.Fns = append(r.Fns, f.String())
	}
	sort.Strings(r.Fns)
	if r.Exits == 0 && len(e.finds) == 0 && !e.broken() {
		e.report(nil, "undecided", "no path of "+ob.fn.String()+" reaches an exit")
	}
	for _, k := range sortedNames(e.finds) {
		r.Finds = append(r.Finds, e.finds[k])
	}
	return r
}

// fail reports a broken exit condition and ends the path.
func (st *State) fail(cat, format string, args ...interface{}) {
	st.eng.report(st, cat, fmt.Sprintf(format, args...))
	panic(stopPanic{})
}

// resolve makes the class of every piece of the initial content definite, forking when needed.
func (st *State) resolve() {
	for _, it := range st.words["orig"] {
		a := st.atoms[it.A]
		if _, ok := maskSign(a.Mask); ok && !(a.Seq && a.Mask == cEQ) {
			continue
		}
		id := a.ID
		if !a.Seq {
			st.classBy(a, atomMask)
			continue
		}
		var alts []func(*State) bool
		alts = append(alts, func(n *State) bool {
			x, y := n.newSeq(a.Mask&cLT), n.newSeq(a.Mask&cGT)
			n.splitAtom(id, x.ID, y.ID)
			return true
		})
		if a.Mask&cEQ != 0 {
			alts = append(alts, func(n *State) bool {
				x, p, y := n.newSeq(a.Mask&cLT), n.newPair(cEQ, n.newOpq(), n.newOpq()), n.newSeq(a.Mask&cGT)
				n.splitAtom(id, x.ID, p.ID, y.ID)
				return true
			})
		}
		st.fork(alts...)
	}
}

// itemPair is the entry of an item which is one.
func (st *State) itemPair(it Item) (k, v Value, ok bool) {
	if it.A == 0 {
		return it.K, it.V, true
	}
	a := st.atoms[it.A]
	if a == nil || a.Seq {
		return nil, nil, false
	}
	return a.K, a.V, true
}

// sameWord compares two content words.
func (st *State) sameWord(a, b []Item) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].F != b[i].F {
			return false
		}
		if a[i].A == b[i].A && a[i].A != 0 {
			continue
		}
		ak, av, ok1 := st.itemPair(a[i])
		bk, bv, ok2 := st.itemPair(b[i])
		if !ok1 || !ok2 || !valSame(ak, bk) || !valSame(av, bv) {
			return false
		}
	}
	return true
}

// settle drops everything but the result's tree before the exit condition is judged.
func (st *State) settle(root Value) {
	st.frames = nil
	for k := range st.ghosts {
		if strings.HasPrefix(k, "obj") {
			delete(st.ghosts, k)
		}
	}
	st.ghosts["tree"] = root
	st.normalize()
	st.fold(true)
}

// treeContent is the content of a settled tree.
func (st *State) treeContent(th Theory) *Sub {
	switch x := st.ghosts["tree"].(type) {
	case VNil:
		return th.NilSub(st)
	case VSub:
		return st.subs[x.ID]
	case VPtr, VSeg:
	}
	return nil
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
