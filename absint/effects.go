package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// origin tells where the memory a value refers to may come from.
type origin struct {
	fresh  bool   // made since the function was called
	params uint64 // reachable from these parameters (captured variables follow the parameters)
	other  bool   // package variables, results of unknown functions
}

func (o origin) or(p origin) origin {
	return origin{o.fresh || p.fresh, o.params | p.params, o.other || p.other}
}

// effect is what a function may do to memory it didn't make.
type effect struct {
	writes  map[int]*effectSite // by parameter
	global  *effectSite
	results []origin
	content map[string]origin // what the function puts into memory it made, by type
}

type effectSite struct {
	fn   *ssa.Function
	ins  ssa.Instruction
	what string
	via  string
}

// effects computes, for every repository function, which memory existing before the call it may write.
type effects struct {
	p     *Program
	sum   map[*ssa.Function]*effect
	vals  map[*ssa.Function]map[ssa.Value]origin
	again bool
	taken map[*ssa.Function]bool // used as a value
}

func pointerful(t types.Type) bool { return ptrful(t, 0) }

func ptrful(t types.Type, d int) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return ptrful(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ptrful(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if ptrful(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

// leaves lists the pointer types inside a type.
func leaves(t types.Type, out map[string]bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			out["*"] = true
		}
	case *types.Array:
		leaves(u.Elem(), out)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leaves(u.Field(i).Type(), out)
		}
	case *types.Interface:
		out["interface"] = true
	case *types.Chan:
		out["chan "+types.TypeString(u.Elem().Underlying(), nil)] = true
	default:
		out[types.TypeString(t.Underlying(), nil)] = true
	}
}

func (e *effects) origin(f *ssa.Function, v ssa.Value) origin {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return origin{}
	case *ssa.Global:
		return origin{other: true}
	case *ssa.Parameter:
		for i, p := range f.Params {
			if p == x {
				return origin{params: 1 << uint(i)}
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.FreeVars {
			if p == x {
				return origin{params: 1 << uint(len(f.Params)+i)}
			}
		}
	}
	return e.vals[f][v]
}

func (e *effects) set(f *ssa.Function, v ssa.Value, o origin) {
	if !pointerful(v.Type()) {
		return
	}
	n := e.vals[f][v].or(o)
	if n != e.vals[f][v] {
		e.vals[f][v] = n
		e.again = true
	}
}

func (e *effects) put(f *ssa.Function, t types.Type, o origin) {
	if o == (origin{}) {
		return
	}
	ls := map[string]bool{}
	leaves(t, ls)
	s := e.sum[f]
	for l := range ls {
		if n := s.content[l].or(o); n != s.content[l] {
			s.content[l] = n
			e.again = true
		}
	}
}

// held is what memory made by f may hold in places of type t.
func (e *effects) held(f *ssa.Function, t types.Type) origin {
	ls := map[string]bool{}
	leaves(t, ls)
	var o origin
	for l := range ls {
		o = o.or(e.sum[f].content[l])
	}
	return o
}

func (e *effects) wrote(f *ssa.Function, o origin, s *effectSite) {
	sum := e.sum[f]
	if o.other && sum.global == nil {
		sum.global = s
		e.again = true
	}
	for i := 0; i < 64; i++ {
		if o.params&(1<<uint(i)) != 0 && sum.writes[i] == nil {
			sum.writes[i] = s
			e.again = true
		}
	}
}

func (e *effects) load(f *ssa.Function, addr origin, t types.Type) origin {
	o := origin{params: addr.params, other: addr.other}
	if addr.fresh {
		o = o.or(e.held(f, t))
	}
	return o
}

// pureExt lists the library functions which write nothing their arguments refer to.
func pureExt(fn *ssa.Function) bool {
	name := fn.String()
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	switch pkg {
	case "strings", "bytes":
		return !strings.Contains(name, "Builder") && !strings.Contains(name, "Buffer") && !strings.Contains(name, "Reader")
	case "math", "math/bits", "unicode", "strconv", "errors", "cmp", "reflect":
		return !strings.Contains(name, "Append") && !strings.Contains(name, ".Set")
	case "unicode/utf8":
		return strings.Contains(name, "Decode") || strings.Contains(name, "Rune") && !strings.Contains(name, "Encode") && !strings.Contains(name, "Append") || strings.Contains(name, "Valid")
	case "fmt":
		return strings.HasPrefix(fn.Name(), "Sprint") || fn.Name() == "Errorf"
	case "net", "net/netip":
		return true
	case "sort":
		return strings.HasPrefix(fn.Name(), "Search") || strings.HasSuffix(fn.Name(), "AreSorted") || strings.HasSuffix(fn.Name(), "IsSorted")
	case "encoding/binary":
		return strings.HasPrefix(fn.Name(), "Uint") || fn.Name() == "Size"
	case "slices", "maps":
		switch n := fn.Name(); {
		case strings.HasPrefix(n, "Sort"), strings.HasPrefix(n, "Insert"), strings.HasPrefix(n, "Delete"), strings.HasPrefix(n, "Compact"), strings.HasPrefix(n, "Reverse"), strings.HasPrefix(n, "Replace"), strings.HasPrefix(n, "Grow"), strings.HasPrefix(n, "Append"), strings.HasPrefix(n, "Copy"):
			return false
		}
		return true
	}
	return false
}

func (e *effects) visit(f *ssa.Function) {
	if e.sum[f] != nil || len(f.Blocks) == 0 {
		return
	}
	s := &effect{writes: map[int]*effectSite{}, content: map[string]origin{}}
	s.results = make([]origin, f.Signature.Results().Len())
	e.sum[f] = s
	e.vals[f] = map[ssa.Value]origin{}
	e.again = true
}

func (e *effects) call(f *ssa.Function, ins ssa.Instruction, c *ssa.CallCommon, res ssa.Value) {
	var args []origin
	if c.IsInvoke() {
		args = append(args, e.origin(f, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, e.origin(f, a))
	}
	all := origin{}
	for _, a := range args {
		all = all.or(a)
	}
	apply := func(callee *ssa.Function, args []origin, bindings []origin) {
		e.visit(callee)
		s := e.sum[callee]
		if s == nil {
			return
		}
		ins0 := append(append([]origin{}, args...), bindings...)
		tr := func(o origin) origin {
			n := origin{fresh: o.fresh, other: o.other}
			for i := range ins0 {
				if o.params&(1<<uint(i)) != 0 {
					n = n.or(ins0[i])
				}
			}
			return n
		}
		if s.global != nil {
			e.wrote(f, origin{other: true}, s.global)
		}
		for i, w := range s.writes {
			if i < len(ins0) {
				e.wrote(f, origin{params: ins0[i].params, other: ins0[i].other}, &effectSite{w.fn, w.ins, w.what, f.String()})
				if ins0[i].fresh {
					for _, a := range ins0 {
						for l := range s.content {
							if n := e.sum[f].content[l].or(tr(a)); n != e.sum[f].content[l] {
								e.sum[f].content[l] = n
								e.again = true
							}
						}
					}
				}
			}
		}
		for l, o := range s.content {
			if n := e.sum[f].content[l].or(tr(o)); n != e.sum[f].content[l] {
				e.sum[f].content[l] = n
				e.again = true
			}
		}
		if res != nil {
			var o origin
			for _, r := range s.results {
				o = o.or(tr(r))
			}
			e.set(f, res, o)
		}
	}
	if c.IsInvoke() {
		for _, g := range e.p.AllFuncs {
			if g.Signature.Recv() != nil && g.Name() == c.Method.Name() && types.Implements(g.Signature.Recv().Type(), c.Value.Type().Underlying().(*types.Interface)) {
				apply(g, args, nil)
			}
		}
		if res != nil {
			e.set(f, res, all.or(origin{fresh: true}))
		}
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			e.wrote(f, origin{params: args[0].params, other: args[0].other}, &effectSite{f, ins, "appends to a slice", ""})
			o := args[0].or(origin{fresh: true})
			if len(args) > 1 {
				if sl, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && pointerful(sl.Elem()) {
					e.put(f, sl.Elem(), e.load(f, args[1], sl.Elem()))
				}
			}
			if res != nil {
				e.set(f, res, o)
			}
		case "copy":
			e.wrote(f, origin{params: args[0].params, other: args[0].other}, &effectSite{f, ins, "copies into a slice", ""})
			if sl, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && pointerful(sl.Elem()) {
				e.put(f, sl.Elem(), e.load(f, args[1], sl.Elem()))
			}
		case "delete", "clear":
			e.wrote(f, origin{params: args[0].params, other: args[0].other}, &effectSite{f, ins, b.Name() + "s elements", ""})
		default:
			if res != nil {
				e.set(f, res, all)
			}
		}
		return
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		var bs []origin
		for _, b := range mc.Bindings {
			bs = append(bs, e.origin(f, b))
		}
		apply(mc.Fn.(*ssa.Function), args, bs)
		return
	}
	if callee := c.StaticCallee(); callee != nil {
		if e.p.InRepo(callee) && len(callee.Blocks) > 0 {
			apply(callee, args, nil)
			return
		}
		if !pureExt(callee) {
			e.wrote(f, origin{params: all.params, other: all.other}, &effectSite{f, ins, "hands memory to " + callee.String(), ""})
		}
		if res != nil {
			e.set(f, res, all.or(origin{fresh: true}))
		}
		return
	}
	// a function value: the caller's own code, or a closure whose effects were counted where it was made
	if res != nil {
		e.set(f, res, all.or(origin{fresh: true, other: true}))
	}
}

func (e *effects) step(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
				e.set(f, x.(ssa.Value), origin{fresh: true})
			case *ssa.Store:
				o := e.origin(f, x.Addr)
				e.wrote(f, origin{params: o.params, other: o.other}, &effectSite{f, ins, "stores to memory", ""})
				if o.fresh && pointerful(x.Val.Type()) {
					e.put(f, x.Val.Type(), e.origin(f, x.Val))
				}
			case *ssa.MapUpdate:
				o := e.origin(f, x.Map)
				e.wrote(f, origin{params: o.params, other: o.other}, &effectSite{f, ins, "updates a map", ""})
				if o.fresh {
					e.put(f, x.Value.Type(), e.origin(f, x.Value))
					e.put(f, x.Key.Type(), e.origin(f, x.Key))
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				var o origin
				var bs []origin
				for _, v := range x.Bindings {
					bs = append(bs, e.origin(f, v))
					o = o.or(e.origin(f, v))
				}
				e.set(f, x, o)
				e.visit(fn)
				if s := e.sum[fn]; s != nil {
					if s.global != nil {
						e.wrote(f, origin{other: true}, s.global)
					}
					for i, w := range s.writes {
						if i < len(fn.Params) {
							if !onlyCalled(x) {
								e.wrote(f, origin{other: true}, w)
							}
						} else if k := i - len(fn.Params); k < len(bs) {
							e.wrote(f, origin{params: bs[k].params, other: bs[k].other}, w)
						}
					}
					for l, c := range s.content {
						n := origin{fresh: c.fresh, other: c.other}
						for i := range bs {
							if c.params&(1<<uint(len(fn.Params)+i)) != 0 {
								n = n.or(bs[i])
							}
						}
						if c.params&(1<<uint(len(fn.Params))-1) != 0 {
							n.other = true
						}
						if m := e.sum[f].content[l].or(n); m != e.sum[f].content[l] {
							e.sum[f].content[l] = m
							e.again = true
						}
					}
				}
			case *ssa.Call:
				e.call(f, ins, &x.Call, x)
			case *ssa.Go:
				e.call(f, ins, &x.Call, nil)
			case *ssa.Defer:
				e.call(f, ins, &x.Call, nil)
			case *ssa.Return:
				for i, r := range x.Results {
					if pointerful(r.Type()) {
						if n := e.sum[f].results[i].or(e.origin(f, r)); n != e.sum[f].results[i] {
							e.sum[f].results[i] = n
							e.again = true
						}
					}
				}
			case *ssa.UnOp:
				if x.Op.String() == "*" {
					e.set(f, x, e.load(f, e.origin(f, x.X), x.Type()))
				} else if x.Op.String() == "<-" {
					e.set(f, x, e.origin(f, x.X).or(origin{other: true}))
				}
			case *ssa.Lookup:
				o := e.origin(f, x.X)
				e.set(f, x, e.load(f, o, x.Type()))
			case *ssa.Select:
				e.set(f, x, origin{other: true})
			case ssa.Value:
				var o origin
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						o = o.or(e.origin(f, *op))
					}
				}
				e.set(f, x, o)
			}
			// repository functions used as values
			for _, op := range ins.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && e.p.InRepo(g) && len(g.Blocks) > 0 {
					if c, ok := ins.(ssa.CallInstruction); ok && c.Common().Value == *op {
						continue
					}
					e.visit(g)
					if s := e.sum[g]; s != nil {
						if s.global != nil {
							e.wrote(f, origin{other: true}, s.global)
						}
						for _, w := range s.writes {
							if _, ok := ins.(*ssa.MakeClosure); !ok {
								e.wrote(f, origin{other: true}, w)
							}
						}
					}
				}
			}
		}
	}
}

// onlyCalled tells that a closure is only called or started where it's made.
func onlyCalled(m *ssa.MakeClosure) bool {
	for _, r := range *m.Referrers() {
		c, ok := r.(ssa.CallInstruction)
		if !ok || c.Common().Value != m {
			return false
		}
	}
	return true
}

func (e *effects) run(roots []*ssa.Function) {
	for _, r := range roots {
		e.visit(r)
	}
	for e.again {
		e.again = false
		fns := make([]*ssa.Function, 0, len(e.sum))
		for f := range e.sum {
			fns = append(fns, f)
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		for _, f := range fns {
			e.step(f)
		}
	}
}

var readerNames = map[string]bool{"Get": true, "RawGet": true, "Match": true, "ExactMatch": true, "FindNode": true, "GetByNet": true, "GetByIP": true,
	"Enumerate": true, "RawEnumerate": true, "IsEmpty": true, "Children": true, "Dot": true}

// exported lists the exported functions and methods of a package.
func (p *Program) exported(pkg *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.AllFuncs {
		if f.Pkg != pkg || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			if n, ok := deref(r.Type()).(*types.Named); ok && !n.Obj().Exported() && !strings.Contains(pkg.Pkg.Path(), "uintX") {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

// rel is the path of a package below the module.
func (p *Program) rel(pkg *ssa.Package) string {
	return strings.TrimPrefix(strings.TrimPrefix(pkg.Pkg.Path(), p.Mod), "/")
}

// treePkgs lists the packages of the library (not of the generator).
func (p *Program) treePkgs() []*ssa.Package {
	var out []*ssa.Package
	for _, q := range p.Pkgs {
		if q.Pkg.Name() != "main" {
			out = append(out, q)
		}
	}
	return out
}

func effectObligations(p *Program) (obs []*Obligation, errs []anchorErr) {
	seen := map[string]bool{}
	for _, pkg := range p.treePkgs() {
		for _, f := range p.exported(pkg) {
			if p.rel(pkg) != "domain" && !readerNames[f.Name()] {
				continue
			}
			f := f
			seen[p.rel(pkg)] = true
			rule := "no store, append, copy or map update in the call graph of the function reaches memory which existed before the call"
			ob := &Obligation{Name: p.rel(pkg) + "." + f.RelString(pkg.Pkg) + " effects", fn: f, rule: rule, Props: map[string][]string{"effect": {"C02"}}}
			ob.custom = func(r *Result) {
				e := &effects{p: p, sum: map[*ssa.Function]*effect{}, vals: map[*ssa.Function]map[ssa.Value]origin{}}
				e.run([]*ssa.Function{f})
				for g := range e.sum {
					r.Fns = append(r.Fns, g.String())
					for _, b := range g.Blocks {
						r.Steps += len(b.Instrs)
					}
				}
				sort.Strings(r.Fns)
				s := e.sum[f]
				add := func(w *effectSite, where string) {
					msg := fmt.Sprintf("%s %s reached from %s", w.what, where, f)
					r.Finds = append(r.Finds, &Finding{Ob: ob.Name, Cat: "effect", Fn: w.fn.String(), Pos: p.posOf(w.fn, w.ins), Msg: msg})
				}
				if s.global != nil {
					add(s.global, "which belongs to a package variable or to an unknown caller")
				}
				for i := 0; i < 64; i++ {
					if w := s.writes[i]; w != nil {
						n := "a captured variable"
						if i < len(f.Params) {
							n = "the argument " + f.Params[i].Name()
						}
						add(w, "which belongs to "+n)
					}
				}
				r.Exits++
			}
			obs = append(obs, ob)
		}
	}
	for _, q := range []string{"strtree", "dltree", "domain", "domaintree", "iptree", "numtree", "uintX/strtree8", "uintX/domaintree8", "uintX/iptree8"} {
		if !seen[q] {
			errs = append(errs, anchorErr{"no lookup function found in package " + q, []string{"C02"}})
		}
	}
	return
}

// posOf is the source position of an instruction.
func (p *Program) posOf(fn *ssa.Function, ins ssa.Instruction) string {
	pos := ins.Pos()
	if !pos.IsValid() {
		for _, op := range ins.Operands(nil) {
			if *op != nil && (*op).Pos().IsValid() {
				pos = (*op).Pos()
			}
		}
	}
	if !pos.IsValid() {
		pos = fn.Pos()
	}
	q := p.Prog.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}
