package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The template generator: a path-sensitive exploration with terms for values, facts about errors
// and equalities, and requirements at every operation which creates or changes a file.

type gterm = string

type gframe struct {
	fn     *ssa.Function
	id     string
	b      *ssa.BasicBlock
	pc     int
	env    map[ssa.Value]gterm
	call   ssa.Instruction // in the caller
	cb     bool            // called by a library function
	visits map[*ssa.BasicBlock]int
	defers []ssa.Instruction
	dargs  []*gcall
}

type gcall struct {
	fn   *ssa.Function
	args []gterm
	ext  string
}

type gstate struct {
	frames []*gframe
	mem    map[gterm]gterm
	eq     map[string]bool // facts
	nils   map[gterm]bool
	bools  map[gterm]bool
	pend   map[gterm]string // unchecked failures
	failed string
	failT  string
	reads  map[gterm]bool
}

func (s *gstate) clone() *gstate {
	n := &gstate{mem: map[gterm]gterm{}, eq: map[string]bool{}, nils: map[gterm]bool{}, bools: map[gterm]bool{}, pend: map[gterm]string{},
		failed: s.failed, failT: s.failT, reads: map[gterm]bool{}}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.eq {
		n.eq[k] = v
	}
	for k, v := range s.nils {
		n.nils[k] = v
	}
	for k, v := range s.bools {
		n.bools[k] = v
	}
	for k, v := range s.pend {
		n.pend[k] = v
	}
	for k, v := range s.reads {
		n.reads[k] = v
	}
	for _, f := range s.frames {
		g := *f
		g.env = map[ssa.Value]gterm{}
		for k, v := range f.env {
			g.env[k] = v
		}
		g.visits = map[*ssa.BasicBlock]int{}
		for k, v := range f.visits {
			g.visits[k] = v
		}
		g.defers = append([]ssa.Instruction{}, f.defers...)
		g.dargs = append([]*gcall{}, f.dargs...)
		n.frames = append(n.frames, &g)
	}
	return n
}

func (s *gstate) key() string {
	var b strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&b, "%s %d %d [", f.id, f.b.Index, f.pc)
		var es []string
		for v, t := range f.env {
			es = append(es, v.Name()+"="+t)
		}
		sort.Strings(es)
		b.WriteString(strings.Join(es, " "))
		fmt.Fprintf(&b, "] %d\n", len(f.defers))
	}
	put := func(m map[string]bool) {
		for _, k := range sortedNames(m) {
			fmt.Fprintf(&b, "%s=%v ", k, m[k])
		}
		b.WriteString("|")
	}
	for _, k := range sortedNames(s.mem) {
		fmt.Fprintf(&b, "%s=%s ", k, s.mem[k])
	}
	b.WriteString("|")
	put(s.eq)
	put(s.nils)
	put(s.bools)
	put(s.reads)
	for _, k := range sortedNames(s.pend) {
		b.WriteString(k + " ")
	}
	b.WriteString("|" + s.failed)
	return b.String()
}

type generator struct {
	p       *Program
	args    map[gterm][]gterm // parts of a term
	op      map[gterm]string
	clo     map[gterm]*gcall
	seen    map[string]bool
	todo    []*gstate
	steps   int
	exits   int
	effects map[string]bool
	checked map[string]bool
	fns     map[*ssa.Function]bool
	add     func(cat string, fn *ssa.Function, ins ssa.Instruction, msg string)
	over    bool
	memo    map[[2]string]bool
	depth   map[gterm]int
	eng     *Engine
}

func (g *generator) mk(op string, args ...gterm) gterm {
	t := op
	if len(args) > 0 {
		t += "(" + strings.Join(args, ",") + ")"
	}
	d := 0
	for _, a := range args {
		d = max(d, g.depth[a]+1)
	}
	if len(t) > 300 {
		h := uint64(14695981039346656037)
		for i := 0; i < len(t); i++ {
			h = (h ^ uint64(t[i])) * 1099511628211
		}
		t = fmt.Sprintf("big:%s:%x", op[:min(len(op), 40)], h)
	}
	if d > 16 && op != "tuple" && op != "not" {
		t, d, args = "deep:"+op, 0, nil
	}
	g.depth[t] = d
	if _, ok := g.op[t]; !ok {
		g.op[t] = op
		g.args[t] = append([]gterm{}, args...)
	}
	return t
}

// within tells whether t is a part of u.
func (g *generator) within(t, u gterm) bool {
	if t == u {
		return true
	}
	k := [2]string{t, u}
	if r, ok := g.memo[k]; ok {
		return r
	}
	r := false
	for _, a := range g.args[u] {
		if g.within(t, a) {
			r = true
			break
		}
	}
	g.memo[k] = r
	return r
}

func eqKey(a, b gterm) string {
	if a > b {
		a, b = b, a
	}
	return a + " == " + b
}

type gstop struct{}

func (g *generator) report(s *gstate, cat, format string, a ...interface{}) {
	f := s.top()
	g.add(cat, f.fn, f.b.Instrs[min(f.pc, len(f.b.Instrs)-1)], fmt.Sprintf(format, a...))
	panic(gstop{})
}

func (s *gstate) top() *gframe { return s.frames[len(s.frames)-1] }

func constTerm(c *ssa.Const) gterm {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Basic); ok {
			return "const:zero"
		}
		return "nil"
	}
	return "const:" + c.Value.ExactString()
}

func (g *generator) val(s *gstate, f *gframe, v ssa.Value) gterm {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return "&glob:" + x.String()
	case *ssa.Function:
		t := "func:" + x.String()
		g.clo[t] = &gcall{fn: x}
		return t
	case *ssa.Builtin:
		return "builtin:" + x.Name()
	}
	t, ok := f.env[v]
	if !ok {
		return g.mk("undef:" + f.id + ":" + v.Name())
	}
	return t
}

func isErr(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

// site names a value computed by an instruction of a frame.
func (g *generator) site(f *gframe, ins ssa.Instruction) string {
	i := 0
	for k, x := range f.b.Instrs {
		if x == ins {
			i = k
		}
	}
	return fmt.Sprintf("@%s.%d.%d", f.id, f.b.Index, i)
}

// kill drops the facts about a value which is computed again.
func (g *generator) kill(s *gstate, t gterm) {
	for k := range s.eq {
		p := strings.SplitN(k, " == ", 2)
		if g.within(t, p[0]) || len(p) > 1 && g.within(t, p[1]) {
			delete(s.eq, k)
		}
	}
	for k := range s.nils {
		if g.within(t, k) {
			delete(s.nils, k)
		}
	}
	for k := range s.bools {
		if g.within(t, k) {
			delete(s.bools, k)
		}
	}
}

// load reads memory.
func (g *generator) load(s *gstate, a gterm) gterm {
	if v, ok := s.mem[a]; ok {
		return v
	}
	return g.mk("ld", a)
}

// whole describes an argument together with what it points to.
func (g *generator) whole(s *gstate, a gterm) gterm {
	var parts []gterm
	base := strings.TrimPrefix(a, "slice:")
	for _, k := range sortedNames(s.mem) {
		if k == base || strings.HasPrefix(k, base+".") || strings.HasPrefix(k, base+"[") {
			parts = append(parts, s.mem[k])
		}
	}
	if len(parts) == 0 {
		return a
	}
	return g.mk("in", append([]gterm{a}, parts...)...)
}

// known decides a condition if facts do.
func (g *generator) known(s *gstate, c gterm) (bool, bool) {
	if c == "const:true" {
		return true, true
	}
	if c == "const:false" || c == "const:zero" {
		return false, true
	}
	a := g.args[c]
	switch g.op[c] {
	case "not":
		v, ok := g.known(s, a[0])
		return !v, ok
	case "isnil":
		if a[0] == "nil" {
			return true, true
		}
		if strings.HasPrefix(a[0], "&") || strings.HasPrefix(a[0], "slice:") || strings.HasPrefix(a[0], "func:") || strings.HasPrefix(a[0], "clo@") {
			return false, true
		}
		v, ok := s.nils[a[0]]
		return v, ok
	case "eq":
		if strings.HasPrefix(a[0], "const:") && strings.HasPrefix(a[1], "const:") {
			return a[0] == a[1], true
		}
		if a[0] == a[1] && !strings.Contains(a[0], "@") && !strings.Contains(a[0], "w:") && !strings.Contains(a[0], "big:") && !strings.Contains(a[0], "deep:") {
			return true, true
		}
		v, ok := s.eq[eqKey(a[0], a[1])]
		return v, ok
	}
	v, ok := s.bools[c]
	return v, ok
}

// assume records the outcome of a condition; it returns false when the facts contradict it.
func (g *generator) assume(s *gstate, c gterm, v bool) bool {
	if k, ok := g.known(s, c); ok {
		return k == v
	}
	a := g.args[c]
	switch g.op[c] {
	case "not":
		return g.assume(s, a[0], !v)
	case "isnil":
		s.nils[a[0]] = v
		if d, ok := s.pend[a[0]]; ok {
			delete(s.pend, a[0])
			isOK := strings.HasPrefix(d, "no element")
			if v == isOK {
				g.fail(s, d, a[0])
			}
		}
		return true
	case "eq":
		s.eq[eqKey(a[0], a[1])] = v
		return true
	}
	s.bools[c] = v
	if g.op[c] == "strings.EqualFold" && !v {
		s.eq[eqKey(a[0], a[1])] = false
	}
	if d, ok := s.pend[c]; ok {
		delete(s.pend, c)
		if !v {
			g.fail(s, d, c)
		}
	}
	if v && s.failT != "" && len(a) > 0 && s.failT == "assert:"+a[0] && g.op[c] == "okassert" {
		s.failed, s.failT = "", ""
	}
	return true
}

func (g *generator) fail(s *gstate, d string, t gterm) {
	if s.failed == "" {
		s.failed = d
		s.failT = ""
		if g.op[t] == "okassert" {
			s.failT = "assert:" + g.args[t][0]
		}
	}
}

// clean requires that no failure is pending or ignored.
func (g *generator) clean(s *gstate, where string) {
	if s.failed != "" {
		g.report(s, "errors", "%s although %s", where, s.failed)
	}
	for _, k := range sortedNames(s.pend) {
		g.report(s, "errors", "%s without looking whether %s", where, s.pend[k])
	}
}

var createFns = map[string][]int{
	"os.Create": {0}, "os.WriteFile": {0}, "io/ioutil.WriteFile": {0}, "os.Mkdir": {0}, "os.MkdirAll": {0}, "os.Rename": {0, 1},
	"os.Remove": {0}, "os.RemoveAll": {0}, "os.Symlink": {1}, "os.Link": {1}, "os.Truncate": {0}, "os.Chmod": {0}, "os.OpenFile": {0},
	"os.Chtimes": {0}, "os.Chown": {0}, "os.Lchown": {0},
}

var readFns = map[string]bool{"os.Stat": true, "os.Lstat": true, "os.ReadDir": true, "io/ioutil.ReadDir": true, "os.Open": true, "os.ReadFile": true,
	"io/ioutil.ReadFile": true, "path/filepath.Walk": true, "path/filepath.WalkDir": true, "os.DirFS": true}

// source tells whether path p was made from the text of path t.
func (g *generator) source(t, p gterm) bool {
	var parses []gterm
	seen := map[gterm]bool{}
	var walk func(u gterm)
	walk = func(u gterm) {
		if seen[u] {
			return
		}
		seen[u] = true
		if o := g.op[u]; strings.Contains(o, "template") && strings.Contains(o, "Parse") {
			parses = append(parses, u)
		}
		for _, a := range g.args[u] {
			walk(a)
		}
	}
	walk(p)
	if len(parses) == 0 {
		return g.within(t, p)
	}
	for _, u := range parses {
		if g.within(t, u) {
			return true
		}
	}
	return false
}

func (g *generator) differ(s *gstate, p, t gterm) bool {
	if v, ok := s.eq[eqKey(p, t)]; ok && !v {
		return true
	}
	for k, v := range s.eq {
		if v {
			continue
		}
		q := strings.SplitN(k, " == ", 2)
		for i := 0; i < 2; i++ {
			x, y := q[i], q[1-i]
			if g.op[x] == "" || len(g.args[x]) == 0 {
				continue
			}
			pure := isPureOp(g.op[x])
			if pure && g.op[x] == g.op[y] && len(g.args[x]) == 1 && len(g.args[y]) == 1 && g.args[x][0] == p && g.args[y][0] == t {
				return true
			}
			if g.op[x] == "path/filepath.Clean" && g.args[x][0] == p && y == t && strings.HasPrefix(t, "path/filepath.Abs@") {
				return true
			}
		}
	}
	return false
}

func isPureOp(op string) bool {
	for _, p := range []string{"strings.", "path.", "path/filepath.", "strconv.", "bytes.", "unicode"} {
		if strings.HasPrefix(op, p) && !strings.Contains(op, "@") {
			return true
		}
	}
	return false
}

// ext models a call of a library function.
func (g *generator) ext(s *gstate, f *gframe, ins ssa.Instruction, c *ssa.CallCommon, name string, args []gterm, sig *types.Signature) {
	var wh []gterm
	for _, a := range args {
		wh = append(wh, g.whole(s, a))
	}
	short := name[strings.LastIndex(name, ".")+1:]
	isLog := strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger).")
	switch {
	case isLog && strings.HasPrefix(short, "Fatal"), isLog && strings.HasPrefix(short, "Panic"):
		g.exits++
		panic(gstop{})
	case name == "os.Exit":
		if args[0] == "const:0" {
			g.clean(s, "exits with success")
		}
		g.exits++
		panic(gstop{})
	case name == "runtime.Goexit":
		g.report(s, "undecided", "runtime.Goexit")
	}
	if strings.Contains(name, "template") && short == "Must" && len(args) == 2 {
		if !g.assume(s, g.mk("isnil", args[1]), true) {
			g.exits++
			panic(gstop{})
		}
	}
	if ix, ok := createFns[name]; ok {
		write := true
		if name == "os.OpenFile" {
			write = args[1] != "const:0"
		}
		if write {
			g.clean(s, "calls "+name)
			for _, i := range ix {
				p := args[i]
				g.effects[g.p.posOf(f.fn, ins)] = true
				n := 0
				for _, t := range sortedNames(s.reads) {
					if !g.source(t, p) {
						continue
					}
					n++
					if !g.differ(s, p, t) {
						g.report(s, "overwrite", "calls %s on a path which isn't known to differ from the path of the template", name)
					}
				}
				if n == 0 {
					g.report(s, "overwrite", "calls %s on a path which wasn't made from the path of a template that was read", name)
				}
			}
		}
	}
	if readFns[name] || strings.Contains(name, "template") && (strings.Contains(short, "ParseFiles") || strings.Contains(short, "ParseGlob")) {
		for i, a := range wh {
			if sig.Recv() != nil && i == 0 {
				continue
			}
			if g.op[a] == "in" {
				for _, q := range g.args[a][1:] {
					s.reads[q] = true
				}
			} else if b, ok := sig.Params().At(min(i, sig.Params().Len()-1)).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				s.reads[a] = true
			}
		}
	}
	op := name
	if !isPureOp(name) || sig.Recv() != nil || name == "path/filepath.Abs" || name == "path/filepath.Glob" || name == "path/filepath.EvalSymlinks" {
		op += g.site(f, ins)
	}
	if name == "path/filepath.Clean" && strings.HasPrefix(wh[0], "path/filepath.Abs@") {
		g.setRes(s, f, ins, wh[0])
		return
	}
	res := g.mk(op, wh...)
	if strings.Contains(op, "@") {
		g.kill(s, res)
	}
	// objects the function may have written to
	for _, a := range args {
		if strings.HasPrefix(a, "&") || strings.HasPrefix(a, "slice:") {
			base := strings.TrimPrefix(a, "slice:")
			if strings.HasPrefix(base, "&glob:") && !strings.HasPrefix(name, "(") && !strings.HasPrefix(name, "flag.") && len(s.mem) > 0 {
				continue
			}
			for k := range s.mem {
				if strings.HasPrefix(k, base+".") || strings.HasPrefix(k, base+"[") {
					delete(s.mem, k)
				}
			}
			s.mem[base] = res
		}
	}
	quiet := short == "Close" || isLog || strings.HasPrefix(short, "Print") || strings.HasPrefix(short, "Fprint") || strings.HasPrefix(name, "(*bytes.Buffer)") || strings.HasPrefix(name, "(*strings.Builder)")
	made := name == "fmt.Errorf" || name == "errors.New"
	n := sig.Results().Len()
	if n == 1 {
		if isErr(sig.Results().At(0).Type()) {
			if made {
				s.nils[res] = false
			} else if !quiet {
				s.pend[res] = name + " failed"
				g.checked[g.p.posOf(f.fn, ins)] = true
			}
		}
	}
	for i := 0; i < n && n > 1; i++ {
		if isErr(sig.Results().At(i).Type()) && !quiet {
			s.pend[g.mk(fmt.Sprintf("res%d", i), res)] = name + " failed"
			g.checked[g.p.posOf(f.fn, ins)] = true
		}
	}
	g.setRes(s, f, ins, res)
}

func (g *generator) setRes(s *gstate, f *gframe, ins ssa.Instruction, res gterm) {
	if v, ok := ins.(ssa.Value); ok {
		f.env[v] = res
	}
	f.pc++
}

// invoke handles a call; deferred calls come here when they run.
func (g *generator) invoke(s *gstate, f *gframe, ins ssa.Instruction, c *ssa.CallCommon, pre *gcall) {
	var args []gterm
	var fn *ssa.Function
	name := ""
	sig := c.Signature()
	if pre != nil {
		args, fn, name = pre.args, pre.fn, pre.ext
	} else {
		args, fn, name = g.target(s, f, c)
	}
	if strings.HasPrefix(name, "builtin:") {
		g.builtin(s, f, ins, name[8:], args, c)
		return
	}
	if fn != nil && g.p.InRepo(fn) && len(fn.Blocks) > 0 {
		for _, fr := range s.frames {
			if fr.fn == fn {
				// a recursive call: its own effects are those of the call which is explored
				g.clean(s, "calls "+fn.Name()+" again")
				res := g.mk("rec:" + fn.Name() + g.site(f, ins))
				g.kill(s, res)
				n := fn.Signature.Results().Len()
				for i := 0; i < n; i++ {
					t := res
					if n > 1 {
						t = g.mk(fmt.Sprintf("res%d", i), res)
					}
					if isErr(fn.Signature.Results().At(i).Type()) {
						s.pend[t] = fn.Name() + " failed"
					}
				}
				g.setRes(s, f, ins, res)
				return
			}
		}
		g.push(s, fn, args, ins, false)
		return
	}
	// closures a library function may call
	for _, a := range args {
		if cl := g.clo[a]; cl != nil && g.p.InRepo(cl.fn) && len(cl.fn.Blocks) > 0 {
			n := s.clone()
			nf := n.top()
			var as []gterm
			for i := 0; i < cl.fn.Signature.Params().Len(); i++ {
				t := g.mk(fmt.Sprintf("cb%d%s", i, g.site(nf, ins)))
				g.kill(n, t)
				if isErr(cl.fn.Signature.Params().At(i).Type()) {
					n.pend[t] = name + " failed"
				}
				as = append(as, t)
			}
			g.push(n, cl.fn, append(as, cl.args...), ins, true)
			g.todo = append(g.todo, n)
		}
	}
	if name == "" {
		name = "unknown"
	}
	g.ext(s, f, ins, c, name, args, sig)
}

func (g *generator) target(s *gstate, f *gframe, c *ssa.CallCommon) (args []gterm, fn *ssa.Function, name string) {
	if c.IsInvoke() {
		args = append(args, g.val(s, f, c.Value))
		name = "(" + typeName(c.Value.Type()) + ")." + c.Method.Name()
	}
	for _, a := range c.Args {
		args = append(args, g.val(s, f, a))
	}
	if c.IsInvoke() {
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return args, nil, "builtin:" + b.Name()
	}
	fn = c.StaticCallee()
	if _, ok := c.Value.(*ssa.Function); !ok || fn == nil {
		if cl := g.clo[g.val(s, f, c.Value)]; cl != nil {
			fn = cl.fn
			args = append(args, cl.args...)
		}
	}
	if fn != nil {
		name = fn.String()
	}
	return
}

func (g *generator) push(s *gstate, fn *ssa.Function, args []gterm, ins ssa.Instruction, cb bool) {
	f := s.top()
	nf := &gframe{fn: fn, id: f.id + g.site(f, ins)[1:] + "/", b: fn.Blocks[0], env: map[ssa.Value]gterm{}, call: ins, cb: cb, visits: map[*ssa.BasicBlock]int{}}
	nf.id = fmt.Sprintf("%s%s.%s/", f.id, g.site(f, ins)[len(f.id)+1:], fn.Name())
	for i, p := range fn.Params {
		if i < len(args) {
			nf.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if k := len(fn.Params) + i; k < len(args) {
			nf.env[p] = args[k]
		}
	}
	g.fns[fn] = true
	s.frames = append(s.frames, nf)
}

func (g *generator) builtin(s *gstate, f *gframe, ins ssa.Instruction, name string, args []gterm, c *ssa.CallCommon) {
	switch name {
	case "append", "copy":
		var wh []gterm
		for _, a := range args {
			wh = append(wh, g.whole(s, a))
		}
		g.setRes(s, f, ins, g.mk(name, wh...))
	case "panic":
		g.exits++
		panic(gstop{})
	case "recover":
		g.report(s, "undecided", "recover")
	default:
		g.setRes(s, f, ins, g.mk(name, args...))
	}
}

func (g *generator) ret(s *gstate, res []gterm) {
	f := s.top()
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		s.frames = append(s.frames, f)
		g.clean(s, "ends normally")
		g.exits++
		panic(gstop{})
	}
	c := s.top()
	if f.cb {
		call := f.call.(ssa.CallInstruction)
		args, fn, name := g.target(s, c, call.Common())
		_ = fn
		bad := false
		for i, r := range res {
			if isErr(f.fn.Signature.Results().At(i).Type()) {
				if v, ok := s.nils[r]; ok && !v {
					bad = true
				}
			}
		}
		g.ext(s, c, f.call, call.Common(), name, args, call.Common().Signature())
		if bad {
			for t := range s.pend {
				if strings.Contains(t, g.site(c, f.call)) {
					s.nils[t] = false
					delete(s.pend, t)
				}
			}
		}
		return
	}
	if _, ok := f.call.(*ssa.RunDefers); ok {
		return
	}
	if v, ok := f.call.(ssa.Value); ok {
		switch len(res) {
		case 0:
		case 1:
			c.env[v] = res[0]
		default:
			c.env[v] = g.mk("tuple", res...)
		}
	}
	c.pc++
}

func (g *generator) enter(s *gstate, f *gframe, to *ssa.BasicBlock) {
	pi := -1
	for k, p := range to.Preds {
		if p == f.b {
			pi = k
		}
	}
	f.visits[to]++
	wide := f.visits[to] > 2
	vals := map[ssa.Value]gterm{}
	pc := 0
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		pc++
		if wide && len(to.Preds) > 1 {
			t := g.val(s, f, phi.Edges[pi])
			if _, isConst := phi.Edges[pi].(*ssa.Const); !isConst {
				t = g.mk("w:" + f.id + phi.Name())
				g.kill(s, t)
			}
			vals[phi] = t
		} else {
			vals[phi] = g.val(s, f, phi.Edges[pi])
		}
	}
	for k, v := range vals {
		f.env[k] = v
	}
	f.b, f.pc = to, pc
	if f.visits[to] > 3 {
		f.visits[to] = 3
	}
	if len(to.Preds) > 1 {
		g.tidy(s)
		k := s.key()
		if g.seen[k] {
			panic(gstop{})
		}
		g.seen[k] = true
	}
}

// tidy drops values no later instruction needs and the facts about them.
func (g *generator) tidy(s *gstate) {
	live := map[gterm]bool{}
	var mark func(t gterm)
	mark = func(t gterm) {
		if live[t] {
			return
		}
		live[t] = true
		for _, a := range g.args[t] {
			mark(a)
		}
	}
	var roots []string
	for i, f := range s.frames {
		in := g.eng.info(f.fn)
		var keep map[int]bool
		if i == len(s.frames)-1 {
			keep = in.liveIn[f.b]
		} else {
			keep = in.after[f.b.Instrs[f.pc]]
		}
		for v, t := range f.env {
			n, ok := in.num[v]
			phi, isPhi := v.(*ssa.Phi)
			if ok && !keep[n] && !(isPhi && phi.Block() == f.b && i == len(s.frames)-1) && v != ssa.Value(nil) {
				if i < len(s.frames)-1 && v.(ssa.Value) != nil {
					if ins, ok := v.(ssa.Instruction); ok && ins == f.b.Instrs[f.pc] {
						continue
					}
				}
				delete(f.env, v)
				continue
			}
			mark(t)
			roots = append(roots, t)
		}
		for _, d := range f.dargs {
			for _, t := range d.args {
				mark(t)
				roots = append(roots, t)
			}
		}
	}
	for t := range s.pend {
		mark(t)
	}
	for t := range s.reads {
		mark(t)
	}
	// memory which can't be reached any more
	held := map[string]bool{}
	for again := true; again; {
		again = false
		for k, v := range s.mem {
			if held[k] {
				continue
			}
			base := k
			if strings.HasPrefix(k, "&@") || strings.HasPrefix(k, "&new@") {
				if i := strings.IndexAny(k[1:], "(["); i >= 0 {
					base = k[:i+1]
				}
			}
			ok := strings.HasPrefix(k, "&glob")
			for _, r := range roots {
				if ok {
					break
				}
				ok = strings.Contains(r, base) || strings.HasPrefix(r, "big:") && g.mentions(r, base)
			}
			if ok {
				held[k] = true
				again = true
				mark(v)
				roots = append(roots, v)
			}
		}
	}
	for k := range s.mem {
		if !held[k] {
			delete(s.mem, k)
		}
	}
	alive := func(t gterm) bool { return live[t] || strings.HasPrefix(t, "const:") }
	for k := range s.eq {
		q := strings.SplitN(k, " == ", 2)
		if !alive(q[0]) || !alive(q[1]) {
			delete(s.eq, k)
		}
	}
	for k := range s.nils {
		if !alive(k) {
			delete(s.nils, k)
		}
	}
	for k := range s.bools {
		if !live[k] {
			delete(s.bools, k)
		}
	}
}

// mentions tells whether a term has a part whose name contains s.
func (g *generator) mentions(t gterm, s string) bool {
	if strings.Contains(t, s) {
		return true
	}
	for _, a := range g.args[t] {
		if g.mentions(a, s) {
			return true
		}
	}
	return false
}

func (g *generator) step(s *gstate) {
	f := s.top()
	ins := f.b.Instrs[f.pc]
	g.steps++
	if g.steps > 3000000 || len(g.seen) > 60000 {
		g.over = true
		g.report(s, "undecided", "too many paths")
	}
	v := func(x ssa.Value) gterm { return g.val(s, f, x) }
	set := func(t gterm) {
		f.env[ins.(ssa.Value)] = t
		f.pc++
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := "&" + g.site(f, ins)
		g.op[t] = t
		for k := range s.mem {
			if k == t || strings.HasPrefix(k, t+".") || strings.HasPrefix(k, t+"[") {
				delete(s.mem, k)
			}
		}
		s.mem[t] = "zero"
		if _, ok := deref(x.Type()).Underlying().(*types.Interface); ok {
			s.mem[t] = "nil"
		}
		set(t)
	case *ssa.FieldAddr:
		set(v(x.X) + fmt.Sprintf(".%d", x.Field))
	case *ssa.IndexAddr:
		set(v(x.X) + "[" + v(x.Index) + "]")
	case *ssa.Field:
		set(g.mk(fmt.Sprintf("field%d", x.Field), v(x.X)))
	case *ssa.Index:
		set(g.mk("index", v(x.X), v(x.Index)))
	case *ssa.Store:
		s.mem[v(x.Addr)] = v(x.Val)
		f.pc++
	case *ssa.MapUpdate:
		f.pc++
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := v(x.X)
			if _, ok := s.mem[a]; !ok && strings.Contains(a, "[") {
				base := a[:strings.LastIndex(a, "[")]
				set(g.mk("elem", g.whole(s, base), a))
				return
			}
			set(g.load(s, a))
		case token.NOT:
			set(g.mk("not", v(x.X)))
		default:
			set(g.mk("op"+x.Op.String(), v(x.X)))
		}
	case *ssa.BinOp:
		a, b := v(x.X), v(x.Y)
		var t gterm
		switch x.Op {
		case token.EQL, token.NEQ:
			switch {
			case b == "nil":
				t = g.mk("isnil", a)
			case a == "nil":
				t = g.mk("isnil", b)
			case g.op[a] == "strings.Compare" && b == "const:0":
				t = g.mk("eq", g.args[a][0], g.args[a][1])
			default:
				t = g.mk("eq", a, b)
			}
			if x.Op == token.NEQ {
				t = g.mk("not", t)
			}
		default:
			t = g.mk("op"+x.Op.String(), a, b)
			if c1, ok := x.X.(*ssa.Const); ok {
				if c2, ok := x.Y.(*ssa.Const); ok && c1.Value != nil && c2.Value != nil && x.Op == token.LSS {
					t = "const:" + fmt.Sprint(constant.Compare(c1.Value, x.Op, c2.Value))
				}
			}
		}
		set(t)
	case *ssa.MakeInterface:
		set(v(x.X))
	case *ssa.ChangeInterface:
		set(v(x.X))
	case *ssa.ChangeType:
		set(v(x.X))
	case *ssa.Convert:
		set(g.mk("conv:"+typeName(x.Type()), v(x.X)))
	case *ssa.Slice:
		a := v(x.X)
		if strings.HasPrefix(a, "&") {
			set("slice:" + a)
			return
		}
		as := []gterm{a}
		for _, o := range []ssa.Value{x.Low, x.High, x.Max} {
			if o != nil {
				as = append(as, v(o))
			} else {
				as = append(as, "_")
			}
		}
		set(g.mk("slice", as...))
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		t := g.mk("&new" + g.site(f, ins))
		set(t)
	case *ssa.MakeClosure:
		t := g.mk("clo" + g.site(f, ins))
		var bs []gterm
		for _, b := range x.Bindings {
			bs = append(bs, v(b))
		}
		g.clo[t] = &gcall{fn: x.Fn.(*ssa.Function), args: bs}
		set(t)
	case *ssa.TypeAssert:
		t := g.mk("assert:"+typeName(x.AssertedType), v(x.X))
		_, isMap := x.AssertedType.Underlying().(*types.Map)
		if !x.CommaOk {
			set(t)
			return
		}
		ok := g.mk("okassert", v(x.X), "type:"+typeName(x.AssertedType))
		if isMap {
			if _, k := g.known(s, ok); !k {
				s.pend[ok] = "an element on the path isn't a map"
				g.checked[g.p.posOf(f.fn, ins)] = true
			}
		}
		set(g.mk("tuple", t, ok))
	case *ssa.Lookup:
		m, isMap := x.X.Type().Underlying().(*types.Map)
		if !isMap {
			set(g.mk("index", v(x.X), v(x.Index)))
			return
		}
		_, data := m.Elem().Underlying().(*types.Interface)
		t := g.mk("lookup", v(x.X), v(x.Index))
		if !x.CommaOk {
			if data {
				s.pend[t] = "no element"
				g.checked[g.p.posOf(f.fn, ins)] = true
			}
			set(t)
			return
		}
		ok := g.mk("has", v(x.X), v(x.Index))
		if data {
			if _, k := g.known(s, ok); !k {
				s.pend[ok] = "there is no such element"
				g.checked[g.p.posOf(f.fn, ins)] = true
			}
		}
		set(g.mk("tuple", t, ok))
	case *ssa.Extract:
		a := v(x.Tuple)
		if g.op[a] == "tuple" {
			set(g.args[a][x.Index])
			return
		}
		set(g.mk(fmt.Sprintf("res%d", x.Index), a))
	case *ssa.Range:
		set(g.mk("range", v(x.X)))
	case *ssa.Next:
		t := g.mk("next"+g.site(f, ins), v(x.Iter))
		g.kill(s, t)
		set(t)
	case *ssa.Phi:
		f.pc++
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Call:
		g.invoke(s, f, ins, &x.Call, nil)
	case *ssa.Go:
		g.invoke(s, f, ins, &x.Call, nil)
	case *ssa.Defer:
		args, fn, name := g.target(s, f, &x.Call)
		f.defers = append(f.defers, ins)
		f.dargs = append(f.dargs, &gcall{fn: fn, args: args, ext: name})
		f.pc++
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d, a := f.defers[n-1].(*ssa.Defer), f.dargs[n-1]
			f.defers, f.dargs = f.defers[:n-1], f.dargs[:n-1]
			g.invoke(s, f, ins, &d.Call, a)
			if s.top() == f {
				f.pc-- // a library function
			}
			return
		}
		f.pc++
	case *ssa.Return:
		var rs []gterm
		for _, r := range x.Results {
			rs = append(rs, v(r))
		}
		g.ret(s, rs)
	case *ssa.Jump:
		g.enter(s, f, f.b.Succs[0])
	case *ssa.If:
		c := v(x.Cond)
		if k, ok := g.known(s, c); ok {
			if k {
				g.enter(s, f, f.b.Succs[0])
			} else {
				g.enter(s, f, f.b.Succs[1])
			}
			return
		}
		n := s.clone()
		if g.assume(n, c, false) {
			g.branch(n, 1)
		}
		if !g.assume(s, c, true) {
			panic(gstop{})
		}
		g.enter(s, f, f.b.Succs[0])
	case *ssa.Panic:
		g.exits++
		panic(gstop{})
	default:
		if val, ok := ins.(ssa.Value); ok {
			t := g.mk("other" + g.site(f, ins))
			g.kill(s, t)
			f.env[val] = t
		}
		f.pc++
	}
}

func (g *generator) branch(s *gstate, i int) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(gstop); !ok {
				panic(r)
			}
		}
	}()
	f := s.top()
	g.enter(s, f, f.b.Succs[i])
	g.todo = append(g.todo, s)
}

func (g *generator) explore(main *ssa.Function) {
	s := &gstate{mem: map[gterm]gterm{}, eq: map[string]bool{}, nils: map[gterm]bool{}, bools: map[gterm]bool{}, pend: map[gterm]string{}, reads: map[gterm]bool{}}
	f := &gframe{fn: main, id: "m/", b: main.Blocks[0], env: map[ssa.Value]gterm{}, visits: map[*ssa.BasicBlock]int{}}
	for i, p := range main.Params {
		f.env[p] = g.mk(fmt.Sprintf("arg%d:%s", i, p.Name()))
	}
	g.fns[main] = true
	s.frames = []*gframe{f}
	g.todo = append(g.todo, s)
	for len(g.todo) > 0 && !g.over {
		s := g.todo[len(g.todo)-1]
		g.todo = g.todo[:len(g.todo)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(gstop); !ok {
						panic(r)
					}
				}
			}()
			for {
				g.step(s)
			}
		}()
	}
}

func generatorObligations(p *Program) (obs []*Obligation, errs []anchorErr) {
	n := 0
	for _, pkg := range p.Pkgs {
		if pkg.Pkg.Name() != "main" {
			continue
		}
		m := pkg.Func("main")
		if m == nil {
			continue
		}
		n++
		ob := &Obligation{Name: p.rel(pkg) + " generator", fn: m, Props: map[string][]string{"overwrite": {"C28"}, "errors": {"C28"}},
			rule: "on every path from main, a file or directory is created only at a path known to differ from the template path it was made from, and no failure (error, missing element, failed assertion) reaches a file operation or the normal end"}
		ob.custom = func(r *Result) {
			g := &generator{p: p, args: map[gterm][]gterm{}, op: map[gterm]string{}, clo: map[gterm]*gcall{}, seen: map[string]bool{}, memo: map[[2]string]bool{}, depth: map[gterm]int{}, eng: &Engine{prog: p, infos: map[*ssa.Function]*FnInfo{}},
				effects: map[string]bool{}, checked: map[string]bool{}, fns: map[*ssa.Function]bool{}}
			seen := map[string]bool{}
			g.add = func(cat string, fn *ssa.Function, ins ssa.Instruction, msg string) {
				fd := &Finding{Ob: ob.Name, Cat: cat, Fn: fn.String(), Pos: p.posOf(fn, ins), Msg: msg}
				if !seen[fd.Pos+msg] {
					seen[fd.Pos+msg] = true
					r.Finds = append(r.Finds, fd)
				}
			}
			g.explore(m)
			for f := range g.fns {
				r.Fns = append(r.Fns, f.String())
			}
			sort.Strings(r.Fns)
			r.Steps, r.Exits, r.States, r.Heads = g.steps, g.exits, len(g.seen), len(g.effects)
			if len(r.Finds) == 0 && (len(g.effects) == 0 || len(g.checked) == 0) {
				r.Finds = append(r.Finds, &Finding{Ob: ob.Name, Cat: "undecided", Fn: m.String(), Pos: p.posOf(m, m.Blocks[0].Instrs[0]), Msg: "no file operation is reached"})
			}
			r.Note = fmt.Sprintf("%d file operations, %d failure checks", len(g.effects), len(g.checked))
		}
		obs = append(obs, ob)
	}
	if n == 0 {
		errs = append(errs, anchorErr{"no main package found", []string{"C28"}})
	}
	return
}
