package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var dbgN, dbgSteps = 2000, 0

// anchorErr tells about a construct an analysis needs and doesn't find.
type anchorErr struct {
	msg   string
	props []string
}

// allObligations builds every obligation for the program.
func allObligations(p *Program) (obs []*Obligation, errs []anchorErr) {
	for _, f := range modules {
		func() {
			defer func() {
				if r := recover(); r != nil {
					errs = append(errs, anchorErr{fmt.Sprintf("internal error while building obligations: %v", r), nil})
				}
			}()
			o, e := f(p)
			obs = append(obs, o...)
			errs = append(errs, e...)
		}()
	}
	return
}

var modules = []func(p *Program) ([]*Obligation, []anchorErr){rbObligations, radixObligations, ipObligations, domObligations, dnObligations, effectObligations, typestateObligations, drainObligations, generatorObligations}

type known struct {
	Fixed    []string       `json:"fixed"`
	Findings []knownFinding `json:"findings"`
}

type knownFinding struct {
	Property   string `json:"property"`
	Obligation string `json:"obligation"`
	Function   string `json:"function"`
	Message    string `json:"message"`
	What       string `json:"what"`
}

func hasProp(ps []string, p string) bool {
	for _, x := range ps {
		if x == p {
			return true
		}
	}
	return false
}

// refutes tells whether a finding speaks against a property.
func (o *Obligation) refutes(f *Finding, prop string) bool {
	if ps, ok := o.Props[f.Cat]; ok {
		return hasProp(ps, prop)
	}
	return hasProp(o.props(), prop)
}

type violation struct {
	ob    *Obligation
	f     *Finding
	same  []string
	known string
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where evidence goes")
	prop := flag.String("prop", "", "property to decide")
	only := flag.String("only", "", "run obligations whose name has this (for development)")
	dbg := flag.Bool("debug", false, "")
	list := flag.Bool("list", false, "list obligations")
	tier := flag.String("tier", "", "")
	flag.IntVar(&dbgN, "n", 2000, "")
	flag.IntVar(&dbgSteps, "steps", 0, "")
	prof := flag.String("cpuprofile", "", "")
	flag.Parse()
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(20 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	thorough = *tier == "thorough"
	t0 := time.Now()
	if *prop != "" && os.Getenv("ABSINT_CHILD") == "" {
		os.Exit(guarded(*prop, *repo, *verif, *tier, t0))
	}
	p, err := LoadProgram(*repo)
	deciding = *prop
	if *prop != "" {
		go watchMemory()
		os.Exit(decide(p, err, *prop, *repo, *verif, *tier, t0))
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	obs, errs := allObligations(p)
	for _, e := range errs {
		fmt.Println("ANCHOR", e.msg, e.props)
	}
	var sel []*Obligation
	for _, ob := range obs {
		if strings.Contains(ob.Name, *only) {
			sel = append(sel, ob)
		}
	}
	if *list {
		for _, ob := range sel {
			fmt.Println(ob.Name, ob.props(), ob.Class)
		}
		return
	}
	fmt.Println(len(obs), "obligations; loaded in", time.Since(t0))
	res, _ := runAll(p, *repo, sel, *dbg)
	for _, ob := range sel {
		r := res[ob]
		if r.Ob != ob {
			continue
		}
		fmt.Printf("%-50s %s maxobj %d states %d steps %d heads %d entries %d exits %d %v\n", r.Ob.Name, r.Note, r.MaxObjs, r.States, r.Steps, r.Heads, r.Entries, r.Exits, r.Took.Round(time.Millisecond))
		for i, f := range r.Finds {
			if i > 2 {
				break
			}
			fmt.Printf("   %s %s %s: %s\n", f.Cat, f.Fn, f.Pos, f.Msg)
		}
	}
	fmt.Println(time.Since(t0))
}

// runAll discharges obligations, one of each class.
func runAll(p *Program, repo string, obs []*Obligation, dbg bool) (map[*Obligation]*Result, int) {
	reps := map[string]*Obligation{}
	var todo []*Obligation
	rep := map[*Obligation]*Obligation{}
	for _, ob := range obs {
		if ob.Class == "" {
			todo = append(todo, ob)
			rep[ob] = ob
			continue
		}
		if reps[ob.Class] == nil {
			reps[ob.Class] = ob
			todo = append(todo, ob)
		}
		rep[ob] = reps[ob.Class]
	}
	n := runtime.NumCPU()
	if dbg {
		n = 1
	}
	order := append([]*Obligation{}, todo...)
	sort.SliceStable(order, func(i, j int) bool { return order[i].Cost > order[j].Cost })
	out := make(map[*Obligation]*Result)
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan *Obligation)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ob := range ch {
				t := time.Now()
				r := p.Run(repo, ob, dbg)
				r.Took = time.Since(t)
				mu.Lock()
				out[ob] = r
				mu.Unlock()
			}
		}()
	}
	for _, ob := range order {
		ch <- ob
	}
	close(ch)
	wg.Wait()
	for _, ob := range obs {
		out[ob] = out[rep[ob]]
	}
	return out, len(todo)
}

// guarded decides in a process of its own, since a check which ends without an answer hasn't shown anything.
func guarded(prop, repo, verif, tier string, t0 time.Time) int {
	ctx, cancel := context.WithTimeout(context.Background(), 850*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, os.Args[0], os.Args[1:]...)
	c.Env = append(os.Environ(), "ABSINT_CHILD=1")
	var out, errs bytes.Buffer
	c.Stdout, c.Stderr = &out, &errs
	err := c.Run()
	if code := c.ProcessState.ExitCode(); err == nil || code == 1 && strings.Contains(out.String(), "VIOLATION") {
		os.Stdout.Write(out.Bytes())
		os.Stderr.Write(errs.Bytes())
		return code
	}
	why, _, _ := strings.Cut(errs.String(), "\n")
	return decide(nil, fmt.Errorf("the analysis ended without an answer: %v %s", err, why), prop, repo, verif, tier, t0)
}

// lowMemory tells that the analysis must stop.
var lowMemory atomic.Bool

func watchMemory() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		metrics.Read(s)
		if s[0].Value.Uint64() > 19<<30 {
			lowMemory.Store(true)
		}
		time.Sleep(300 * time.Millisecond)
	}
}

func decide(p *Program, lerr error, prop, repo, verif, tier string, t0 time.Time) int {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	replay := filepath.Join(verif, "evidence", "replay-"+prop+".txt")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.Remove(replay)
	var vs []*violation
	add := func(msg string) {
		vs = append(vs, &violation{ob: &Obligation{Name: "load"}, f: &Finding{Ob: "load", Cat: "undecided", Fn: "-", Pos: "-", Msg: msg}})
	}
	var kn known
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &kn); err != nil {
			add("known-findings.json: " + err.Error())
		}
	}
	var sel []*Obligation
	var res map[*Obligation]*Result
	ran := 0
	if lerr != nil {
		add(lerr.Error())
	} else {
		obs, errs := allObligations(p)
		for _, e := range errs {
			if e.props == nil || hasProp(e.props, prop) {
				add(e.msg)
			}
		}
		for _, ob := range obs {
			if hasProp(ob.props(), prop) {
				sel = append(sel, ob)
			}
		}
		if len(sel) == 0 {
			add("no obligation for this property")
		}
		res, ran = runAll(p, repo, sel, false)
	}
	disch, states, steps, exits, heads := 0, 0, 0, 0, 0
	fns := map[string]bool{}
	seenRep := map[*Result]bool{}
	vio := map[string]*violation{}
	var samples []string
	rules := map[string]int{}
	for _, ob := range sel {
		r := res[ob]
		bad := false
		for _, f := range r.Finds {
			if !ob.refutes(f, prop) && !r.Ob.refutes(f, prop) {
				continue
			}
			bad = true
			k := f.key()
			v := vio[k]
			if v == nil {
				v = &violation{ob: ob, f: f}
				for _, q := range kn.Findings {
					if q.Property == prop && q.Obligation == f.Ob && q.Function == f.Fn && q.Message == f.Msg {
						v.known = q.What
					}
				}
				vio[k] = v
				vs = append(vs, v)
			} else {
				v.same = append(v.same, ob.Name)
			}
		}
		if !bad {
			disch++
		}
		rules[ob.rule]++
		for _, f := range r.Fns {
			fns[f] = true
		}
		if ob != r.Ob {
			for _, f := range p.closure(ob.fn) {
				fns[f.String()] = true
			}
		}
		if !seenRep[r] {
			seenRep[r] = true
			states += r.States
			steps += r.Steps
			exits += r.Exits
			heads += r.Heads
			if len(samples) < 12 {
				samples = append(samples, fmt.Sprintf("%s: %s: %d abstract states at loop heads, %d paths to an exit, %s", ob.Name, ob.rule, r.Heads, r.Exits, map[bool]string{true: "REFUTED", false: "discharged"}[bad]))
			}
		}
	}
	var fnl []string
	for f := range fns {
		fnl = append(fnl, f)
	}
	sort.Strings(fnl)
	nv := 0
	var rep strings.Builder
	for _, v := range vs {
		if v.known != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, v.known)
			continue
		}
		nv++
		fmt.Fprintf(&rep, "%s: %s\n  function %s at %s\n  obligation %s\n", v.f.Cat, v.f.Msg, v.f.Fn, v.f.Pos, v.f.Ob)
		if len(v.same) > 0 {
			fmt.Fprintf(&rep, "  the same code: %s\n", strings.Join(v.same, ", "))
		}
		if len(v.f.Trace) > 0 {
			fmt.Fprintf(&rep, "  path:\n    %s\n", strings.Join(v.f.Trace, "\n    "))
		}
		rep.WriteString("\n")
	}
	cov := map[string]interface{}{
		"obligations": len(sel), "discharged": disch,
		"checker_cmd":  "/verif/check.sh " + prop,
		"trusted_base": trustedBase,
		"explanation": fmt.Sprintf("%d obligations, %d of them over distinct code; %d functions analysed; %d abstract states expanded, %d instructions interpreted, %d loop-head states kept, %d paths reached an exit and were judged",
			len(sel), ran, len(fnl), states, steps, heads, exits),
		"rules": sortedNames(rules), "functions": fnl, "samples": samples,
	}
	if p != nil {
		cov["program"] = fmt.Sprintf("%d packages, %d files, %d functions of %s", len(p.Pkgs), p.Files, p.Funcs, p.Mod)
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": nv}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
	fmt.Printf("%s: %d obligations (%d over distinct code), %d discharged; %d functions, %d states, %d judged exits; %.1f s\n", prop, len(sel), ran, disch, len(fnl), states, exits, time.Since(t0).Seconds())
	if nv == 0 {
		return 0
	}
	os.WriteFile(replay, []byte(rep.String()), 0o644)
	s := rep.String()
	if len(s) > 4000 {
		s = s[:4000] + "...\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	return 1
}

var trustedBase = []string{"go/types and golang.org/x/tools/go/ssa", "the abstract interpreter in /verif/absint", "its models of the standard library functions the code calls"}

var assumptions = []string{
	"trees handed to the operations were built by the library's operations (they satisfy the invariants which the same checks prove to be preserved)",
	"the functions of the standard library behave as documented",
	"a tree isn't changed in place while another operation runs on it",
}
