package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// closure lists the repository functions which may run when fn does.
func (p *Program) closure(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !p.InRepo(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch x := (*op).(type) {
					case *ssa.Function:
						visit(x)
					case *ssa.MakeClosure:
						visit(x.Fn.(*ssa.Function))
					}
				}
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, g := range p.AllFuncs {
						if g.Signature.Recv() != nil && g.Name() == c.Common().Method.Name() {
							visit(g)
						}
					}
				}
			}
		}
	}
	visit(fn)
	return out
}

var locRE = regexp.MustCompile(`(?m)^# (Location|Name|Package|Synthetic).*\n`)

// isoKey identifies the code which runs when fn does, up to the names of its package and of the given type.
// Equal keys mean equal code, so that a verdict for one holds for the other.
func (p *Program) isoKey(fn *ssa.Function, ren map[string]string, extra ...string) string {
	parts := append([]string{""}, extra...)
	globs := map[*ssa.Global]bool{}
	for _, f := range p.closure(fn) {
		var b bytes.Buffer
		ssa.WriteFunction(&b, f)
		parts = append(parts, locRE.ReplaceAllString(b.String(), ""))
		for _, bl := range f.Blocks {
			for _, i := range bl.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						globs[g] = true
					}
				}
			}
		}
	}
	for g := range globs {
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), p.Mod) {
			if init := g.Pkg.Func("init"); init != nil {
				// constants the code may read
				var b bytes.Buffer
				ssa.WriteFunction(&b, init)
				parts = append(parts, locRE.ReplaceAllString(b.String(), ""))
			}
		}
	}
	sort.Strings(parts[1:])
	s := strings.Join(parts, "\n")
	var ks []string
	for k := range ren {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return len(ks[i]) > len(ks[j]) })
	for _, k := range ks {
		s = regexp.MustCompile(`\b`+regexp.QuoteMeta(k)+`\b`).ReplaceAllString(s, ren[k])
	}
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:])
}
