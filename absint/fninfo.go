package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// FnInfo holds per-function facts used by the interpreter.
type FnInfo struct {
	fn      *ssa.Function
	num     map[ssa.Value]int
	vals    []ssa.Value
	header  map[*ssa.BasicBlock]bool
	count   map[*ssa.BasicBlock]*counting
	liveIn  map[*ssa.BasicBlock]map[int]bool // after the phis of the block
	liveOut map[*ssa.BasicBlock]map[int]bool
	after   map[ssa.Instruction]map[int]bool
	thr     []int64 // integer constants of the function: widening thresholds
}

func (e *Engine) info(fn *ssa.Function) *FnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	in := &FnInfo{fn: fn, num: map[ssa.Value]int{}, header: map[*ssa.BasicBlock]bool{}, count: map[*ssa.BasicBlock]*counting{},
		liveIn: map[*ssa.BasicBlock]map[int]bool{}, liveOut: map[*ssa.BasicBlock]map[int]bool{},
		after: map[ssa.Instruction]map[int]bool{}}
	e.infos[fn] = in
	add := func(v ssa.Value) {
		if _, ok := in.num[v]; !ok {
			in.num[v] = len(in.vals)
			in.vals = append(in.vals, v)
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	seen := map[int64]bool{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
			for _, op := range ins.Operands(nil) {
				if c, ok := (*op).(*ssa.Const); ok && c.Value != nil {
					if k, ok := constInt(c); ok && !seen[k] && k > -100000 && k < 100000 {
						seen[k] = true
						in.thr = append(in.thr, k, -k, k-1, 1-k, k+1, -k-1)
					}
				}
			}
		}
	}
	in.thr = append(in.thr, 0, 1, -1)
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				in.header[b] = true
				in.count[b] = countingLoop(b)
			}
		}
	}
	// liveness
	for _, b := range fn.Blocks {
		in.liveIn[b] = map[int]bool{}
		in.liveOut[b] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := in.liveOut[b]
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				phis := map[int]bool{}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					phis[in.num[phi]] = true
					// the same block can be a predecessor twice
					for k, p := range s.Preds {
						if p == b {
							if n, ok := in.num[phi.Edges[k]]; ok && !out[n] {
								out[n] = true
								changed = true
							}
						}
					}
				}
				_ = pi
				for n := range in.liveIn[s] {
					if !phis[n] && !out[n] {
						out[n] = true
						changed = true
					}
				}
			}
			live := map[int]bool{}
			for n := range out {
				live[n] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if _, ok := ins.(*ssa.Phi); ok {
					break
				}
				a := map[int]bool{}
				for n := range live {
					a[n] = true
				}
				in.after[ins] = a
				if v, ok := ins.(ssa.Value); ok {
					delete(live, in.num[v])
				}
				for _, op := range ins.Operands(nil) {
					if n, ok := in.num[*op]; ok {
						live[n] = true
					}
				}
			}
			for n := range live {
				if !in.liveIn[b][n] {
					in.liveIn[b][n] = true
					changed = true
				}
			}
		}
	}
	return in
}

func constInt(c *ssa.Const) (int64, bool) {
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if b.Info()&types.IsUnsigned != 0 {
			u := c.Uint64()
			if u > 1<<62 {
				return 0, false
			}
			return int64(u), true
		}
		return c.Int64(), true
	}
	return 0, false
}

// flat layout of types: structs and short arrays are flattened to cells.
const maxFlat = 16

func isBigArray(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	return ok && bigLen(a)
}

func bigLen(a *types.Array) bool {
	if a.Len() <= maxFlat {
		return false
	}
	switch u := a.Elem().Underlying().(type) {
	case *types.Pointer:
		return a.Len() > 2*maxFlat*maxFlat
	case *types.Basic:
		return u.Info()&types.IsString == 0 || a.Len() > 2*maxFlat*maxFlat
	}
	return true
}

func cellCount(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += cellCount(u.Field(i).Type())
		}
		return n
	case *types.Array:
		if bigLen(u) {
			return 1
		}
		return int(u.Len()) * cellCount(u.Elem())
	}
	return 1
}

func fieldOff(t types.Type, i int) int {
	s := t.Underlying().(*types.Struct)
	n := 0
	for k := 0; k < i; k++ {
		n += cellCount(s.Field(k).Type())
	}
	return n
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct:
		return true
	case *types.Array:
		return !isBigArray(t)
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func intRange(t types.Type) (int64, int64, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Int8:
		return -128, 127, true
	case types.Uint16:
		return 0, 65535, true
	case types.Int16:
		return -32768, 32767, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 0, inf - 1, true
	}
	return -(inf - 1), inf - 1, true
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := e.prog.Prog.Fset.Position(p)
	f := q.Filename
	if len(f) > len(e.repo) && f[:len(e.repo)] == e.repo {
		f = f[len(e.repo)+1:]
	}
	return f + ":" + itoa(q.Line)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}
