package main

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// maxTrips is how often a loop may go round to be followed as it is, without summarising what it works on.
const maxTrips = 4

// counting is a loop which counts by constants towards a limit which it doesn't change.
type counting struct {
	phi   *ssa.Phi
	add   int64 // what is compared is phi + add
	limit ssa.Value
	isLen bool // the limit is the length of limit
}

// countingLoop tells how the loop at b counts, if it does.
func countingLoop(b *ssa.BasicBlock) *counting {
	if len(b.Instrs) == 0 {
		return nil
	}
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	// the way into the loop is taken while the condition holds
	if b.Succs[0] == b || !inLoop(b.Succs[0], b) || inLoop(b.Succs[1], b) {
		return nil
	}
	cond, ok := br.Cond.(*ssa.BinOp)
	if !ok || cond.Block() != b {
		return nil
	}
	c := &counting{limit: cond.Y}
	if k, ok := cond.Y.(*ssa.Call); ok && k.Block() == b {
		if f, ok := k.Call.Value.(*ssa.Builtin); ok && f.Name() == "len" {
			c.limit, c.isLen = k.Call.Args[0], true
		}
	}
	switch x := c.limit.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
	case ssa.Instruction:
		if x.Block() == b || !x.Block().Dominates(b) {
			return nil
		}
	default:
		return nil
	}
	x, add := plusConst(cond.X)
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != b {
		return nil
	}
	c.phi, c.add = phi, add
	for i, p := range b.Preds {
		if !b.Dominates(p) {
			continue
		}
		y, step := plusConst(phi.Edges[i])
		if y != ssa.Value(phi) || step == 0 {
			return nil
		}
		if step > 0 && cond.Op != token.LSS && cond.Op != token.LEQ || step < 0 && cond.Op != token.GTR && cond.Op != token.GEQ {
			return nil
		}
	}
	return c
}

// short tells whether the loop goes round a few times only, from where it is now.
func (st *State) short(f *Frame, c *counting) bool {
	if c == nil || st.eng.ob.unroll != nil {
		return false
	}
	x, ok := f.regs[f.info.num[c.phi]].(VInt)
	if !ok || !x.L.isConst() {
		return false
	}
	limit := linC(0)
	switch v := st.get(f, c.limit).(type) {
	case VInt:
		limit = v.L
	case VSlice:
		limit = v.Len
	default:
		return false
	}
	if !limit.isConst() {
		return false
	}
	n := limit.k - x.L.k - c.add
	return n <= maxTrips && n >= -maxTrips
}

// inLoop tells whether there is a way from b back to the header h which stays below h.
func inLoop(b, h *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == h {
			return true
		}
		if seen[b] || !h.Dominates(b) {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(b)
}

func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// plusConst takes v as a sum with a constant.
func plusConst(v ssa.Value) (ssa.Value, int64) {
	if b, ok := v.(*ssa.BinOp); ok {
		if k, ok := intConst(b.Y); ok {
			switch b.Op {
			case token.ADD:
				return b.X, k
			case token.SUB:
				return b.X, -k
			}
		}
	}
	return v, 0
}
