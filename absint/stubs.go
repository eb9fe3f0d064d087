package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type VBytes struct{}

func (w VBytes) same(o VBytes) bool            { return false }
func (w VBytes) String() string                { return "bytes" }
func (w VBytes) rename(f func(int) int) VBytes { return w }

type VElem struct {
	O, P int
	I    Lin
	Tab  *ssa.Global
}

func (e VElem) rename(f func(int) int) VElem {
	e.I = e.I.rename(func(s Sym) Sym { return Sym(f(int(s))) })
	if e.Tab == nil {
		e.O = f(e.O)
	}
	return e
}
func (e VElem) field(t types.Type, i int) Value { return VTop{"field of an element"} }

// VTable is a slice with constant contents.
type VTable struct{ G *ssa.Global }

type TrieSub struct{}

func (r *TrieSub) refs(f func(Value))                  {}
func (r *TrieSub) canon(c *canon)                      {}
func (r *TrieSub) rename(f func(Value) Value) *TrieSub { return r }

type TrieSeg struct{}

func (st *State) noBytes(v Value) Value {
	st.abort("undecided", "operation on bytes %s", st.show(v))
	return nil
}
func (st *State) widen(x VWord, w int64) Value        { return st.noBytes(x) }
func (st *State) lowBits(x VWord, t types.Type) Value { return st.noBytes(x) }
func (st *State) concat(a, b Value) Value {
	if f := st.eng.ob.concatFn; f != nil {
		if v, ok := f(st, a, b); ok {
			return v
		}
	}
	return st.newOpq()
}
func (st *State) assertHook(v Value, x *ssa.TypeAssert) (bool, Value) {
	if f := st.eng.ob.assertFn; f != nil {
		if ok, res, done := f(st, v, x.AssertedType); done {
			return ok, res
		}
	}
	st.abort("undecided", "type assertion on %s", st.show(v))
	return false, nil
}
