package main

import (
	"golang.org/x/tools/go/ssa"
)

func (st *State) inGo() bool {
	for _, f := range st.frames {
		if f.isGo {
			return true
		}
	}
	return false
}

func (st *State) send(cv, x Value) {
	switch c := cv.(type) {
	case VNil:
		st.abort("channel", "send on a nil channel blocks forever")
	case VChan:
		ch := st.chans[c.ID]
		if ch.Closed > 0 {
			st.abort("panic", "send on a closed channel")
		}
		if !st.inGo() && !ch.Outer {
			st.abort("channel", "send on a channel nobody can receive from yet")
		}
		ch.W = append(append([]Item(nil), ch.W...), st.sendItem(x))
		return
	}
	st.abort("undecided", "send on %s", st.show(cv))
}

// sendItem recognises an entry which is sent as a key and value pair.
func (st *State) sendItem(x Value) Item {
	if st.eng.ob.sendFn != nil {
		return st.eng.ob.sendFn(st, x)
	}
	if a, ok := x.(VAgg); ok && len(a.C) == 2 {
		for _, id := range sortedKeys(st.atoms) {
			at := st.atoms[id]
			if at.Seq || !valSame(at.V, a.C[1]) {
				continue
			}
			if valSame(at.K, a.C[0]) {
				return Item{A: id}
			}
			if ap, ok := a.C[0].(VApp); ok && len(ap.Args) == 1 && valSame(at.K, ap.Args[0]) {
				return Item{A: id, F: ap.F}
			}
		}
		return Item{K: a.C[0], V: a.C[1]}
	}
	return Item{K: x, V: VNil{}}
}

func (st *State) closeChan(cv Value) {
	switch c := cv.(type) {
	case VNil:
		st.abort("panic", "close of a nil channel")
	case VChan:
		ch := st.chans[c.ID]
		if ch.Closed > 0 {
			st.abort("panic", "channel is closed twice")
		}
		ch.Closed++
		return
	}
	st.abort("undecided", "close of %s", st.show(cv))
}

func (st *State) recv(v Value, x *ssa.UnOp) Value {
	if st.eng.ob.recvFn != nil {
		return st.eng.ob.recvFn(st, v, x)
	}
	st.abort("undecided", "receive from %s", st.show(v))
	return nil
}

func (st *State) builtin(name string, args []Value, c *ssa.CallCommon) Value {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case VNil:
			return VInt{linC(0)}
		case VSlice:
			return VInt{x.Len}
		}
		if isString(c.Args[0].Type()) {
			return VInt{st.strLen(args[0])}
		}
		if l, ok := st.opqLen(args[0]); ok {
			return VInt{l}
		}
	case "cap":
		switch x := args[0].(type) {
		case VNil:
			return VInt{linC(0)}
		case VSlice:
			return VInt{x.Cap}
		}
	case "close":
		st.closeChan(args[0])
		return VTuple{}
	case "append":
		return st.appendTo(args, c)
	case "copy":
		return st.copyTo(args, c)
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		a, b := st.toInt(args[0]), st.toInt(args[1])
		if len(args) == 2 {
			if st.decideLE0(a.sub(b)) == (name == "min") {
				return VInt{a}
			}
			return VInt{b}
		}
	}
	st.abort("undecided", "builtin %s", name)
	return nil
}
