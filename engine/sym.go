package main

import (
	"fmt"
	"go/types"
)

// Intrinsics of the harness package internal/verif/sym, by function name.
var symIntrinsics = map[string]intrinsic{}

func init() {
	str := func(vm *VM, v Value) string { return vm.concStr(v) }
	scalar := func(s Sort) intrinsic {
		return func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.newVar(str(vm, a[0]), s) }
	}
	m := symIntrinsics
	m["Bool"] = scalar(SBool)
	m["Int64"] = scalar(64)
	m["Uint64"] = scalar(64)
	m["Int32"] = scalar(32)
	m["Uint32"] = scalar(32)
	m["Byte"] = scalar(8)
	m["Float64"] = scalar(SF64)
	m["Float32"] = scalar(SF32)
	ranged := func(vm *VM, name string, lo, hi int64) Value {
		tt := vm.tt
		if lo == hi {
			t := vm.newVar(name, 64)
			vm.assume(val(tt.Bin(OEq, t, tt.Const(64, uint64(lo)))))
			return uint64(lo)
		}
		t := vm.newVarIn(name, 64, lo, hi)
		// put the default model inside the range
		if vm.pos >= len(vm.prefix) {
			v := int64(vm.model[t.id])
			if v < lo || v > hi {
				mm := vm.merged(nil)
				mm[t.id] = uint64(lo)
				vm.model = mm
			}
		}
		// built without simplification, which would use the bounds
		vm.assume(tt.mk(OAnd, SBool, 0, 0, 0, "", tt.mk(OSLe, SBool, 0, 0, 0, "", tt.Const(64, uint64(lo)), t),
			tt.mk(OSLe, SBool, 0, 0, 0, "", t, tt.Const(64, uint64(hi)))))
		return t
	}
	m["Int"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		return ranged(vm, str(vm, a[0]), int64(a[1].(uint64)), int64(a[2].(uint64)))
	}
	m["Choice"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		n := int64(vm.concInt(a[1], 64))
		v := ranged(vm, str(vm, a[0]), 0, n-1)
		return vm.concInt(v, 64)
	}
	m["Flip"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		return vm.branch(vm.newVar(str(vm, a[0]), SBool))
	}
	m["String"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		// String(name, maxLen): a string of up to maxLen ASCII bytes
		name := str(vm, a[0])
		n := int64(vm.concInt(a[1], 64))
		l := vm.concInt(ranged(vm, name+".len", 0, n), 64)
		b := make([]Value, l)
		for i := range b {
			t := vm.newVar(fmt.Sprintf("%s[%d]", name, i), 8)
			vm.assume(val(vm.tt.Bin(OULt, t, vm.tt.Const(8, 0x80))))
			b[i] = t
		}
		return mkStr(b)
	}
	m["StringN"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		// StringN(name, n): exactly n bytes, any values
		name := str(vm, a[0])
		b := make([]Value, vm.concInt(a[1], 64))
		for i := range b {
			b[i] = vm.newVar(fmt.Sprintf("%s[%d]", name, i), 8)
		}
		return mkStr(b)
	}
	m["Assume"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { vm.assume(a[0]); return nil }
	m["Assert"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		vm.assert(str(vm, a[0]), a[1], func() string { return vm.safeMsg(a[2:]) })
		return nil
	}
	m["Fail"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		vm.assert(str(vm, a[0]), false, func() string { return vm.safeMsg(a[1:]) })
		return nil
	}
	m["Known"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		if vm.branch(a[1]) {
			vm.knownID = str(vm, a[0])
		}
		return nil
	}
	m["Thorough"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.ex.tier == "thorough" }
	m["Cover"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { vm.covers[str(vm, a[0])] = true; return nil }
	m["Observe"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		iv := a[1].(IfaceV)
		name := str(vm, a[0])
		if iv.t == nil {
			vm.observed = append(vm.observed, obsRec{name, "nil"})
			return nil
		}
		v := iv.v
		switch v.(type) {
		case bool, uint64, string, *Term, *SymStr, float32, float64:
		default:
			return nil
		}
		s, signed, _ := basicSort(iv.t)
		if signed && s <= 64 && s > 0 {
			v = vm.convNum(v, s, true, 64, true)
			vm.observed = append(vm.observed, obsRec{name, v})
			return nil
		}
		vm.observed = append(vm.observed, obsRec{name, v})
		return nil
	}
	m["And"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.and(a[0], a[1]) }
	m["Or"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.or(a[0], a[1]) }
	m["Not"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.not(a[0]) }
	m["Implies"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.or(vm.not(a[0]), a[1]) }
	m["EqStr"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.strEq(a[0], a[1]) }
	m["IfInt"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.iteScalar(a[0], a[1], a[2], 64) }
	m["IfFloat"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.iteScalar(a[0], a[1], a[2], SF64) }
	m["IfFloat32"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.iteScalar(a[0], a[1], a[2], SF32) }
	m["Quiesce"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		g.visible(&op{kind: opQuiesce, what: "Quiesce"})
		return nil
	}
	m["Live"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { return uint64(vm.live()) }
	m["Explore"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		vm.explore = true
		vm.maxPreempt = int(vm.concInt(a[0], 64))
		vm.maxSchedPoints = int(vm.concInt(a[1], 64))
		vm.preempts, vm.schedPoints, vm.delays = 0, 0, -1
		vm.por = vm.maxPreempt < 0
		return nil
	}
	m["Delays"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		vm.explore, vm.por = true, false
		vm.delays = int(vm.concInt(a[0], 64))
		vm.maxSchedPoints = int(vm.concInt(a[1], 64))
		vm.schedPoints = 0
		return nil
	}
	m["Selects"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		vm.selects = int(int64(vm.concInt(a[0], 64)))
		return nil
	}
	m["Sequential"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		vm.explore, vm.por = false, false
		for _, g := range vm.gors {
			g.asleep = false
		}
		return nil
	}
	m["MapOrders"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { vm.mapOrder = a[0].(bool); return nil }
	m["NoTimers"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { vm.noTimers = a[0].(bool); return nil }
	m["DetectRaces"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		vm.race = &raceState{cells: map[*Cell]*shadow{}, found: map[string]bool{}}
		for _, x := range vm.gors {
			x.vc.inc(x.id)
		}
		return nil
	}
	m["Symbolic"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { return true }
	m["SameMessage"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		// pointer identity of messages
		x, _, ok1 := vm.msgOf(a[0])
		y, _, ok2 := vm.msgOf(a[1])
		return ok1 && ok2 && x == y
	}
	m["RealNow"] = func(vm *VM, g *Gor, fr *frame, a []Value) Value { return uint64(vm.now) }
	_ = types.Typ
}

func (vm *VM) showMsg(v Value) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		return vm.showVal(x, vm.model)
	case SliceV:
		s := ""
		for i, e := range vm.ifaceSlice(x) {
			if i > 0 {
				s += " "
			}
			iv := e.(IfaceV)
			if iv.t == nil {
				s += "nil"
				continue
			}
			if _, isPtr := iv.v.(*Cell); isPtr {
				if mi := vm.p.proto.infoOfPtr(iv.t); mi != nil {
					s += vm.dumpMsg(iv.v.(*Cell), mi, 0)
					continue
				}
			}
			t, ok := vm.tryText(iv)
			if !ok {
				t = iv.v
			}
			switch t.(type) {
			case string, *SymStr, bool, uint64, *Term, float32, float64:
				if u, ok := t.(uint64); ok {
					if st, signed, ok := basicSort(iv.t); ok && signed {
						s += fmt.Sprint(sext(st, u))
						continue
					}
				}
				s += vm.showVal(t, vm.model)
			default:
				s += fmt.Sprintf("%T", t)
			}
		}
		return s
	}
	return ""
}

// dumpMsg prints a message's set fields under the current model, for reports.
func (vm *VM) dumpMsg(c *Cell, mi *MsgInfo, depth int) string {
	if c == nil {
		return "<nil>"
	}
	if depth > 6 {
		return "..."
	}
	vm.p.proto.build(mi)
	s := "{"
	for _, fi := range mi.fields {
		h := vm.hasField(c, fi)
		if t, ok := h.(*Term); ok {
			h = vm.tt.Eval(t, vm.model) != 0
		}
		if h == false {
			continue
		}
		if len(s) > 1 {
			s += " "
		}
		s += string(fi.fd.Name()) + ":"
		v := vm.fieldLoad(c, fi)
		if fi.kind == fOneof {
			v = vm.oneofInner(c, fi).v
		}
		one := func(v Value) string {
			if cc, ok := v.(*Cell); ok && isMsgKind(fi.fd) && cc != nil && fi.kind != fOpt {
				if m := vm.p.proto.infoFor(fi.fd.Message()); m != nil {
					return vm.dumpMsg(cc, m, depth+1)
				}
			}
			if cc, ok := v.(*Cell); ok && cc != nil {
				v = cc.v
			}
			switch x := v.(type) {
			case uint64:
				if fi.sort > 0 && fi.sort <= 64 {
					return fmt.Sprint(sext(fi.sort, x))
				}
				return fmt.Sprint(x)
			case *Term:
				u := vm.tt.Eval(x, vm.model)
				if x.sort > 0 && x.sort <= 64 {
					return fmt.Sprint(sext(x.sort, u))
				}
				return vm.showVal(x, vm.model)
			case string, *SymStr, bool, float32, float64:
				return vm.showVal(v, vm.model)
			}
			return fmt.Sprintf("%T", v)
		}
		switch x := v.(type) {
		case SliceV:
			s += "["
			for i := 0; i < x.len; i++ {
				if i > 0 {
					s += ","
				}
				s += one(x.arr.e[x.off+i].v)
			}
			s += "]"
		default:
			s += one(v)
		}
	}
	return s + "}"
}

// safeMsg renders a message for a report; a value that cannot be rendered is not an error.
func (vm *VM) safeMsg(a []Value) (s string) {
	if len(a) == 0 {
		return ""
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(killedT); ok {
				panic(r)
			}
			s += "(...)"
		}
	}()
	return vm.showMsg(a[0])
}

func (w *ProtoWorld) infoOfPtr(t types.Type) *MsgInfo {
	pt, ok := t.(*types.Pointer)
	if !ok || !isMsgStruct(pt.Elem()) {
		return nil
	}
	return w.infoOf(canon(pt.Elem()))
}
