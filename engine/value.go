package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of: bool, uint64 (all integers, zero-extended to 64 bits and masked to
// their width), float32, float64, string, *Term (symbolic bool/int/float), *SymStr,
// *Cell (pointer), *StructV, *ArrayV, SliceV, *MapV, IfaceV, *FuncV, *ChanV, Tuple,
// *Native (host object), PRefValue, *MsgHandle, *ListHandle, *MapHandle, Poison.
type Value any

type Cell struct {
	v      Value
	frozen bool
}

type StructV struct{ f []Cell }
type ArrayV struct{ e []Cell }
type SliceV struct {
	arr           *ArrayV
	off, len, cap int
}
type IfaceV struct {
	t types.Type
	v Value
}
type FuncV struct {
	fn     *ssa.Function
	env    []Value
	native func(vm *VM, g *Gor, args []Value) Value
	name   string
}
type Tuple []Value
type Native struct{ v any }
type Poison struct{ why string }

// SymStr is a string of concrete length whose bytes may be symbolic.
type SymStr struct{ b []Value }

type MapV struct {
	keys, vals []Value
	live       []bool
	n          int
	idx        map[any]int
	sym        int // number of live symbolic keys
	frozen     bool
	kt         types.Type
	raceCell   Cell
}

func nan() float64 { return math.NaN() }

type engineError struct{ msg string }

func unsupported(format string, a ...any) {
	panic(engineError{fmt.Sprintf(format, a...)})
}

var canonMu sync.Mutex
var canonMap typeutil.Map

func init() { canonMap.SetHasher(typeutil.MakeHasher()) }

// canon returns one representative for each class of identical types.
func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	if r := canonMap.At(t); r != nil {
		return r.(types.Type)
	}
	canonMap.Set(t, t)
	return t
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

// basicSort gives the term sort for a basic type; ok=false when not scalar.
func basicSort(t types.Type) (s Sort, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Float32:
		return SF32, true, true
	case types.Float64, types.UntypedFloat:
		return SF64, true, true
	}
	return 0, false, false
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

var prefValueType = "google.golang.org/protobuf/reflect/protoreflect"

func isPRefValue(t types.Type) bool { return isNamed(t, prefValueType, "Value") }
func isPRefMapKey(t types.Type) bool { return isNamed(t, prefValueType, "MapKey") }

func zero(t types.Type) Value {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if o := n.Obj(); o.Pkg() != nil && o.Pkg().Path() == prefValueType && (o.Name() == "Value" || o.Name() == "MapKey") {
			return PRefValue{}
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return ""
		case types.Bool, types.UntypedBool:
			return false
		case types.Float32:
			return float32(0)
		case types.Float64, types.UntypedFloat:
			return float64(0)
		case types.UnsafePointer:
			return (*Cell)(nil)
		case types.UntypedNil:
			return nil
		case types.Complex64, types.Complex128:
			return Poison{"complex"}
		}
		return uint64(0)
	case *types.Pointer:
		return (*Cell)(nil)
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return IfaceV{}
	case *types.Struct:
		s := &StructV{f: make([]Cell, u.NumFields())}
		for i := range s.f {
			s.f[i].v = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &ArrayV{e: make([]Cell, u.Len())}
		for i := range a.e {
			a.e[i].v = zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	case *types.TypeParam:
		unsupported("zero of type parameter %v", t)
	}
	unsupported("zero of %T %v", under(t), t)
	return nil
}

// copyVal copies struct and array values so that the result shares no cells.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Cell, len(v.f))}
		for i := range v.f {
			n.f[i].v = copyVal(v.f[i].v)
		}
		return n
	case *ArrayV:
		n := &ArrayV{e: make([]Cell, len(v.e))}
		for i := range v.e {
			n.e[i].v = copyVal(v.e[i].v)
		}
		return n
	}
	return v
}

// load reads a cell (copying aggregates).
func (vm *VM) load(c *Cell) Value {
	if c == nil {
		vm.nilDeref()
	}
	switch v := c.v.(type) {
	case *StructV:
		if vm.race != nil {
			vm.raceDeep(c, false)
		}
		return copyVal(v)
	case *ArrayV:
		if vm.race != nil {
			vm.raceDeep(c, false)
		}
		return copyVal(v)
	default:
		if vm.race != nil {
			vm.raceRead(c)
		}
		return v
	}
}

// store writes a value to a cell, in place for aggregates.
func (vm *VM) store(c *Cell, v Value) {
	if c == nil {
		vm.nilDeref()
	}
	switch v := v.(type) {
	case *StructV:
		if d, ok := c.v.(*StructV); ok && len(d.f) == len(v.f) {
			for i := range v.f {
				vm.store(&d.f[i], v.f[i].v)
			}
			return
		}
		vm.set(c, copyVal(v))
		return
	case *ArrayV:
		if d, ok := c.v.(*ArrayV); ok && len(d.e) == len(v.e) {
			for i := range v.e {
				vm.store(&d.e[i], v.e[i].v)
			}
			return
		}
		vm.set(c, copyVal(v))
		return
	}
	vm.set(c, v)
}

func (vm *VM) set(c *Cell, v Value) {
	if vm.race != nil {
		vm.raceWrite(c)
	}
	if c.frozen && !vm.initMode {
		vm.undo = append(vm.undo, undoRec{c: c, old: c.v})
	}
	c.v = v
}

type undoRec struct {
	c   *Cell
	old Value
	fn  func()
}

// freeze marks everything reachable from v as part of the initial heap.
func freeze(v Value, seen map[any]bool) {
	switch v := v.(type) {
	case *Cell:
		freezeCell(v, seen)
	case *StructV:
		for i := range v.f {
			freezeCell(&v.f[i], seen)
		}
	case *ArrayV:
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		for i := range v.e {
			freezeCell(&v.e[i], seen)
		}
	case SliceV:
		if v.arr != nil {
			freeze(v.arr, seen)
		}
	case IfaceV:
		freeze(v.v, seen)
	case *MapV:
		if v == nil || v.frozen {
			return
		}
		v.frozen = true
		for i := range v.keys {
			freeze(v.keys[i], seen)
			freeze(v.vals[i], seen)
		}
	case *FuncV:
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		for _, e := range v.env {
			freeze(e, seen)
		}
	case Tuple:
		for _, e := range v {
			freeze(e, seen)
		}
	}
}

func freezeCell(c *Cell, seen map[any]bool) {
	if c == nil || seen[c] {
		return
	}
	seen[c] = true
	c.frozen = true
	freeze(c.v, seen)
}

// ---- scalars and terms

func (vm *VM) term(v Value, s Sort) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case bool:
		return vm.tt.Bool(v)
	case uint64:
		return vm.tt.Const(s, v)
	case float32:
		return vm.tt.Const(SF32, canonF(SF32, uint64(math.Float32bits(v))))
	case float64:
		return vm.tt.Const(SF64, canonF(SF64, math.Float64bits(v)))
	}
	unsupported("term of %T", v)
	return nil
}

// val turns constant terms back into plain values.
func val(t *Term) Value {
	if t.op == OConst {
		switch t.sort {
		case SBool:
			return t.val != 0
		case SF32:
			return math.Float32frombits(uint32(t.val))
		case SF64:
			return math.Float64frombits(t.val)
		}
		return t.val
	}
	return t
}

func (vm *VM) not(v Value) Value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return val(vm.tt.Not(v.(*Term)))
}
func (vm *VM) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return val(vm.tt.And(a.(*Term), b.(*Term)))
}
func (vm *VM) or(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if x {
			return true
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if y {
			return true
		}
		return a
	}
	return val(vm.tt.Or(a.(*Term), b.(*Term)))
}

// iteScalar builds a conditional over scalar values of one sort; nil when not possible.
func (vm *VM) iteScalar(c Value, a, b Value, s Sort) Value {
	if x, ok := c.(bool); ok {
		if x {
			return a
		}
		return b
	}
	return val(vm.tt.Ite(c.(*Term), vm.term(a, s), vm.term(b, s)))
}

// ---- strings

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	unsupported("strLen of %T", v)
	return 0
}

func strAt(v Value, i int) Value {
	switch v := v.(type) {
	case string:
		return uint64(v[i])
	case *SymStr:
		return v.b[i]
	}
	return nil
}

func mkStr(b []Value) Value {
	buf := make([]byte, len(b))
	for i, x := range b {
		u, ok := x.(uint64)
		if !ok {
			return &SymStr{b: b}
		}
		buf[i] = byte(u)
	}
	return string(buf)
}

func strSlice(v Value, lo, hi int) Value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return mkStr(v.b[lo:hi:hi])
	}
	return nil
}

func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		r := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = uint64(v[i])
		}
		return r
	case *SymStr:
		return v.b
	}
	unsupported("strBytes of %T", v)
	return nil
}

func strCat(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	r := append([]Value{}, strBytes(a)...)
	return mkStr(append(r, strBytes(b)...))
}

func (vm *VM) eqByte(a, b Value) Value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return x == y
	}
	return val(vm.tt.Bin(OEq, vm.term(a, 8), vm.term(b, 8)))
}

func (vm *VM) strEq(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	if strLen(a) != strLen(b) {
		return false
	}
	var r Value = true
	for i := 0; i < strLen(a); i++ {
		r = vm.and(r, vm.eqByte(strAt(a, i), strAt(b, i)))
		if r == false {
			return false
		}
	}
	return r
}

// strLess builds a < b (lexicographic).
func (vm *VM) strLess(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x < y
	}
	n := min(strLen(a), strLen(b))
	var r Value = strLen(a) < strLen(b)
	for i := n - 1; i >= 0; i-- {
		p, q := strAt(a, i), strAt(b, i)
		var lt Value
		pu, o1 := p.(uint64)
		qu, o2 := q.(uint64)
		if o1 && o2 {
			lt = pu < qu
		} else {
			lt = val(vm.tt.Bin(OULt, vm.term(p, 8), vm.term(q, 8)))
		}
		r = vm.or(lt, vm.and(vm.eqByte(p, q), r))
	}
	return r
}

// ---- equality

func isNilValue(v Value) (bool, bool) {
	switch v := v.(type) {
	case nil:
		return true, true
	case *Cell:
		return v == nil, true
	case SliceV:
		return v.arr == nil, true
	case *MapV:
		return v == nil, true
	case *ChanV:
		return v == nil, true
	case *FuncV:
		return v == nil, true
	case IfaceV:
		return v.t == nil, true
	}
	return false, false
}

func (vm *VM) eqVal(t types.Type, a, b Value) Value {
	if _, ok := a.(Poison); ok {
		unsupported("use of poison: %v", a)
	}
	switch x := a.(type) {
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		return val(vm.tt.Bin(OEq, vm.term(a, SBool), vm.term(b, SBool)))
	case uint64:
		if y, ok := b.(uint64); ok {
			return x == y
		}
		if y, ok := b.(*Term); ok {
			return val(vm.tt.Bin(OEq, vm.term(a, y.sort), y))
		}
	case float32:
		if y, ok := b.(float32); ok {
			return x == y
		}
		return val(vm.tt.Bin(OFEq, vm.term(a, SF32), vm.term(b, SF32)))
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
		return val(vm.tt.Bin(OFEq, vm.term(a, SF64), vm.term(b, SF64)))
	case *Term:
		if x.sort == SF32 || x.sort == SF64 {
			return val(vm.tt.Bin(OFEq, x, vm.term(b, x.sort)))
		}
		return val(vm.tt.Bin(OEq, x, vm.term(b, x.sort)))
	case string, *SymStr:
		return vm.strEq(a, b)
	case *Cell:
		y, _ := b.(*Cell)
		if x == nil || y == nil {
			return x == y
		}
		return x == y
	case *ChanV:
		y, _ := b.(*ChanV)
		return x == y
	case *MapV:
		y, _ := b.(*MapV)
		return x == y
	case *FuncV:
		y, _ := b.(*FuncV)
		return x == y
	case SliceV:
		y, _ := b.(SliceV)
		if x.arr == nil || y.arr == nil {
			return x.arr == nil && y.arr == nil
		}
		unsupported("slice comparison")
	case nil:
		n, ok := isNilValue(b)
		return n && ok
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			n, ok := isNilValue(b)
			return n && ok && x.t == nil
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		if !types.Comparable(x.t) {
			vm.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return vm.eqVal(x.t, x.v, y.v)
	case *StructV:
		y := b.(*StructV)
		st, _ := under(t).(*types.Struct)
		var r Value = true
		for i := range x.f {
			if st != nil && st.Field(i).Name() == "_" {
				continue
			}
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			r = vm.and(r, vm.eqVal(ft, x.f[i].v, y.f[i].v))
			if r == false {
				return false
			}
		}
		return r
	case *ArrayV:
		y := b.(*ArrayV)
		at, _ := under(t).(*types.Array)
		var r Value = true
		for i := range x.e {
			r = vm.and(r, vm.eqVal(at.Elem(), x.e[i].v, y.e[i].v))
			if r == false {
				return false
			}
		}
		return r
	case *Native:
		y, ok := b.(*Native)
		if !ok {
			return false
		}
		return hostEq(x.v, y.v)
	case *MsgHandle:
		y, ok := b.(*MsgHandle)
		return ok && x.cell == y.cell && x.mi == y.mi
	case PRefValue:
		y, ok := b.(PRefValue)
		if !ok {
			return false
		}
		return vm.prefEqual(x, y)
	}
	unsupported("eqVal %T %T", a, b)
	return nil
}

func hostEq(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if ta, ok := a.(types.Type); ok {
		return types.Identical(ta, b.(types.Type))
	}
	return a == b
}

// ---- maps

// hashKey gives a Go-comparable key for concrete values; ok=false if the value holds symbolic parts.
func hashKey(v Value) (any, bool) {
	switch v := v.(type) {
	case bool, uint64, string, float32, float64, *Cell, *ChanV:
		return v, true
	case *Term, *SymStr:
		return nil, false
	case IfaceV:
		if v.t == nil {
			return "nil-iface", true
		}
		k, ok := hashKey(v.v)
		if !ok {
			return nil, false
		}
		return [2]any{canon(v.t), k}, true
	case *StructV:
		var sb strings.Builder
		for i := range v.f {
			k, ok := hashKey(v.f[i].v)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
		return [2]any{"struct", sb.String()}, true
	case *ArrayV:
		var sb strings.Builder
		for i := range v.e {
			k, ok := hashKey(v.e[i].v)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
		return [2]any{"array", sb.String()}, true
	case *Native:
		if t, ok := v.v.(types.Type); ok {
			return canon(t), true
		}
		return v.v, true
	case *MsgHandle:
		return v.cell, true
	case PRefValue:
		k, ok := hashKey(v.v)
		return [2]any{int(v.kind), k}, ok
	}
	unsupported("hashKey of %T", v)
	return nil, false
}

func newMap(kt types.Type) *MapV { return &MapV{idx: map[any]int{}, kt: kt} }

// find returns the index of the entry for k, or -1, forking on symbolic equality.
func (vm *VM) mapFind(m *MapV, k Value) int {
	if m == nil {
		return -1
	}
	if iv, ok := k.(IfaceV); ok && iv.t != nil && !types.Comparable(iv.t) {
		vm.rtPanic("hash of unhashable type " + iv.t.String())
	}
	hk, conc := hashKey(k)
	if conc {
		if i, ok := m.idx[hk]; ok {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if conc {
			if _, c := hashKey(m.keys[i]); c {
				continue
			}
		}
		if vm.branch(vm.eqVal(m.kt, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (vm *VM) mapLog(m *MapV) {
	if m.frozen && !vm.initMode {
		old := *m
		old.keys = append([]Value{}, m.keys...)
		old.vals = append([]Value{}, m.vals...)
		old.live = append([]bool{}, m.live...)
		old.idx = map[any]int{}
		for k, v := range m.idx {
			old.idx[k] = v
		}
		vm.undo = append(vm.undo, undoRec{fn: func() { *m = old }})
	}
}

func (vm *VM) mapSet(m *MapV, k, v Value) {
	if m == nil {
		vm.rtPanic("assignment to entry in nil map")
	}
	if vm.race != nil {
		vm.raceWrite(&m.raceCell)
	}
	i := vm.mapFind(m, k)
	vm.mapLog(m)
	if i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.live = append(m.live, true)
	m.n++
	if hk, ok := hashKey(k); ok {
		m.idx[hk] = len(m.keys) - 1
	} else {
		m.sym++
	}
}

func (vm *VM) mapGet(m *MapV, k Value) (Value, bool) {
	if m == nil {
		return nil, false
	}
	if vm.race != nil {
		vm.raceRead(&m.raceCell)
	}
	i := vm.mapFind(m, k)
	if i < 0 {
		return nil, false
	}
	return m.vals[i], true
}

func (vm *VM) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	if vm.race != nil {
		vm.raceWrite(&m.raceCell)
	}
	i := vm.mapFind(m, k)
	if i < 0 {
		return
	}
	vm.mapLog(m)
	m.live[i] = false
	m.n--
	if hk, ok := hashKey(m.keys[i]); ok {
		delete(m.idx, hk)
	} else {
		m.sym--
	}
}

func (vm *VM) mapClear(m *MapV) {
	if m == nil {
		return
	}
	vm.mapLog(m)
	m.keys, m.vals, m.live, m.n, m.sym = nil, nil, nil, 0, 0
	m.idx = map[any]int{}
}

func (vm *VM) mapLen(m *MapV) int {
	if m == nil {
		return 0
	}
	if vm.race != nil {
		vm.raceRead(&m.raceCell)
	}
	return m.n
}
