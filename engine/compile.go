package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	slot int // >=0 register; -1 constant; -2 global
	c    Value
	g    *ssa.Global
	gi   int
}

func (o *opnd) get(fr *frame) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.slot == -1 {
		return o.c
	}
	return fr.vm.globalCell(o.g, o.gi)
}

type instrFn func(fr *frame)

type cblock struct {
	phis   []*ssa.Phi
	phiDst []int
	phiSrc [][]opnd // [phi][pred]
	ins    []instrFn
	dst    []int // result register of ins (for tolerant init), or -1
	src    []ssa.Instruction
	term   func(fr *frame) int // next block or -1
}

type cfunc struct {
	fn       *ssa.Function
	name     string
	once     sync.Once
	nregs    int
	blocks   []cblock
	native   intrinsic
	external bool
	hasDefer bool
	recov    int
	inRepo   bool
	stdAtomic bool // package context: internals are not scheduling points
	hit      atomic.Bool
	slots    map[ssa.Value]int
}

type intrinsic func(vm *VM, g *Gor, fr *frame, args []Value) Value

type frame struct {
	vm    *VM
	g     *Gor
	cf    *cfunc
	regs  []Value
	block int
	prev  int
	result Value
	defers *deferRec
	panicking bool
	panicVal  Value
	recovered bool
	caller *frame
	goexit bool
	isDeferred bool // frame was called directly as a deferred function by caller
}

type deferRec struct {
	fn   Value
	cc   *ssa.CallCommon
	args []Value
	next *deferRec
	run  func()
}

type Program struct {
	prog    *ssa.Program
	mod     string
	mu      sync.Mutex
	funcs   sync.Map // *ssa.Function -> *cfunc
	globals map[*ssa.Global]int
	gmu     sync.RWMutex
	pkgByPath map[string]*ssa.Package
	methods sync.Map
	impls   sync.Map
	proto   *ProtoWorld
}

func (p *Program) cfn(fn *ssa.Function) *cfunc {
	if c, ok := p.funcs.Load(fn); ok {
		return c.(*cfunc)
	}
	c := &cfunc{fn: fn}
	x, _ := p.funcs.LoadOrStore(fn, c)
	return x.(*cfunc)
}

func (p *Program) globalIdx(g *ssa.Global) int {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.globals)
	p.globals[g] = i
	return i
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func fnPkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

var buildMu sync.Mutex

func (p *Program) ensure(c *cfunc) {
	c.once.Do(func() {
		fn := c.fn
		c.name = fnName(fn)
		c.slots = map[ssa.Value]int{}
		pp := fnPkgPath(fn)
		c.inRepo = isRepoPkg(p.mod, pp)
		c.stdAtomic = pp == "context" || pp == "sync" || pp == "sync/atomic"
		if n := lookupIntrinsic(p, fn, c.name, pp); n != nil {
			c.native = n
			return
		}
		buildMu.Lock()
		if fn.Pkg != nil {
			fn.Pkg.Build()
		} else if o := fn.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
		buildMu.Unlock()
		if len(fn.Blocks) == 0 {
			c.external = true
			return
		}
		p.compile(c)
	})
}

func isRepoPkg(mod, pp string) bool {
	if len(pp) < len(mod) || pp[:len(mod)] != mod {
		return false
	}
	return len(pp) < len(mod)+len("/internal/verif") || pp[len(mod):len(mod)+len("/internal/verif")] != "/internal/verif"
}

func (p *Program) compile(c *cfunc) {
	fn := c.fn
	n := 0
	slot := func(v ssa.Value) {
		c.slots[v] = n
		n++
	}
	for _, x := range fn.Params {
		slot(x)
	}
	for _, x := range fn.FreeVars {
		slot(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				slot(v)
			}
			switch in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				c.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		c.hasDefer = true
		c.recov = fn.Recover.Index
	} else {
		c.recov = -1
	}
	c.nregs = n
	c.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &c.blocks[i]
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				cb.phis = append(cb.phis, in)
				cb.phiDst = append(cb.phiDst, c.slots[in])
				ops := make([]opnd, len(in.Edges))
				for j, e := range in.Edges {
					ops[j] = p.opnd(c, e)
				}
				cb.phiSrc = append(cb.phiSrc, ops)
			case *ssa.DebugRef:
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
				cb.term = p.compileTerm(c, in)
			default:
				dst := -1
				if v, ok := in.(ssa.Value); ok {
					dst = c.slots[v]
				}
				cb.ins = append(cb.ins, p.compileInstr(c, in))
				cb.dst = append(cb.dst, dst)
				cb.src = append(cb.src, in)
			}
		}
		if cb.term == nil {
			cb.term = func(fr *frame) int { return -1 }
		}
	}
}

func constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return zero(t)
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		// typed constant of a type parameter instantiation etc.
		unsupported("const of %v", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(k.Value)
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		return string(rune(k.Int64()))
	case b.Info()&types.IsInteger != 0:
		s, signed, _ := basicSort(t)
		if signed {
			return mask(s, uint64(k.Int64()))
		}
		return mask(s, k.Uint64())
	case b.Kind() == types.Float32:
		return float32(k.Float64())
	case b.Info()&types.IsFloat != 0:
		return k.Float64()
	}
	return Poison{"const " + k.String()}
}

func (p *Program) opnd(c *cfunc, v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		var cv Value
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(engineError); ok {
						cv = Poison{"const"}
						return
					}
					panic(r)
				}
			}()
			cv = constVal(v)
		}()
		switch cv.(type) {
		case *StructV, *ArrayV:
			// aggregates in registers are immutable: sharing is fine
		}
		return opnd{slot: -1, c: cv}
	case *ssa.Global:
		return opnd{slot: -2, g: v, gi: p.globalIdx(v)}
	case *ssa.Function:
		return opnd{slot: -1, c: &FuncV{fn: v}}
	case *ssa.Builtin:
		return opnd{slot: -1, c: v}
	}
	s, ok := c.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %v in %v", v, c.fn))
	}
	return opnd{slot: s}
}

func (p *Program) compileTerm(c *cfunc, in ssa.Instruction) func(fr *frame) int {
	switch in := in.(type) {
	case *ssa.Jump:
		t := in.Block().Succs[0].Index
		return func(fr *frame) int { return t }
	case *ssa.If:
		cond := p.opnd(c, in.Cond)
		t, f := in.Block().Succs[0].Index, in.Block().Succs[1].Index
		mg := planMerge(c, in)
		return func(fr *frame) int {
			v := cond.get(fr)
			if b, ok := v.(bool); ok {
				if b {
					return t
				}
				return f
			}
			if mg != nil {
				if nb, ok := mg.try(fr, v); ok {
					return nb
				}
			}
			if fr.vm.branchAt(v, in) {
				return t
			}
			return f
		}
	case *ssa.Return:
		ops := make([]opnd, len(in.Results))
		for i, r := range in.Results {
			ops[i] = p.opnd(c, r)
		}
		switch len(ops) {
		case 0:
			return func(fr *frame) int { fr.result = nil; return -1 }
		case 1:
			return func(fr *frame) int { fr.result = ops[0].get(fr); return -1 }
		}
		return func(fr *frame) int {
			r := make(Tuple, len(ops))
			for i := range ops {
				r[i] = ops[i].get(fr)
			}
			fr.result = r
			return -1
		}
	case *ssa.Panic:
		x := p.opnd(c, in.X)
		return func(fr *frame) int {
			panic(goPanic{v: x.get(fr), at: fr.where(in)})
		}
	}
	panic("compileTerm")
}

func (fr *frame) where(in ssa.Instruction) string {
	pos := fr.vm.p.prog.Fset.Position(in.Pos())
	return fmt.Sprintf("%s (%s:%d)", fr.cf.fn.String(), pos.Filename, pos.Line)
}

func (p *Program) compileInstr(c *cfunc, instr ssa.Instruction) instrFn {
	switch in := instr.(type) {
	case *ssa.Alloc:
		d := c.slots[in]
		t := under(in.Type()).(*types.Pointer).Elem()
		switch under(t).(type) {
		case *types.Struct, *types.Array:
			return func(fr *frame) { fr.regs[d] = &Cell{v: zero(t)} }
		}
		var z Value
		ok := true
		func() {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			z = zero(t)
		}()
		if !ok {
			return func(fr *frame) { fr.regs[d] = &Cell{v: zero(t)} }
		}
		return func(fr *frame) { fr.regs[d] = &Cell{v: z} }
	case *ssa.UnOp:
		return p.compileUnOp(c, in)
	case *ssa.BinOp:
		return p.compileBinOp(c, in)
	case *ssa.Call:
		d := c.slots[in]
		call := p.compileCall(c, &in.Call, in)
		return func(fr *frame) { fr.regs[d] = call(fr) }
	case *ssa.ChangeInterface:
		d, x := c.slots[in], p.opnd(c, in.X)
		return func(fr *frame) { fr.regs[d] = x.get(fr) }
	case *ssa.ChangeType:
		d, x := c.slots[in], p.opnd(c, in.X)
		return func(fr *frame) { fr.regs[d] = x.get(fr) }
	case *ssa.Convert:
		return p.compileConvert(c, in, in.X, in.Type())
	case *ssa.MultiConvert:
		return p.compileConvert(c, in, in.X, in.Type())
	case *ssa.Defer:
		return p.compileDefer(c, in)
	case *ssa.Extract:
		d, x, i := c.slots[in], p.opnd(c, in.Tuple), in.Index
		return func(fr *frame) {
			t, ok := x.get(fr).(Tuple)
			if !ok {
				unsupported("extract from %T in %s", x.get(fr), fr.cf.name)
			}
			fr.regs[d] = t[i]
		}
	case *ssa.Field:
		d, x, i := c.slots[in], p.opnd(c, in.X), in.Field
		return func(fr *frame) { fr.regs[d] = x.get(fr).(*StructV).f[i].v }
	case *ssa.FieldAddr:
		d, x, i := c.slots[in], p.opnd(c, in.X), in.Field
		return func(fr *frame) {
			cell, ok := x.get(fr).(*Cell)
			if !ok {
				unsupported("FieldAddr of %T at %s", x.get(fr), fr.where(in))
			}
			if cell == nil {
				fr.vm.nilDerefAt(fr.where(in))
			}
			s, ok := cell.v.(*StructV)
			if !ok {
				unsupported("FieldAddr in cell of %T at %s", cell.v, fr.where(in))
			}
			fr.regs[d] = &s.f[i]
		}
	case *ssa.Go:
		return p.compileGo(c, in)
	case *ssa.Index:
		return p.compileIndex(c, in)
	case *ssa.IndexAddr:
		return p.compileIndexAddr(c, in)
	case *ssa.Lookup:
		d, x, k := c.slots[in], p.opnd(c, in.X), p.opnd(c, in.Index)
		if mt, ok := under(in.X.Type()).(*types.Map); ok {
			et := mt.Elem()
			return func(fr *frame) {
				m, ok := x.get(fr).(*MapV)
				if !ok {
					unsupported("lookup in %T at %s", x.get(fr), fr.where(in))
				}
				v, ok := fr.vm.mapGet(m, k.get(fr))
				if !ok {
					v = zero(et)
				}
				if in.CommaOk {
					fr.regs[d] = Tuple{copyVal(v), ok}
				} else {
					fr.regs[d] = copyVal(v)
				}
			}
		}
		_, signed, _ := basicSort(in.Index.Type())
		return func(fr *frame) {
			s := x.get(fr)
			i := fr.vm.index(k.get(fr), signed, strLen(s), fr, in)
			fr.regs[d] = strAt(s, i)
		}
	case *ssa.MakeChan:
		d, sz := c.slots[in], p.opnd(c, in.Size)
		return func(fr *frame) {
			n := fr.vm.concInt(sz.get(fr), 64)
			fr.regs[d] = fr.vm.newChan(int(n))
		}
	case *ssa.MakeClosure:
		d := c.slots[in]
		ops := make([]opnd, len(in.Bindings))
		for i, b := range in.Bindings {
			ops[i] = p.opnd(c, b)
		}
		fn := in.Fn.(*ssa.Function)
		return func(fr *frame) {
			env := make([]Value, len(ops))
			for i := range ops {
				env[i] = ops[i].get(fr)
			}
			fr.regs[d] = &FuncV{fn: fn, env: env}
		}
	case *ssa.MakeInterface:
		d, x := c.slots[in], p.opnd(c, in.X)
		t := canon(in.X.Type())
		return func(fr *frame) { fr.regs[d] = IfaceV{t: t, v: x.get(fr)} }
	case *ssa.MakeMap:
		d := c.slots[in]
		kt := under(in.Type()).(*types.Map).Key()
		return func(fr *frame) { fr.regs[d] = newMap(kt) }
	case *ssa.MakeSlice:
		d, ln, cp := c.slots[in], p.opnd(c, in.Len), p.opnd(c, in.Cap)
		et := under(in.Type()).(*types.Slice).Elem()
		return func(fr *frame) {
			vm := fr.vm
			lv, cv := ln.get(fr), cp.get(fr)
			n := vm.concSize(lv, fr, in)
			k := n
			if in.Len != in.Cap {
				k = vm.concSize(cv, fr, in)
			}
			if k < n {
				vm.rtPanicAt("makeslice: cap out of range", fr.where(in))
			}
			fr.regs[d] = makeSlice(et, n, k)
		}
	case *ssa.MapUpdate:
		m, k, v := p.opnd(c, in.Map), p.opnd(c, in.Key), p.opnd(c, in.Value)
		return func(fr *frame) {
			mv, ok := m.get(fr).(*MapV)
			if !ok {
				unsupported("MapUpdate of %T at %s", m.get(fr), fr.where(in))
			}
			fr.vm.mapSet(mv, k.get(fr), copyVal(v.get(fr)))
		}
	case *ssa.Next:
		d, x := c.slots[in], p.opnd(c, in.Iter)
		return func(fr *frame) { fr.regs[d] = x.get(fr).(iterator).next(fr.vm, fr.g) }
	case *ssa.Range:
		d, x := c.slots[in], p.opnd(c, in.X)
		mt, isMap := under(in.X.Type()).(*types.Map)
		return func(fr *frame) {
			if isMap {
				m := x.get(fr).(*MapV)
				fr.regs[d] = fr.vm.mapIter(m, mt)
				return
			}
			fr.regs[d] = &strIter{s: x.get(fr)}
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Select:
		return p.compileSelect(c, in)
	case *ssa.Send:
		ch, x := p.opnd(c, in.Chan), p.opnd(c, in.X)
		return func(fr *frame) {
			fr.g.chanSend(ch.get(fr).(*ChanV), copyVal(x.get(fr)), fr.where(in))
		}
	case *ssa.Slice:
		return p.compileSlice(c, in)
	case *ssa.SliceToArrayPointer:
		d, x := c.slots[in], p.opnd(c, in.X)
		n := int(under(under(in.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		return func(fr *frame) {
			s := x.get(fr).(SliceV)
			if s.len < n {
				fr.vm.rtPanicAt("slice to array: length", fr.where(in))
			}
			if s.arr == nil {
				fr.regs[d] = (*Cell)(nil)
				return
			}
			if s.off == 0 && len(s.arr.e) == n {
				fr.regs[d] = &Cell{v: s.arr}
				return
			}
			fr.regs[d] = &Cell{v: &ArrayV{e: s.arr.e[s.off : s.off+n : s.off+n]}}
		}
	case *ssa.Store:
		a, v := p.opnd(c, in.Addr), p.opnd(c, in.Val)
		return func(fr *frame) {
			cell, ok := a.get(fr).(*Cell)
			if !ok {
				unsupported("store to %T at %s", a.get(fr), fr.where(in))
			}
			if cell == nil {
				fr.vm.nilDerefAt(fr.where(in))
			}
			fr.vm.curInstr = in
			fr.vm.store(cell, v.get(fr))
		}
	case *ssa.TypeAssert:
		return p.compileTypeAssert(c, in)
	}
	name := fmt.Sprintf("%T", instr)
	return func(fr *frame) { unsupported("instruction %s", name) }
}

func makeSlice(et types.Type, n, k int) SliceV {
	a := &ArrayV{e: make([]Cell, k)}
	switch under(et).(type) {
	case *types.Struct, *types.Array:
		for i := range a.e {
			a.e[i].v = zero(et)
		}
	default:
		z := zero(et)
		for i := range a.e {
			a.e[i].v = z
		}
	}
	return SliceV{arr: a, len: n, cap: k}
}

// index checks bounds and concretises an index.
func (vm *VM) index(i Value, signed bool, n int, fr *frame, in ssa.Instruction) int {
	switch x := i.(type) {
	case uint64:
		if x >= uint64(n) {
			vm.rtPanicAt(fmt.Sprintf("index out of range [%d] with length %d", int64(x), n), fr.where(in))
		}
		return int(x)
	case *Term:
		w := vm.tt.Resize(x, 64, signed)
		ok := val(vm.tt.Bin(OULt, w, vm.tt.Const(64, uint64(n))))
		if !vm.branchAt(ok, in) {
			vm.rtPanicAt(fmt.Sprintf("index out of range [symbolic] with length %d", n), fr.where(in))
		}
		return int(vm.concretize(w, in))
	}
	unsupported("index %T", i)
	return 0
}

func (p *Program) compileIndex(c *cfunc, in *ssa.Index) instrFn {
	d, x, i := c.slots[in], p.opnd(c, in.X), p.opnd(c, in.Index)
	_, signed, _ := basicSort(in.Index.Type())
	return func(fr *frame) {
		switch a := x.get(fr).(type) {
		case *ArrayV:
			fr.regs[d] = a.e[fr.vm.index(i.get(fr), signed, len(a.e), fr, in)].v
		case string, *SymStr:
			fr.regs[d] = strAt(a, fr.vm.index(i.get(fr), signed, strLen(a), fr, in))
		default:
			unsupported("index of %T", a)
		}
	}
}

func (p *Program) compileIndexAddr(c *cfunc, in *ssa.IndexAddr) instrFn {
	d, x, i := c.slots[in], p.opnd(c, in.X), p.opnd(c, in.Index)
	_, signed, _ := basicSort(in.Index.Type())
	return func(fr *frame) {
		switch a := x.get(fr).(type) {
		case SliceV:
			k := fr.vm.index(i.get(fr), signed, a.len, fr, in)
			fr.regs[d] = &a.arr.e[a.off+k]
		case *Cell:
			if a == nil {
				fr.vm.nilDerefAt(fr.where(in))
			}
			arr := a.v.(*ArrayV)
			fr.regs[d] = &arr.e[fr.vm.index(i.get(fr), signed, len(arr.e), fr, in)]
		default:
			unsupported("IndexAddr of %T at %s", a, fr.where(in))
		}
	}
}

func (p *Program) compileSlice(c *cfunc, in *ssa.Slice) instrFn {
	d, x := c.slots[in], p.opnd(c, in.X)
	var lo, hi, mx *opnd
	mk := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := p.opnd(c, v)
		return &o
	}
	lo, hi, mx = mk(in.Low), mk(in.High), mk(in.Max)
	get := func(fr *frame, o *opnd, def int, limit int) int {
		if o == nil {
			return def
		}
		switch v := o.get(fr).(type) {
		case uint64:
			if v > uint64(limit) {
				fr.vm.rtPanicAt(fmt.Sprintf("slice bounds out of range [%d] with limit %d", int64(v), limit), fr.where(in))
			}
			return int(v)
		case *Term:
			vm := fr.vm
			w := vm.tt.Resize(v, 64, true)
			if !vm.branchAt(val(vm.tt.Bin(OULe, w, vm.tt.Const(64, uint64(limit)))), in) {
				vm.rtPanicAt("slice bounds out of range [symbolic]", fr.where(in))
			}
			return int(vm.concretize(w, in))
		}
		unsupported("slice bound %T", o.get(fr))
		return 0
	}
	return func(fr *frame) {
		switch a := x.get(fr).(type) {
		case string, *SymStr:
			n := strLen(a)
			h := get(fr, hi, n, n)
			l := get(fr, lo, 0, h)
			fr.regs[d] = strSlice(a, l, h)
		case SliceV:
			m := get(fr, mx, a.cap, a.cap)
			h := get(fr, hi, a.len, m)
			l := get(fr, lo, 0, h)
			if a.arr == nil {
				fr.regs[d] = SliceV{}
				return
			}
			fr.regs[d] = SliceV{arr: a.arr, off: a.off + l, len: h - l, cap: m - l}
		case *Cell:
			if a == nil {
				fr.vm.nilDerefAt(fr.where(in))
			}
			arr := a.v.(*ArrayV)
			m := get(fr, mx, len(arr.e), len(arr.e))
			h := get(fr, hi, len(arr.e), m)
			l := get(fr, lo, 0, h)
			fr.regs[d] = SliceV{arr: arr, off: l, len: h - l, cap: m - l}
		default:
			unsupported("slice of %T at %s", a, fr.where(in))
		}
	}
}

func (p *Program) compileUnOp(c *cfunc, in *ssa.UnOp) instrFn {
	d, x := c.slots[in], p.opnd(c, in.X)
	switch in.Op {
	case token.MUL:
		return func(fr *frame) {
			cell, ok := x.get(fr).(*Cell)
			if !ok {
				unsupported("load of %T at %s", x.get(fr), fr.where(in))
			}
			if cell == nil {
				fr.vm.nilDerefAt(fr.where(in))
			}
			fr.vm.curInstr = in
			fr.regs[d] = fr.vm.load(cell)
		}
	case token.NOT:
		return func(fr *frame) { fr.regs[d] = fr.vm.not(x.get(fr)) }
	case token.ARROW:
		et := under(in.X.Type()).(*types.Chan).Elem()
		return func(fr *frame) {
			v, ok := fr.g.chanRecv(x.get(fr).(*ChanV), et, fr.where(in))
			if in.CommaOk {
				fr.regs[d] = Tuple{v, ok}
			} else {
				fr.regs[d] = v
			}
		}
	case token.SUB:
		s, _, _ := basicSort(in.Type())
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case uint64:
				fr.regs[d] = mask(s, -v)
			case float32:
				fr.regs[d] = -v
			case float64:
				fr.regs[d] = -v
			case *Term:
				if s >= SF32 {
					fr.regs[d] = val(fr.vm.tt.Un(OFNeg, s, v, 0, 0))
				} else {
					fr.regs[d] = val(fr.vm.tt.Bin(OSub, fr.vm.tt.Const(s, 0), v))
				}
			}
		}
	case token.XOR:
		s, _, _ := basicSort(in.Type())
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case uint64:
				fr.regs[d] = mask(s, ^v)
			case *Term:
				fr.regs[d] = val(fr.vm.tt.Bin(OBXor, v, fr.vm.tt.Const(s, ^uint64(0))))
			}
		}
	}
	panic("unop " + in.Op.String())
}

func (p *Program) compileBinOp(c *cfunc, in *ssa.BinOp) instrFn {
	d, x, y := c.slots[in], p.opnd(c, in.X), p.opnd(c, in.Y)
	t := in.X.Type()
	op := in.Op
	switch op {
	case token.EQL, token.NEQ:
		// comparing interface with concrete handled by ssa (both same type)
		return func(fr *frame) {
			r := fr.vm.eqVal(t, x.get(fr), y.get(fr))
			if op == token.NEQ {
				r = fr.vm.not(r)
			}
			fr.regs[d] = r
		}
	}
	s, signed, ok := basicSort(t)
	if !ok {
		b, _ := under(t).(*types.Basic)
		if b != nil && b.Info()&types.IsString != 0 {
			switch op {
			case token.ADD:
				return func(fr *frame) { fr.regs[d] = strCat(x.get(fr), y.get(fr)) }
			case token.LSS:
				return func(fr *frame) { fr.regs[d] = fr.vm.strLess(x.get(fr), y.get(fr)) }
			case token.GTR:
				return func(fr *frame) { fr.regs[d] = fr.vm.strLess(y.get(fr), x.get(fr)) }
			case token.LEQ:
				return func(fr *frame) { fr.regs[d] = fr.vm.not(fr.vm.strLess(y.get(fr), x.get(fr))) }
			case token.GEQ:
				return func(fr *frame) { fr.regs[d] = fr.vm.not(fr.vm.strLess(x.get(fr), y.get(fr))) }
			}
		}
		return func(fr *frame) { unsupported("binop %v on %v", op, t) }
	}
	if s == SF32 || s == SF64 {
		return func(fr *frame) { fr.regs[d] = fr.vm.floatOp(op, s, x.get(fr), y.get(fr)) }
	}
	ys, ysigned, _ := basicSort(in.Y.Type())
	switch op {
	case token.SHL, token.SHR:
		return func(fr *frame) { fr.regs[d] = fr.vm.shift(op, s, signed, x.get(fr), y.get(fr), ys, ysigned, fr, in) }
	}
	return func(fr *frame) {
		a, b := x.get(fr), y.get(fr)
		if p, ok := a.(uint64); ok {
			if q, ok := b.(uint64); ok {
				fr.regs[d] = intOp(fr, in, op, s, signed, p, q)
				return
			}
		}
		fr.regs[d] = fr.vm.symIntOp(fr, in, op, s, signed, a, b)
	}
}

func intOp(fr *frame, in ssa.Instruction, op token.Token, s Sort, signed bool, p, q uint64) Value {
	switch op {
	case token.ADD:
		return mask(s, p+q)
	case token.SUB:
		return mask(s, p-q)
	case token.MUL:
		return mask(s, p*q)
	case token.QUO, token.REM:
		if q == 0 {
			fr.vm.rtPanicAt("integer divide by zero", fr.where(in))
		}
		var o Op
		switch {
		case op == token.QUO && signed:
			o = OSDiv
		case op == token.QUO:
			o = OUDiv
		case signed:
			o = OSRem
		default:
			o = OURem
		}
		v, _ := evalOp(o, s, s, 0, 0, p, q, 0)
		return v
	case token.AND:
		return p & q
	case token.OR:
		return p | q
	case token.XOR:
		return p ^ q
	case token.AND_NOT:
		return p &^ q
	case token.LSS:
		if signed {
			return sext(s, p) < sext(s, q)
		}
		return p < q
	case token.LEQ:
		if signed {
			return sext(s, p) <= sext(s, q)
		}
		return p <= q
	case token.GTR:
		if signed {
			return sext(s, p) > sext(s, q)
		}
		return p > q
	case token.GEQ:
		if signed {
			return sext(s, p) >= sext(s, q)
		}
		return p >= q
	}
	unsupported("intOp %v", op)
	return nil
}

func (vm *VM) symIntOp(fr *frame, in ssa.Instruction, op token.Token, s Sort, signed bool, av, bv Value) Value {
	a, b := vm.term(av, s), vm.term(bv, s)
	tt := vm.tt
	pick := func(sg, us Op) Op {
		if signed {
			return sg
		}
		return us
	}
	switch op {
	case token.ADD:
		return val(tt.Bin(OAdd, a, b))
	case token.SUB:
		return val(tt.Bin(OSub, a, b))
	case token.MUL:
		return val(tt.Bin(OMul, a, b))
	case token.QUO, token.REM:
		if vm.branchAt(val(tt.Bin(OEq, b, tt.Const(s, 0))), in) {
			vm.rtPanicAt("integer divide by zero", fr.where(in))
		}
		if op == token.QUO {
			return val(tt.Bin(pick(OSDiv, OUDiv), a, b))
		}
		return val(tt.Bin(pick(OSRem, OURem), a, b))
	case token.AND:
		return val(tt.Bin(OBAnd, a, b))
	case token.OR:
		return val(tt.Bin(OBOr, a, b))
	case token.XOR:
		return val(tt.Bin(OBXor, a, b))
	case token.AND_NOT:
		return val(tt.Bin(OBAnd, a, tt.Bin(OBXor, b, tt.Const(s, ^uint64(0)))))
	case token.LSS:
		return val(tt.Bin(pick(OSLt, OULt), a, b))
	case token.LEQ:
		return val(tt.Bin(pick(OSLe, OULe), a, b))
	case token.GTR:
		return val(tt.Bin(pick(OSLt, OULt), b, a))
	case token.GEQ:
		return val(tt.Bin(pick(OSLe, OULe), b, a))
	}
	unsupported("symIntOp %v", op)
	return nil
}

func (vm *VM) shift(op token.Token, s Sort, signed bool, av, bv Value, ys Sort, ysigned bool, fr *frame, in ssa.Instruction) Value {
	if q, ok := bv.(uint64); ok {
		if ysigned && sext(ys, q) < 0 {
			vm.rtPanicAt("negative shift amount", fr.where(in))
		}
		o := OShl
		if op == token.SHR {
			o = OLShr
			if signed {
				o = OAShr
			}
		}
		if p, ok := av.(uint64); ok {
			v, _ := evalOp(o, s, s, 0, 0, p, q, 0)
			return v
		}
		if q > uint64(s) {
			q = uint64(s)
		}
		return val(vm.tt.Bin(o, vm.term(av, s), vm.tt.Const(s, q)))
	}
	b := bv.(*Term)
	tt := vm.tt
	if ysigned {
		if vm.branchAt(val(tt.Bin(OSLt, b, tt.Const(ys, 0))), in) {
			vm.rtPanicAt("negative shift amount", fr.where(in))
		}
	}
	var cnt *Term
	if ys > s {
		small := tt.Resize(b, s, false)
		if uint64(s) > mask(ys, ^uint64(0)) {
			cnt = small
		} else {
			cnt = tt.Ite(tt.Bin(OULt, b, tt.Const(ys, uint64(s))), small, tt.Const(s, uint64(s)))
		}
	} else {
		cnt = tt.Resize(b, s, false)
	}
	o := OShl
	if op == token.SHR {
		o = OLShr
		if signed {
			o = OAShr
		}
	}
	return val(tt.Bin(o, vm.term(av, s), cnt))
}

func (vm *VM) floatOp(op token.Token, s Sort, av, bv Value) Value {
	switch a := av.(type) {
	case float32:
		if b, ok := bv.(float32); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
	case float64:
		if b, ok := bv.(float64); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
	}
	a, b := vm.term(av, s), vm.term(bv, s)
	switch op {
	case token.ADD:
		return val(vm.tt.Bin(OFAdd, a, b))
	case token.SUB:
		return val(vm.tt.Bin(OFSub, a, b))
	case token.MUL:
		return val(vm.tt.Bin(OFMul, a, b))
	case token.QUO:
		return val(vm.tt.Bin(OFDiv, a, b))
	case token.LSS:
		return val(vm.tt.Bin(OFLt, a, b))
	case token.LEQ:
		return val(vm.tt.Bin(OFLe, a, b))
	case token.GTR:
		return val(vm.tt.Bin(OFLt, b, a))
	case token.GEQ:
		return val(vm.tt.Bin(OFLe, b, a))
	}
	unsupported("floatOp %v", op)
	return nil
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (p *Program) compileConvert(c *cfunc, in ssa.Value, xv ssa.Value, to types.Type) instrFn {
	d, x := c.slots[in], p.opnd(c, xv)
	from := xv.Type()
	fs, fsigned, fok := basicSort(from)
	ts, tsigned, tok := basicSort(to)
	switch {
	case fok && tok:
		return func(fr *frame) { fr.regs[d] = fr.vm.convNum(x.get(fr), fs, fsigned, ts, tsigned) }
	case isString(to):
		if sl, ok := under(from).(*types.Slice); ok {
			if es, _, _ := basicSort(sl.Elem()); es == 8 {
				return func(fr *frame) { fr.regs[d] = fr.vm.sliceToStr(x.get(fr).(SliceV)) }
			}
			return func(fr *frame) { // []rune
				s := x.get(fr).(SliceV)
				var out Value = ""
				for i := 0; i < s.len; i++ {
					out = strCat(out, fr.vm.runeToStr(fr.vm.load(&s.arr.e[s.off+i])))
				}
				fr.regs[d] = out
			}
		}
		if fok {
			return func(fr *frame) { fr.regs[d] = fr.vm.runeToStr(x.get(fr)) }
		}
		return func(fr *frame) { fr.regs[d] = x.get(fr) }
	case isString(from):
		if sl, ok := under(to).(*types.Slice); ok {
			if es, _, _ := basicSort(sl.Elem()); es == 8 {
				return func(fr *frame) { fr.regs[d] = strToSlice(x.get(fr)) }
			}
			return func(fr *frame) {
				it := &strIter{s: x.get(fr)}
				var rs []Value
				for {
					t := it.next(fr.vm, fr.g).(Tuple)
					if t[0] == false {
						break
					}
					rs = append(rs, t[2])
				}
				a := &ArrayV{e: make([]Cell, len(rs))}
				for i, r := range rs {
					a.e[i].v = r
				}
				fr.regs[d] = SliceV{arr: a, len: len(rs), cap: len(rs)}
			}
		}
	}
	// pointer / unsafe.Pointer / slice / named conversions keep the representation
	return func(fr *frame) { fr.regs[d] = x.get(fr) }
}

func (vm *VM) sliceToStr(s SliceV) Value {
	b := make([]Value, s.len)
	for i := range b {
		b[i] = vm.load(&s.arr.e[s.off+i])
	}
	return mkStr(b)
}

func strToSlice(v Value) SliceV {
	n := strLen(v)
	a := &ArrayV{e: make([]Cell, n)}
	for i := 0; i < n; i++ {
		a.e[i].v = strAt(v, i)
	}
	return SliceV{arr: a, len: n, cap: n}
}

func (vm *VM) runeToStr(v Value) Value {
	switch r := v.(type) {
	case uint64:
		return string(rune(sext(32, mask(32, r))))
	case *Term:
		if vm.branch(val(vm.tt.Bin(OULt, r, vm.tt.Const(r.sort, 0x80)))) {
			return mkStr([]Value{val(vm.tt.Resize(r, 8, false))})
		}
		return string(rune(vm.concretize(r, nil)))
	}
	unsupported("runeToStr %T", v)
	return nil
}

func (vm *VM) convNum(v Value, fs Sort, fsigned bool, ts Sort, tsigned bool) Value {
	fFloat, tFloat := fs == SF32 || fs == SF64, ts == SF32 || ts == SF64
	switch x := v.(type) {
	case bool:
		return x
	case uint64:
		switch {
		case !tFloat:
			if fsigned {
				return mask(ts, uint64(sext(fs, x)))
			}
			return mask(ts, x)
		case ts == SF32:
			if fsigned {
				return float32(sext(fs, x))
			}
			return float32(x)
		default:
			if fsigned {
				return float64(sext(fs, x))
			}
			return float64(x)
		}
	case float32:
		return vm.convFloat(float64(x), ts, tsigned)
	case float64:
		return vm.convFloat(x, ts, tsigned)
	case *Term:
		tt := vm.tt
		switch {
		case fFloat && tFloat:
			return val(tt.Un(OFToF, ts, x, 0, 0))
		case fFloat:
			// out-of-range float-to-int conversions are implementation-defined in Go: use the amd64 result
			if !tsigned && ts == 64 {
				unsupported("symbolic float to uint64")
			}
			w := Sort(64)
			if ts == 32 && tsigned {
				w = 32
			}
			lim := math.Ldexp(1, int(w)-1)
			lo := tt.Const(fs, fbits(fs, -lim))
			hi := tt.Const(fs, fbits(fs, lim))
			in := tt.And(tt.Bin(OFLe, lo, x), tt.Bin(OFLt, x, hi))
			r := tt.Ite(in, tt.Un(OFToS, w, x, 0, 0), tt.Const(w, 1<<(w-1)))
			return val(tt.Resize(r, ts, true))
		case tFloat && fsigned:
			return val(tt.Un(OSToF, ts, x, 0, 0))
		case tFloat:
			return val(tt.Un(OUToF, ts, x, 0, 0))
		default:
			return val(tt.Resize(x, ts, fsigned))
		}
	}
	unsupported("convNum %T", v)
	return nil
}

func (vm *VM) convFloat(f float64, ts Sort, tsigned bool) Value {
	switch ts {
	case SF32:
		return float32(f)
	case SF64:
		return f
	case 64:
		if tsigned {
			return uint64(int64(f))
		}
		return uint64(f)
	case 32:
		if tsigned {
			return uint64(uint32(int32(f)))
		}
		return uint64(uint32(f))
	}
	return mask(ts, uint64(int64(f)))
}

func (p *Program) compileTypeAssert(c *cfunc, in *ssa.TypeAssert) instrFn {
	d, x := c.slots[in], p.opnd(c, in.X)
	at := canon(in.AssertedType)
	iface, isIface := under(at).(*types.Interface)
	return func(fr *frame) {
		v, ok2 := x.get(fr).(IfaceV)
		if !ok2 {
			unsupported("type assert on %T at %s", x.get(fr), fr.where(in))
		}
		var ok bool
		var res Value
		if v.t != nil {
			if isIface {
				ok = fr.vm.p.implements(v.t, iface, at)
				res = v
			} else {
				ok = types.Identical(v.t, at)
				if ok {
					res = copyVal(v.v)
				}
			}
		}
		if !ok {
			if !in.CommaOk {
				dyn := "nil"
				if v.t != nil {
					dyn = v.t.String()
				}
				fr.vm.rtPanicAt(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, at), fr.where(in))
			}
			res = zero(at)
		}
		if in.CommaOk {
			fr.regs[d] = Tuple{res, ok}
		} else {
			fr.regs[d] = res
		}
	}
}

type implKey struct{ t, i types.Type }

func (p *Program) implements(t types.Type, iface *types.Interface, it types.Type) bool {
	k := implKey{canon(t), it}
	if r, ok := p.impls.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, iface)
	p.impls.Store(k, r)
	return r
}
