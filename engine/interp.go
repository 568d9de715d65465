package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// goPanic is a panic of the interpreted program.
type goPanic struct {
	v  Value
	at string
}

// pathEnd ends the current path from whichever goroutine is running.
type pathEnd struct{ kind, msg string }

// killed unwinds host goroutines of a finished path.
type killedT struct{}

func (vm *VM) curWhere() string {
	if vm.cur != nil && vm.cur.fr != nil && vm.curInstr != nil {
		return posOf(vm.p, vm.curInstr)
	}
	return "?"
}

func posOf(p *Program, in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	pos := p.prog.Fset.Position(in.Pos())
	return fmt.Sprintf("%s (%s:%d)", in.Parent().String(), pos.Filename, pos.Line)
}

func (vm *VM) nilDeref() { vm.nilDerefAt(vm.curWhere()) }
func (vm *VM) nilDerefAt(at string) {
	vm.rtPanicAt("invalid memory address or nil pointer dereference", at)
}
func (vm *VM) rtPanic(msg string) { vm.rtPanicAt(msg, vm.stackTop()) }
func (vm *VM) rtPanicAt(msg, at string) {
	t := vm.p.namedType("runtime", "errorString")
	if t == nil {
		unsupported("runtime.errorString missing")
	}
	panic(goPanic{v: IfaceV{t: t, v: msg}, at: at})
}

func (vm *VM) stackTop() string {
	if vm.cur == nil {
		return "?"
	}
	for fr := vm.cur.fr; fr != nil; fr = fr.caller {
		if fr.cf != nil {
			return fr.cf.name
		}
	}
	return "?"
}

func (vm *VM) stack() []string {
	var r []string
	if vm.cur == nil {
		return nil
	}
	for fr := vm.cur.fr; fr != nil && len(r) < 30; fr = fr.caller {
		if fr.cf != nil {
			r = append(r, fr.cf.name)
		}
	}
	return r
}

func (p *Program) namedType(pkg, name string) types.Type {
	sp := p.pkgByPath[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return canon(o.Type())
}

func (p *Program) ptrTo(t types.Type) types.Type { return canon(types.NewPointer(t)) }

// ---- globals and package initialisation

func (vm *VM) globalCell(g *ssa.Global, idx int) *Cell {
	for idx >= len(vm.globals) {
		vm.globals = append(vm.globals, nil)
	}
	if c := vm.globals[idx]; c != nil {
		return c
	}
	vm.initPkg(g.Pkg)
	if c := vm.globals[idx]; c != nil {
		return c
	}
	return vm.rawGlobal(g, idx)
}

func (vm *VM) rawGlobal(g *ssa.Global, idx int) *Cell {
	for idx >= len(vm.globals) {
		vm.globals = append(vm.globals, nil)
	}
	if c := vm.globals[idx]; c != nil {
		return c
	}
	c := &Cell{}
	t := g.Type().(*types.Pointer).Elem()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(engineError); ok {
					c.v = Poison{"zero of " + t.String()}
					return
				}
				panic(r)
			}
		}()
		c.v = zero(t)
	}()
	vm.globals[idx] = c
	return c
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "internal/poll": true, "reflect": true, "unsafe": true,
	"net": true, "crypto/tls": true, "net/http": true, "log": true, "testing": true, "flag": true,
	"crypto/x509": true, "internal/godebug": true, "expvar": true,
}

// initPkg runs a package's initialiser, tolerating instructions it cannot execute.
func (vm *VM) initPkg(pkg *ssa.Package) {
	if pkg == nil || vm.initDone[pkg] {
		return
	}
	vm.initDone[pkg] = true
	// create every global of the package first
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			vm.rawGlobal(g, vm.p.globalIdx(g))
		}
	}
	path := pkg.Pkg.Path()
	if skipInit[path] {
		return
	}
	initFn := pkg.Func("init")
	if initFn == nil {
		return
	}
	savedMode, savedRace, savedG := vm.initMode, vm.race, vm.cur
	vm.initMode = true
	vm.race = nil
	g := &Gor{vm: vm, id: -1, init: true}
	vm.cur = g
	savedSteps := vm.steps
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case engineError, goPanic:
				default:
					panic(r)
				}
			}
		}()
		vm.runInit(g, initFn)
	}()
	vm.steps = savedSteps
	for _, c := range vm.initOnces {
		vm.frozenOnce[c] = true
	}
	vm.initMode, vm.race, vm.cur = savedMode, savedRace, savedG
	if !vm.initMode {
		vm.freezeGlobals()
	}
}

func (vm *VM) freezeGlobals() {
	seen := map[any]bool{}
	for i, c := range vm.globals {
		if c == nil || (i < len(vm.globFrozen) && vm.globFrozen[i]) {
			continue
		}
		freezeCell(c, seen)
		for i >= len(vm.globFrozen) {
			vm.globFrozen = append(vm.globFrozen, false)
		}
		vm.globFrozen[i] = true
	}
}

// runInit executes an init function, replacing results of failing instructions with Poison.
func (vm *VM) runInit(g *Gor, fn *ssa.Function) {
	cf := vm.p.cfn(fn)
	vm.p.ensure(cf)
	if cf.native != nil || cf.external {
		return
	}
	fr := &frame{vm: vm, g: g, cf: cf, regs: make([]Value, cf.nregs), caller: g.fr, prev: -1}
	old := g.fr
	g.fr = fr
	defer func() { g.fr = old }()
	steps := 0
	for {
		b := &cf.blocks[fr.block]
		fr.doPhis(b)
		for i, f := range b.ins {
			if steps++; steps > 2_000_000 {
				return
			}
			if c, ok := b.src[i].(*ssa.Call); ok {
				if callee, ok := c.Call.Value.(*ssa.Function); ok && callee.Name() == "init" && callee.Signature.Recv() == nil {
					continue // imported packages are initialised on demand
				}
				if callee, ok := c.Call.Value.(*ssa.Function); ok && strings.HasPrefix(callee.Name(), "init#") {
					func() {
						defer tolerant(fr, b.dst[i])
						vm.runInit(g, callee)
					}()
					continue
				}
			}
			if _, ok := b.src[i].(*ssa.Go); ok {
				continue
			}
			func() {
				defer tolerant(fr, b.dst[i])
				f(fr)
			}()
		}
		nb := func() (r int) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(killedT); ok {
						panic(e)
					}
					r = -1
					if iff, ok := lastIf(cf, fr.block); ok {
						_ = iff
						// a condition that could not be computed: the initialiser guard takes the first successor
						r = -1
					}
				}
			}()
			return b.term(fr)
		}()
		if nb < 0 {
			return
		}
		fr.prev, fr.block = fr.block, nb
	}
}

func lastIf(cf *cfunc, b int) (*ssa.If, bool) {
	ins := cf.fn.Blocks[b].Instrs
	i, ok := ins[len(ins)-1].(*ssa.If)
	return i, ok
}

func tolerant(fr *frame, dst int) {
	if r := recover(); r != nil {
		switch e := r.(type) {
		case engineError:
			if dst >= 0 {
				fr.regs[dst] = Poison{e.msg}
			}
		case goPanic:
			if dst >= 0 {
				fr.regs[dst] = Poison{"panic in init"}
			}
		case killedT, pathEnd:
			panic(r)
		default:
			if dst >= 0 {
				fr.regs[dst] = Poison{fmt.Sprint(r)}
			}
		}
	}
}

// ---- frames

func (fr *frame) doPhis(b *cblock) {
	if len(b.phis) == 0 {
		return
	}
	pi := -1
	blk := fr.cf.fn.Blocks[fr.block]
	for i, p := range blk.Preds {
		if p.Index == fr.prev {
			pi = i
			break
		}
	}
	if pi < 0 {
		unsupported("phi predecessor in %s", fr.cf.name)
	}
	if len(b.phis) == 1 {
		fr.regs[b.phiDst[0]] = b.phiSrc[0][pi].get(fr)
		return
	}
	var tmp [8]Value
	vals := tmp[:0]
	for i := range b.phis {
		vals = append(vals, b.phiSrc[i][pi].get(fr))
	}
	for i := range b.phis {
		fr.regs[b.phiDst[i]] = vals[i]
	}
}

func (fr *frame) loop() {
	vm := fr.vm
	for {
		b := &fr.cf.blocks[fr.block]
		fr.doPhis(b)
		vm.steps += len(b.ins) + 1
		if vm.steps > vm.maxSteps {
			panic(pathEnd{"budget", "step budget exceeded in " + fr.cf.name})
		}
		for _, f := range b.ins {
			f(fr)
		}
		nb := b.term(fr)
		if nb < 0 {
			fr.block = -1
			return
		}
		fr.prev, fr.block = fr.block, nb
	}
}

func (fr *frame) runProtected() {
	defer func() {
		if fr.block == -1 {
			return
		}
		r := recover()
		gp, ok := r.(goPanic)
		if !ok {
			panic(r)
		}
		fr.g.fr = fr
		fr.panicking = true
		fr.panicVal = gp
		fr.runDefers()
		// recovered
		if fr.cf.recov >= 0 {
			fr.prev = -1
			fr.block = fr.cf.recov
			fr.loop()
		} else {
			fr.result = zeroResult(fr.cf.fn)
			fr.block = -1
		}
	}()
	fr.loop()
}

func zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *frame) runDefer(d *deferRec) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		gp, is := r.(goPanic)
		if !is {
			panic(r)
		}
		fr.g.fr = fr
		fr.panicking = true
		fr.panicVal = gp
	}()
	d.run()
	ok = true
}

const maxDepth = 1500

// callFn runs a function to completion and returns its result.
func (vm *VM) callFn(g *Gor, fn *ssa.Function, env []Value, args []Value, deferred bool) Value {
	cf := vm.p.cfn(fn)
	vm.p.ensure(cf)
	if !cf.hit.Load() {
		cf.hit.Store(true)
	}
	if cf.native != nil {
		return cf.native(vm, g, g.fr, args)
	}
	if cf.external {
		// assembly: the portable version, when there is one, does the same
		if fn.Pkg != nil {
			if m, ok := fn.Pkg.Members[fn.Name()+"Generic"].(*ssa.Function); ok && m.Blocks != nil && types.Identical(m.Signature, fn.Signature) {
				return vm.callFn(g, m, env, args, deferred)
			}
		}
		unsupported("external function %s", cf.name)
	}
	if g.depth++; g.depth > maxDepth {
		panic(pathEnd{"budget", "call depth exceeded in " + cf.name})
	}
	fr := &frame{vm: vm, g: g, cf: cf, regs: make([]Value, cf.nregs), caller: g.fr, prev: -1, isDeferred: deferred}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	old, oldDepth := g.fr, g.depth
	g.fr = fr
	if cf.hasDefer {
		func() {
			defer func() { g.fr, g.depth = old, oldDepth-1 }()
			fr.runProtected()
		}()
	} else {
		fr.loop()
	}
	g.fr = old
	g.depth = oldDepth - 1
	return fr.result
}

func (vm *VM) call(g *Gor, f *FuncV, args []Value) Value { return vm.callF(g, f, args, false) }

func (vm *VM) callF(g *Gor, f *FuncV, args []Value, deferred bool) Value {
	if f == nil {
		vm.nilDerefAt("call of nil func in " + vm.stackTop())
	}
	if f.native != nil {
		return f.native(vm, g, args)
	}
	return vm.callFn(g, f.fn, f.env, args, deferred)
}

type methKey struct {
	t types.Type
	m *types.Func
}

// method finds the implementation of an interface method for a dynamic type.
func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := p.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	f := p.lookupMethod(t, m.Pkg(), m.Name())
	if f != nil {
		p.methods.Store(k, f)
	}
	return f
}

func (p *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	return p.prog.MethodValue(sel)
}

// invoke calls method m on an interface value.
func (vm *VM) invoke(g *Gor, recv Value, m *types.Func, args []Value, deferred bool) Value {
	iv, ok := recv.(IfaceV)
	if !ok {
		unsupported("invoke %s on %T", m.Name(), recv)
	}
	if iv.t == nil {
		vm.nilDerefAt("method " + m.Name() + " on nil interface in " + vm.stackTop())
	}
	switch x := iv.v.(type) {
	case *Native, *MsgHandle, *ListHandle, *MapHandle, Poison:
		return vm.nativeInvoke(g, iv, x, m.Name(), args)
	}
	f := vm.p.method(canon(iv.t), m)
	if f == nil {
		unsupported("no method %s on %v", m.Name(), iv.t)
	}
	full := make([]Value, 0, len(args)+1)
	full = append(full, iv.v)
	full = append(full, args...)
	return vm.callFn(g, f, nil, full, deferred)
}

// callMethod calls a method by name on a (type, value).
func (vm *VM) callMethod(g *Gor, iv IfaceV, name string, args ...Value) (Value, bool) {
	f := vm.p.lookupMethod(canon(iv.t), nil, name)
	if f == nil {
		return nil, false
	}
	return vm.callFn(g, f, nil, append([]Value{iv.v}, args...), false), true
}

type callPlan struct {
	fn      *ssa.Function
	builtin string
	bfn     *ssa.Builtin
	val     opnd
	method  *types.Func
	args    []opnd
	cc      *ssa.CallCommon
}

func (p *Program) planCall(c *cfunc, cc *ssa.CallCommon) *callPlan {
	pl := &callPlan{cc: cc}
	for _, a := range cc.Args {
		pl.args = append(pl.args, p.opnd(c, a))
	}
	if cc.IsInvoke() {
		pl.val = p.opnd(c, cc.Value)
		pl.method = cc.Method
		return pl
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		pl.fn = v
	case *ssa.Builtin:
		pl.bfn = v
		pl.builtin = v.Name()
	default:
		pl.val = p.opnd(c, cc.Value)
	}
	return pl
}

func (pl *callPlan) evalArgs(fr *frame) []Value {
	args := make([]Value, len(pl.args))
	for i := range pl.args {
		args[i] = pl.args[i].get(fr)
	}
	return args
}

func (p *Program) compileCall(c *cfunc, cc *ssa.CallCommon, in ssa.Instruction) func(fr *frame) Value {
	pl := p.planCall(c, cc)
	switch {
	case pl.method != nil:
		return func(fr *frame) Value {
			fr.vm.curInstr = in
			return fr.vm.invoke(fr.g, pl.val.get(fr), pl.method, pl.evalArgs(fr), false)
		}
	case pl.fn != nil:
		return func(fr *frame) Value {
			fr.vm.curInstr = in
			return fr.vm.callFn(fr.g, pl.fn, nil, pl.evalArgs(fr), false)
		}
	case pl.builtin != "":
		return p.compileBuiltin(c, pl, in)
	}
	return func(fr *frame) Value {
		fr.vm.curInstr = in
		f, ok := pl.val.get(fr).(*FuncV)
		if !ok {
			unsupported("call of %T in %s", pl.val.get(fr), fr.cf.name)
		}
		return fr.vm.callF(fr.g, f, pl.evalArgs(fr), false)
	}
}

func (p *Program) compileDefer(c *cfunc, in *ssa.Defer) instrFn {
	pl := p.planCall(c, &in.Call)
	return func(fr *frame) {
		if in.DeferStack != nil {
			unsupported("defer in range-over-func")
		}
		run := pl.bind(fr, in)
		fr.defers = &deferRec{run: run, next: fr.defers}
	}
}

// bind evaluates the callee and arguments now and returns the call to perform later.
func (pl *callPlan) bind(fr *frame, in ssa.Instruction) func() {
	vm := fr.vm
	args := pl.evalArgs(fr)
	switch {
	case pl.method != nil:
		recv := pl.val.get(fr)
		if iv, ok := recv.(IfaceV); ok && iv.t == nil {
			vm.nilDerefAt(fr.where(in))
		}
		return func() { vm.invoke(fr.g, recv, pl.method, args, true) }
	case pl.fn != nil:
		return func() { vm.callFn(fr.g, pl.fn, nil, args, true) }
	case pl.builtin != "":
		return func() { vm.builtin(fr, pl, args, in) }
	}
	f, ok := pl.val.get(fr).(*FuncV)
	if !ok {
		unsupported("defer/go of %T", pl.val.get(fr))
	}
	return func() { vm.callF(fr.g, f, args, true) }
}

func (p *Program) compileGo(c *cfunc, in *ssa.Go) instrFn {
	pl := p.planCall(c, &in.Call)
	return func(fr *frame) {
		vm := fr.vm
		if vm.initMode {
			return
		}
		args := pl.evalArgs(fr)
		name := ""
		var start func(g *Gor)
		switch {
		case pl.method != nil:
			recv := pl.val.get(fr)
			name = pl.method.Name()
			start = func(g *Gor) { vm.invoke(g, recv, pl.method, args, false) }
		case pl.fn != nil:
			name = pl.fn.String()
			start = func(g *Gor) { vm.callFn(g, pl.fn, nil, args, false) }
		case pl.builtin != "":
			unsupported("go builtin")
		default:
			f := pl.val.get(fr).(*FuncV)
			if f != nil && f.fn != nil {
				name = f.fn.String()
			}
			start = func(g *Gor) { vm.callF(g, f, args, false) }
		}
		vm.spawn(name+" at "+fr.where(in), start)
	}
}

func (p *Program) compileBuiltin(c *cfunc, pl *callPlan, in ssa.Instruction) func(fr *frame) Value {
	switch pl.builtin {
	case "ssa:wrapnilchk":
		x := pl.args[0]
		return func(fr *frame) Value {
			v := x.get(fr)
			if cell, ok := v.(*Cell); ok && cell == nil {
				fr.vm.rtPanicAt("value method called using nil pointer", fr.where(in))
			}
			return v
		}
	case "len":
		x := pl.args[0]
		return func(fr *frame) Value {
			switch v := x.get(fr).(type) {
			case SliceV:
				return uint64(v.len)
			case string:
				return uint64(len(v))
			}
			return fr.vm.builtin(fr, pl, []Value{x.get(fr)}, in)
		}
	}
	return func(fr *frame) Value { return fr.vm.builtin(fr, pl, pl.evalArgs(fr), in) }
}

func (vm *VM) builtin(fr *frame, pl *callPlan, args []Value, in ssa.Instruction) Value {
	switch pl.builtin {
	case "len":
		switch v := args[0].(type) {
		case SliceV:
			return uint64(v.len)
		case string, *SymStr:
			return uint64(strLen(v))
		case *MapV:
			return uint64(vm.mapLen(v))
		case *ChanV:
			if v == nil {
				return uint64(0)
			}
			return uint64(len(v.buf))
		case *ArrayV:
			return uint64(len(v.e))
		case *Cell:
			return uint64(len(v.v.(*ArrayV).e))
		}
	case "cap":
		switch v := args[0].(type) {
		case SliceV:
			return uint64(v.cap)
		case *ChanV:
			if v == nil {
				return uint64(0)
			}
			return uint64(v.cap)
		case *ArrayV:
			return uint64(len(v.e))
		case *Cell:
			return uint64(len(v.v.(*ArrayV).e))
		}
	case "append":
		return vm.appendB(fr, args, pl, in)
	case "copy":
		return vm.copyB(args)
	case "delete":
		vm.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *MapV:
			vm.mapClear(v)
		case SliceV:
			et := under(pl.cc.Args[0].Type()).(*types.Slice).Elem()
			for i := 0; i < v.len; i++ {
				vm.store(&v.arr.e[v.off+i], zero(et))
			}
		}
		return nil
	case "close":
		fr.g.chanClose(args[0].(*ChanV), fr.where(in))
		return nil
	case "panic":
		panic(goPanic{v: args[0], at: fr.where(in)})
	case "recover":
		// fr is the frame calling recover; it must be a deferred call of a panicking frame
		if fr.isDeferred && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			gp := fr.caller.panicVal.(goPanic)
			if iv, ok := gp.v.(IfaceV); ok {
				return iv
			}
			return gp.v
		}
		return IfaceV{}
	case "print", "println":
		return nil
	case "min", "max":
		t := pl.cc.Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			var lt Value
			if isString(t) {
				if pl.builtin == "min" {
					lt = vm.strLess(a, r)
				} else {
					lt = vm.strLess(r, a)
				}
				if vm.branchAt(lt, in) {
					r = a
				}
				continue
			}
			s, signed, _ := basicSort(t)
			x, y := a, r
			if pl.builtin == "max" {
				x, y = r, a
			}
			if s == SF32 || s == SF64 {
				if isNaNv(vm, r, s, in) {
					continue
				}
				if isNaNv(vm, a, s, in) {
					r = a
					continue
				}
			}
			lt = vm.lessNum(x, y, s, signed)
			r = vm.iteScalar(lt, a, r, s)
		}
		return r
	case "String": // unsafe.String
		n := int(vm.concInt(args[1], 64))
		if n == 0 {
			return ""
		}
	case "SliceData", "StringData", "Slice":
	case "real", "imag", "complex":
	}
	unsupported("builtin %s on %T in %s", pl.builtin, args[0], fr.cf.name)
	return nil
}

func isNaNv(vm *VM, v Value, s Sort, in ssa.Instruction) bool {
	t := val(vm.tt.Un(OFNaN, SBool, vm.term(v, s), 0, 0))
	return vm.branchAt(t, in)
}

func (vm *VM) lessNum(a, b Value, s Sort, signed bool) Value {
	op := OULt
	if signed {
		op = OSLt
	}
	if s == SF32 || s == SF64 {
		op = OFLt
	}
	return val(vm.tt.Bin(op, vm.term(a, s), vm.term(b, s)))
}

func growCap(old, need int) int {
	if old == 0 {
		return need
	}
	n := old
	for n < need {
		if n < 256 {
			n *= 2
		} else {
			n += (n + 768) / 4
		}
	}
	return n
}

func (vm *VM) appendB(fr *frame, args []Value, pl *callPlan, in ssa.Instruction) Value {
	s, ok := args[0].(SliceV)
	if !ok {
		unsupported("append to %T", args[0])
	}
	var els []Value
	switch x := args[1].(type) {
	case string, *SymStr:
		els = strBytes(x)
	case SliceV:
		els = make([]Value, x.len)
		for i := range els {
			els[i] = vm.load(&x.arr.e[x.off+i])
		}
	default:
		unsupported("append of %T", args[1])
	}
	if len(els) == 0 {
		return s
	}
	return vm.appendVals(s, els)
}

func (vm *VM) appendVals(s SliceV, els []Value) SliceV {
	n := s.len + len(els)
	if n <= s.cap && s.arr != nil {
		for i, e := range els {
			vm.store(&s.arr.e[s.off+s.len+i], e)
		}
		return SliceV{arr: s.arr, off: s.off, len: n, cap: s.cap}
	}
	k := growCap(s.cap, n)
	a := &ArrayV{e: make([]Cell, k)}
	for i := 0; i < s.len; i++ {
		a.e[i].v = vm.load(&s.arr.e[s.off+i])
	}
	for i, e := range els {
		a.e[s.len+i].v = copyVal(e)
	}
	if k > n {
		z := zeroLike(els[0])
		for i := n; i < k; i++ {
			a.e[i].v = copyVal(z)
		}
	}
	return SliceV{arr: a, len: n, cap: k}
}

// zeroLike gives the zero value for the representation of v.
func zeroLike(v Value) Value {
	switch v := v.(type) {
	case bool:
		return false
	case uint64:
		return uint64(0)
	case float32:
		return float32(0)
	case float64:
		return float64(0)
	case string, *SymStr:
		return ""
	case *Term:
		switch v.sort {
		case SBool:
			return false
		case SF32:
			return float32(0)
		case SF64:
			return float64(0)
		}
		return uint64(0)
	case *Cell:
		return (*Cell)(nil)
	case SliceV:
		return SliceV{}
	case *MapV:
		return (*MapV)(nil)
	case *ChanV:
		return (*ChanV)(nil)
	case *FuncV:
		return (*FuncV)(nil)
	case IfaceV:
		return IfaceV{}
	case PRefValue:
		return PRefValue{}
	case *StructV:
		n := &StructV{f: make([]Cell, len(v.f))}
		for i := range v.f {
			n.f[i].v = zeroLike(v.f[i].v)
		}
		return n
	case *ArrayV:
		n := &ArrayV{e: make([]Cell, len(v.e))}
		for i := range v.e {
			n.e[i].v = zeroLike(v.e[i].v)
		}
		return n
	}
	return Poison{"zeroLike"}
}

func (vm *VM) copyB(args []Value) Value {
	d := args[0].(SliceV)
	var els []Value
	switch x := args[1].(type) {
	case string, *SymStr:
		els = strBytes(x)
	case SliceV:
		els = make([]Value, x.len)
		for i := range els {
			if i >= d.len {
				break
			}
			els[i] = vm.load(&x.arr.e[x.off+i])
		}
	}
	n := min(d.len, len(els))
	for i := 0; i < n; i++ {
		vm.store(&d.arr.e[d.off+i], els[i])
	}
	return uint64(n)
}

// concSize concretises a make() size.
func (vm *VM) concSize(v Value, fr *frame, in ssa.Instruction) int {
	switch x := v.(type) {
	case uint64:
		if int64(x) < 0 || x > 1<<24 {
			if int64(x) < 0 || x > 1<<40 {
				vm.rtPanicAt("makeslice: len out of range", fr.where(in))
			}
			panic(pathEnd{"budget", fmt.Sprintf("make of size %d", x)})
		}
		return int(x)
	case *Term:
		w := vm.tt.Resize(x, 64, true)
		if vm.branchAt(val(vm.tt.Bin(OSLt, w, vm.tt.Const(64, 0))), in) {
			vm.rtPanicAt("makeslice: len out of range", fr.where(in))
		}
		n := vm.concretize(w, in)
		return vm.concSize(n, fr, in)
	}
	unsupported("size %T", v)
	return 0
}

func (vm *VM) concInt(v Value, s Sort) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case bool:
		if x {
			return 1
		}
		return 0
	case *Term:
		return vm.concretize(x, vm.curInstr)
	}
	unsupported("concInt %T", v)
	return 0
}

// ---- iterators

type iterator interface {
	next(vm *VM, g *Gor) Value
}

type mapIterT struct {
	m     *MapV
	mt    *types.Map
	order []int
	pos   int
}

// mapIter iterates in insertion order (one of the orders Go permits), or in the
// reverse order when the harness asks for both.
func (vm *VM) mapIter(m *MapV, mt *types.Map) iterator {
	it := &mapIterT{m: m, mt: mt}
	if m != nil {
		if vm.race != nil {
			vm.raceRead(&m.raceCell)
		}
		for i := range m.keys {
			if m.live[i] {
				it.order = append(it.order, i)
			}
		}
		if vm.mapOrder && len(it.order) > 1 && !vm.initMode {
			if vm.choose("maporder", 2) == 1 {
				for i, j := 0, len(it.order)-1; i < j; i, j = i+1, j-1 {
					it.order[i], it.order[j] = it.order[j], it.order[i]
				}
			}
		}
	}
	return it
}

func (it *mapIterT) next(vm *VM, g *Gor) Value {
	for it.pos < len(it.order) {
		i := it.order[it.pos]
		it.pos++
		if i < len(it.m.live) && it.m.live[i] {
			return Tuple{true, copyVal(it.m.keys[i]), copyVal(it.m.vals[i])}
		}
	}
	return Tuple{false, zero(it.mt.Key()), zero(it.mt.Elem())}
}

type strIter struct {
	s   Value
	pos int
}

func (it *strIter) next(vm *VM, g *Gor) Value {
	n := strLen(it.s)
	if it.pos >= n {
		return Tuple{false, uint64(0), uint64(0)}
	}
	p := it.pos
	if s, ok := it.s.(string); ok {
		for i, r := range s[p:] {
			_ = i
			sz := len(string(r))
			if r == 0xfffd && s[p] != 0xef {
				sz = 1
			}
			it.pos += sz
			return Tuple{true, uint64(p), uint64(uint32(r))}
		}
	}
	b := strAt(it.s, p)
	if u, ok := b.(uint64); ok && u < 0x80 {
		it.pos++
		return Tuple{true, uint64(p), u}
	}
	if t, ok := b.(*Term); ok {
		if vm.branch(val(vm.tt.Bin(OULt, t, vm.tt.Const(8, 0x80)))) {
			it.pos++
			return Tuple{true, uint64(p), val(vm.tt.Resize(t, 32, false))}
		}
	}
	// multi-byte sequences: concretise the rest
	cs := vm.concStr(it.s)
	it.s = cs
	return it.next(vm, g)
}

// concStr forces a string to concrete bytes.
func (vm *VM) concStr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, x := range s.b {
			b[i] = byte(vm.concInt(x, 8))
		}
		return string(b)
	}
	unsupported("concStr %T", v)
	return ""
}
