package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	pref "google.golang.org/protobuf/reflect/protoreflect"
)

var intrinsics = map[string]intrinsic{}

func reg(names string, f intrinsic) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = f
	}
}

func cellArg(vm *VM, v Value) *Cell {
	c, ok := v.(*Cell)
	if !ok {
		unsupported("pointer expected, got %T", v)
	}
	if c == nil {
		vm.nilDeref()
	}
	return c
}

func isMsgStruct(t types.Type) bool {
	st, ok := under(t).(*types.Struct)
	if !ok || st.NumFields() == 0 {
		return false
	}
	return st.Field(0).Name() == "state" && strings.HasSuffix(st.Field(0).Type().String(), "MessageState")
}

func lookupIntrinsic(p *Program, fn *ssa.Function, name, pp string) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if strings.HasPrefix(pp, p.mod+"/internal/verif/sym") {
		if f, ok := symIntrinsics[fn.Name()]; ok && fn.Parent() == nil && fn.Signature.Recv() == nil {
			return f
		}
	}
	if fn.Parent() == nil && fn.Signature.Recv() == nil && strings.HasPrefix(fn.Name(), "file_") && strings.HasSuffix(fn.Name(), "_init") {
		return func(vm *VM, g *Gor, fr *frame, args []Value) Value { return nil }
	}
	if r := fn.Signature.Recv(); r != nil && fn.Synthetic == "" {
		if pt, ok := r.Type().(*types.Pointer); ok && isMsgStruct(pt.Elem()) {
			t := canon(pt.Elem())
			switch fn.Name() {
			case "ProtoReflect":
				return func(vm *VM, g *Gor, fr *frame, args []Value) Value {
					mi := vm.p.proto.infoOf(t)
					if mi == nil {
						unsupported("no descriptor for %v", t)
					}
					c, _ := args[0].(*Cell)
					return vm.p.proto.msgIface(&MsgHandle{c, mi})
				}
			case "Reset":
				return func(vm *VM, g *Gor, fr *frame, args []Value) Value {
					vm.store(cellArg(vm, args[0]), zero(t))
					return nil
				}
			case "String":
				return func(vm *VM, g *Gor, fr *frame, args []Value) Value {
					c, _ := args[0].(*Cell)
					return vm.msgText(c, vm.p.proto.infoOf(t))
				}
			}
		}
		if ed, ok := p.proto.enums[canon(types.Unalias(r.Type()))]; ok {
			switch fn.Name() {
			case "String":
				return func(vm *VM, g *Gor, fr *frame, args []Value) Value {
					if u, ok := args[0].(uint64); ok {
						if v := ed.Values().ByNumber(pref.EnumNumber(int32(u))); v != nil {
							return string(v.Name())
						}
						return strconv.Itoa(int(int32(u)))
					}
					return "<sym-enum>"
				}
			case "Descriptor":
				return func(vm *VM, g *Gor, fr *frame, args []Value) Value { return vm.ifaceOfNative(ed) }
			}
		}
	}
	switch pp {
	case "log":
		if fn.Signature.Results().Len() == 0 {
			return func(vm *VM, g *Gor, fr *frame, args []Value) Value {
				if strings.HasPrefix(fn.Name(), "Fatal") || strings.HasPrefix(fn.Name(), "Panic") {
					panic(goPanic{v: IfaceV{t: types.Typ[types.String], v: "log.Fatal/Panic"}, at: vm.stackTop()})
				}
				return nil
			}
		}
	case "go.uber.org/zap":
		if r := fn.Signature.Recv(); r != nil && strings.HasSuffix(r.Type().String(), "zap.Logger") && fn.Signature.Results().Len() == 0 {
			return func(vm *VM, g *Gor, fr *frame, args []Value) Value { return nil }
		}
		if fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Signature.Results().Len() == 1 && strings.HasSuffix(fn.Signature.Results().At(0).Type().String(), "zapcore.Field") {
			rt := fn.Signature.Results().At(0).Type()
			return func(vm *VM, g *Gor, fr *frame, args []Value) Value { return zero(rt) }
		}
	}
	return nil
}

func init() {
	nop := func(vm *VM, g *Gor, fr *frame, args []Value) Value { return nil }

	// ---- sync
	reg("(*sync.Mutex).Lock", func(vm *VM, g *Gor, fr *frame, a []Value) Value { vm.mutexLock(g, cellArg(vm, a[0])); return nil })
	reg("(*sync.Mutex).TryLock", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.mutexTryLock(g, cellArg(vm, a[0])) })
	reg("(*sync.Mutex).Unlock", func(vm *VM, g *Gor, fr *frame, a []Value) Value { vm.mutexUnlock(g, cellArg(vm, a[0])); return nil })
	reg("(*sync.RWMutex).Lock", func(vm *VM, g *Gor, fr *frame, a []Value) Value { vm.rwLock(g, cellArg(vm, a[0])); return nil })
	reg("(*sync.RWMutex).Unlock", func(vm *VM, g *Gor, fr *frame, a []Value) Value { vm.mutexUnlock(g, cellArg(vm, a[0])); return nil })
	reg("(*sync.RWMutex).RLock", func(vm *VM, g *Gor, fr *frame, a []Value) Value { vm.rwRLock(g, cellArg(vm, a[0])); return nil })
	reg("(*sync.RWMutex).RUnlock", func(vm *VM, g *Gor, fr *frame, a []Value) Value { vm.rwRUnlock(g, cellArg(vm, a[0])); return nil })
	reg("(*sync.RWMutex).TryLock", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.mutexTryLock(g, cellArg(vm, a[0])) })
	reg("(*sync.WaitGroup).Add", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		vm.wgAdd(g, cellArg(vm, a[0]), int64(vm.concInt(a[1], 64)))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(vm *VM, g *Gor, fr *frame, a []Value) Value { vm.wgAdd(g, cellArg(vm, a[0]), -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		w := vm.wgOf(cellArg(vm, a[0]))
		g.visible(&op{kind: opGeneric, ready: func() bool { return w.n == 0 }, what: "WaitGroup.Wait", where: vm.callerWhere(g), obj: w})
		if vm.race != nil {
			g.vc.join(w.vc)
		}
		return nil
	})
	reg("(*sync.Once).Do", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		c := cellArg(vm, a[0])
		o := vm.onces[c]
		if o == nil {
			o = &onceState{}
			vm.onces[c] = o
			if vm.initMode {
				c0 := c
				vm.initOnces = append(vm.initOnces, c0)
			}
		}
		if vm.frozenOnce[c] {
			return nil
		}
		if !o.done {
			g.yield("Once.Do")
		}
		if o.running {
			g.visible(&op{kind: opGeneric, ready: func() bool { return o.done }, what: "Once.Do", where: vm.callerWhere(g), obj: o})
		}
		if o.done {
			if vm.race != nil {
				g.vc.join(o.vc)
			}
			return nil
		}
		o.running = true
		defer func() {
			o.done, o.running = true, false
			if vm.race != nil {
				o.vc = o.vc.joined(g.vc)
				g.vc.inc(g.id)
			}
		}()
		f := a[1].(*FuncV)
		vm.call(g, f, nil)
		return nil
	})
	reg("(*sync.Pool).Get", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		st := cellArg(vm, a[0]).v.(*StructV)
		f, _ := st.f[len(st.f)-1].v.(*FuncV)
		if f == nil {
			return IfaceV{}
		}
		return vm.call(g, f, nil)
	})
	reg("(*sync.Pool).Put", nop)
	reg("sync.runtime_registerPoolCleanup sync.fatal runtime.SetFinalizer runtime.KeepAlive runtime.GC sync.runtime_notifyListCheck sync.init#1 sync.init#0", nop)
	reg("runtime.Gosched", func(vm *VM, g *Gor, fr *frame, a []Value) Value { g.yield("Gosched"); return nil })
	reg("runtime.NumGoroutine", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return uint64(1 + vm.live()) })
	reg("runtime.GOMAXPROCS runtime.NumCPU", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return uint64(4) })

	// ---- atomics
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		s := Sort(64)
		if strings.HasSuffix(w, "32") {
			s = 32
		}
		reg("sync/atomic.Load"+w+" sync/atomic.LoadPointer", atomicOp(func(vm *VM, c *Cell, a []Value) Value { return c.v }))
		reg("sync/atomic.Store"+w+" sync/atomic.StorePointer", atomicOp(func(vm *VM, c *Cell, a []Value) Value { vm.rawSet(c, a[1]); return nil }))
		reg("sync/atomic.Swap"+w+" sync/atomic.SwapPointer", atomicOp(func(vm *VM, c *Cell, a []Value) Value { o := c.v; vm.rawSet(c, a[1]); return o }))
		reg("sync/atomic.Add"+w, atomicOp(func(vm *VM, c *Cell, a []Value) Value {
			p, ok1 := c.v.(uint64)
			q, ok2 := a[1].(uint64)
			var r Value
			if ok1 && ok2 {
				r = mask(s, p+q)
			} else {
				r = val(vm.tt.Bin(OAdd, vm.term(c.v, s), vm.term(a[1], s)))
			}
			vm.rawSet(c, r)
			return r
		}))
		reg("sync/atomic.CompareAndSwap"+w+" sync/atomic.CompareAndSwapPointer", atomicOp(func(vm *VM, c *Cell, a []Value) Value {
			if vm.branch(vm.eqVal(nil, c.v, a[1])) {
				vm.rawSet(c, a[2])
				return true
			}
			return false
		}))
	}
	reg("(*sync/atomic.Value).Load", atomicOp(func(vm *VM, c *Cell, a []Value) Value { return c.v.(*StructV).f[0].v }))
	reg("(*sync/atomic.Value).Store", atomicOp(func(vm *VM, c *Cell, a []Value) Value { vm.rawSet(&c.v.(*StructV).f[0], a[1]); return nil }))
	reg("(*sync/atomic.Value).Swap", atomicOp(func(vm *VM, c *Cell, a []Value) Value {
		f := &c.v.(*StructV).f[0]
		o := f.v
		vm.rawSet(f, a[1])
		return o
	}))
	reg("(*sync/atomic.Value).CompareAndSwap", atomicOp(func(vm *VM, c *Cell, a []Value) Value {
		f := &c.v.(*StructV).f[0]
		if vm.branch(vm.eqVal(nil, f.v, a[1])) {
			vm.rawSet(f, a[2])
			return true
		}
		return false
	}))

	// ---- time
	reg("time.Now", func(vm *VM, g *Gor, fr *frame, a []Value) Value { vm.now += 1000; return vm.timeVal(vm.now) })
	reg("time.runtimeNano", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return uint64(vm.now) })
	reg("time.Since", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		f := vm.p.prog.ImportedPackage("time").Prog.ImportedPackage("time").Type("Time")
		_ = f
		m := vm.p.lookupMethod(vm.p.namedType("time", "Time"), nil, "Sub")
		vm.now += 1000
		return vm.callFn(g, m, nil, []Value{vm.timeVal(vm.now), a[0]}, false)
	})
	reg("time.Sleep", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		done := false
		d := int64(0)
		if u, ok := a[0].(uint64); ok {
			d = int64(u)
		}
		vm.addTimer(d, func() { done = true })
		g.visible(&op{kind: opGeneric, ready: func() bool { return done }, what: "Sleep"})
		return nil
	})
	reg("time.AfterFunc", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		f := a[1].(*FuncV)
		tc := &Cell{v: zero(vm.p.namedType("time", "Timer"))}
		var svc VC
		if vm.race != nil {
			svc = g.vc.clone()
			g.vc.inc(g.id)
		}
		fire := func() {
			ng := vm.spawn("AfterFunc", func(g *Gor) { vm.call(g, f, nil) })
			if vm.race != nil {
				ng.vc = svc.clone()
				ng.vc.inc(ng.id)
			}
		}
		vm.side[tc] = vm.addTimer(durArg(vm, a[0]), fire)
		return tc
	})
	newTimer := func(vm *VM, d int64) (*Cell, *ChanV) {
		tc := &Cell{v: zero(vm.p.namedType("time", "Timer"))}
		ch := vm.newChan(1)
		tc.v.(*StructV).f[0].v = ch
		vm.side[tc] = vm.addTimer(d, func() {
			if len(ch.buf) == 0 {
				ch.buf = append(ch.buf, vm.timeVal(vm.now))
				if vm.race != nil {
					ch.bufVC = append(ch.bufVC, nil)
				}
			}
		})
		return tc, ch
	}
	reg("time.NewTimer", func(vm *VM, g *Gor, fr *frame, a []Value) Value { c, _ := newTimer(vm, durArg(vm, a[0])); return c })
	reg("time.After", func(vm *VM, g *Gor, fr *frame, a []Value) Value { _, ch := newTimer(vm, durArg(vm, a[0])); return ch })
	reg("(*time.Timer).Stop", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		g.yield("Timer.Stop")
		t, _ := vm.side[cellArg(vm, a[0])].(*timer)
		if t == nil {
			return false
		}
		was := t.active
		t.active = false
		return was
	})
	reg("(*time.Timer).Reset", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		t, _ := vm.side[cellArg(vm, a[0])].(*timer)
		if t == nil {
			unsupported("Timer.Reset of unknown timer")
		}
		was := t.active
		t.active = true
		t.when = vm.now + durArg(vm, a[1])
		return was
	})
	reg("time.NewTicker", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		tc := &Cell{v: zero(vm.p.namedType("time", "Ticker"))}
		ch := vm.newChan(1)
		tc.v.(*StructV).f[0].v = ch
		d := durArg(vm, a[0])
		n := 0
		var t *timer
		t = vm.addTimer(d, func() {
			if len(ch.buf) == 0 {
				ch.buf = append(ch.buf, vm.timeVal(vm.now))
				if vm.race != nil {
					ch.bufVC = append(ch.bufVC, nil)
				}
			}
			if n++; n < 50 {
				t.active, t.when = true, vm.now+d
			}
		})
		vm.side[tc] = t
		return tc
	})
	reg("(*time.Ticker).Stop", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		if t, _ := vm.side[cellArg(vm, a[0])].(*timer); t != nil {
			t.active = false
		}
		return nil
	})
	reg("(time.Time).String (time.Time).Format", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return "<time>" })

	// ---- fmt
	reg("fmt.Sprintf", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.sprintf(a[0], vm.ifaceSlice(a[1])) })
	reg("fmt.Sprint fmt.Sprintln", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		var out Value = ""
		for _, x := range vm.ifaceSlice(a[0]) {
			out = strCat(out, vm.fmtValue(x, nil))
		}
		return out
	})
	reg("fmt.Println fmt.Printf fmt.Print fmt.Fprintf fmt.Fprintln fmt.Fprint", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		return Tuple{uint64(0), IfaceV{}}
	})
	reg("fmt.Errorf", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		args := vm.ifaceSlice(a[1])
		msg := vm.sprintf(a[0], args)
		if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
			// the wrapped operand is the one matching %w
			n := 0
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				for i < len(f) && strings.IndexByte("+-# 0.123456789", f[i]) >= 0 {
					i++
				}
				if i < len(f) && f[i] == 'w' && n < len(args) {
					st := zero(vm.p.namedType("fmt", "wrapError")).(*StructV)
					st.f[0].v, st.f[1].v = msg, args[n]
					return IfaceV{t: vm.p.ptrTo(vm.p.namedType("fmt", "wrapError")), v: &Cell{v: st}}
				}
				if i < len(f) && f[i] != '%' {
					n++
				}
			}
		}
		st := zero(vm.p.namedType("errors", "errorString")).(*StructV)
		st.f[0].v = msg
		return IfaceV{t: vm.p.ptrTo(vm.p.namedType("errors", "errorString")), v: &Cell{v: st}}
	})

	// ---- errors / reflect
	reg("errors.As", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.errorsAs(g, a[0].(IfaceV), a[1].(IfaceV)) })
	typeOf := func(pkg string) intrinsic {
		return func(vm *VM, g *Gor, fr *frame, a []Value) Value {
			iv := a[0].(IfaceV)
			if iv.t == nil {
				return IfaceV{}
			}
			t := vm.p.namedType(pkg, "rtype")
			if pkg == "reflect" {
				t = vm.p.ptrTo(t)
			}
			return IfaceV{t: t, v: &Native{canon(iv.t)}}
		}
	}
	reg("reflect.TypeOf", typeOf("reflect"))
	reg("internal/reflectlite.TypeOf", typeOf("internal/reflectlite"))
	reg("reflect.DeepEqual", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.deepEqual(a[0], a[1], 0) })

	// ---- strings and bytes
	bld := func(vm *VM, v Value) *Cell {
		c := cellArg(vm, v)
		st := c.v.(*StructV)
		return &st.f[len(st.f)-1]
	}
	appendTo := func(vm *VM, c *Cell, els []Value) {
		s, _ := vm.load(c).(SliceV)
		if len(els) > 0 {
			vm.store(c, vm.appendVals(s, els))
		}
	}
	reg("(*strings.Builder).String", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		return vm.sliceToStr(vm.load(bld(vm, a[0])).(SliceV))
	})
	reg("(*strings.Builder).WriteString", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		appendTo(vm, bld(vm, a[0]), strBytes(a[1]))
		return Tuple{uint64(strLen(a[1])), IfaceV{}}
	})
	reg("(*strings.Builder).WriteByte", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		appendTo(vm, bld(vm, a[0]), []Value{a[1]})
		return IfaceV{}
	})
	reg("(*strings.Builder).WriteRune", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		s := vm.runeToStr(a[1])
		appendTo(vm, bld(vm, a[0]), strBytes(s))
		return Tuple{uint64(strLen(s)), IfaceV{}}
	})
	reg("(*strings.Builder).Write", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		s := vm.sliceToStr(a[1].(SliceV))
		appendTo(vm, bld(vm, a[0]), strBytes(s))
		return Tuple{uint64(strLen(s)), IfaceV{}}
	})
	reg("(*strings.Builder).Grow (*strings.Builder).copyCheck (*strings.Builder).grow", nop)
	reg("strings.Clone internal/stringslite.Clone", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return a[0] })
	reg("strings.Index internal/bytealg.IndexString internal/stringslite.Index", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.strIndex(a[0], a[1]) })
	reg("strings.Contains", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return int64(vm.strIndex(a[0], a[1]).(uint64)) >= 0 })
	reg("strings.LastIndex", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		n, m := strLen(a[0]), strLen(a[1])
		for i := n - m; i >= 0; i-- {
			if vm.branch(vm.strEq(strSlice(a[0], i, i+m), a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	reg("strings.IndexByte internal/bytealg.IndexByteString internal/stringslite.IndexByte", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		return vm.indexByte(strBytes(a[0]), a[1])
	})
	reg("internal/bytealg.IndexByte bytes.IndexByte", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		return vm.indexByte(strBytes(vm.sliceToStr(a[0].(SliceV))), a[1])
	})
	reg("strings.LastIndexByte internal/bytealg.LastIndexByteString", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		b := strBytes(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if vm.branch(vm.eqByte(b[i], a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	reg("internal/bytealg.CountString", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		n := 0
		for _, b := range strBytes(a[0]) {
			if vm.branch(vm.eqByte(b, a[1])) {
				n++
			}
		}
		return uint64(n)
	})
	reg("bytes.Equal", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		return vm.strEq(vm.sliceToStr(a[0].(SliceV)), vm.sliceToStr(a[1].(SliceV)))
	})
	cmp := func(vm *VM, x, y Value) Value {
		if vm.branch(vm.strEq(x, y)) {
			return uint64(0)
		}
		if vm.branch(vm.strLess(x, y)) {
			return ^uint64(0)
		}
		return uint64(1)
	}
	reg("bytes.Compare internal/bytealg.Compare", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		return cmp(vm, vm.sliceToStr(a[0].(SliceV)), vm.sliceToStr(a[1].(SliceV)))
	})
	reg("strings.Compare internal/bytealg.CompareString runtime.cmpstring", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return cmp(vm, a[0], a[1]) })
	reg("internal/bytealg.MakeNoZero", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		n := int(vm.concInt(a[0], 64))
		return makeSlice(types.Typ[types.Uint8], n, n)
	})
	reg("unicode/utf8.ValidString", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(utf8Err); is {
						ok = false
						return
					}
					panic(r)
				}
			}()
			vm.checkUTF8(a[0])
		}()
		return ok
	})

	// ---- strconv
	reg("strconv.FormatFloat", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		f, ok := a[0].(float64)
		if !ok {
			return "<sym-float>"
		}
		return strconv.FormatFloat(f, byte(vm.concInt(a[1], 8)), int(int64(vm.concInt(a[2], 64))), int(vm.concInt(a[3], 64)))
	})
	reg("strconv.Quote", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		return strCat(strCat("\"", a[0]), "\"")
	})

	// ---- sort
	reg("sort.Slice sort.SliceStable", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		iv := a[0].(IfaceV)
		s, ok := iv.v.(SliceV)
		if !ok {
			unsupported("sort.Slice of %T", iv.v)
		}
		less := a[1].(*FuncV)
		// insertion sort: what package sort does up to 12 elements, and stable
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				if !vm.branch(vm.call(g, less, []Value{uint64(j), uint64(j - 1)})) {
					break
				}
				x, y := &s.arr.e[s.off+j], &s.arr.e[s.off+j-1]
				vx, vy := vm.load(x), vm.load(y)
				vm.store(x, vy)
				vm.store(y, vx)
			}
		}
		return nil
	})

	reg("sort.SliceIsSorted", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		s, ok := a[0].(IfaceV).v.(SliceV)
		if !ok {
			unsupported("sort.SliceIsSorted of %T", a[0].(IfaceV).v)
		}
		less := a[1].(*FuncV)
		for i := s.len - 1; i > 0; i-- {
			if vm.branch(vm.call(g, less, []Value{uint64(i), uint64(i - 1)})) {
				return false
			}
		}
		return true
	})

	// ---- math
	f1 := func(f func(float64) float64) intrinsic {
		return func(vm *VM, g *Gor, fr *frame, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			unsupported("symbolic math function")
			return nil
		}
	}
	rnd := func(f func(float64) float64, mode uint16) intrinsic {
		return func(vm *VM, g *Gor, fr *frame, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			return val(vm.tt.Un(OFRound, SF64, a[0].(*Term), mode, 0))
		}
	}
	reg("math.Floor math.floor", rnd(math.Floor, 0))
	reg("math.Ceil math.ceil", rnd(math.Ceil, 1))
	reg("math.Trunc math.trunc", rnd(math.Trunc, 2))
	reg("math.Round", rnd(math.Round, 3))
	reg("math.RoundToEven", rnd(math.RoundToEven, 4))
	reg("math.Abs", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Abs(x)
		}
		return val(vm.tt.Un(OFAbs, SF64, a[0].(*Term), 0, 0))
	})
	reg("math.Sqrt math.sqrt", f1(math.Sqrt))
	reg("math.Exp", f1(math.Exp))
	reg("math.Log", f1(math.Log))
	reg("math.Log10", f1(math.Log10))
	reg("math.Log2", f1(math.Log2))
	reg("math.Sin", f1(math.Sin))
	reg("math.Cos", f1(math.Cos))
	reg("math.Pow", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if !ok1 || !ok2 {
			unsupported("symbolic math.Pow")
		}
		return math.Pow(x, y)
	})
	reg("math.Mod", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if !ok1 || !ok2 {
			unsupported("symbolic math.Mod")
		}
		return math.Mod(x, y)
	})
	mm := func(isMax bool) intrinsic {
		return func(vm *VM, g *Gor, fr *frame, a []Value) Value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				if isMax {
					return math.Max(x, y)
				}
				return math.Min(x, y)
			}
			tt := vm.tt
			p, q := vm.term(a[0], SF64), vm.term(a[1], SF64)
			if p.id > q.id { // the operation is symmetric
				p, q = q, p
			}
			lt := tt.Bin(OFLt, p, q)
			// ties between zeros: Max prefers +0, Min prefers -0
			zeroTie := tt.Bin(OFEq, p, q)
			pos := tt.Const(SF64, 0)
			var r *Term
			if isMax {
				tie := tt.Ite(tt.Bin(OEq, p, pos), p, q)
				r = tt.Ite(lt, q, tt.Ite(zeroTie, tie, p))
			} else {
				tie := tt.Ite(tt.Bin(OEq, p, pos), q, p)
				r = tt.Ite(lt, p, tt.Ite(zeroTie, tie, q))
			}
			anyNaN := tt.Or(tt.Un(OFNaN, SBool, p, 0, 0), tt.Un(OFNaN, SBool, q, 0, 0))
			inf := math.Inf(1)
			if !isMax {
				inf = math.Inf(-1)
			}
			ci := tt.Const(SF64, math.Float64bits(inf))
			anyInf := tt.Or(tt.Bin(OEq, p, ci), tt.Bin(OEq, q, ci))
			r = tt.Ite(anyInf, ci, tt.Ite(anyNaN, tt.Const(SF64, canonF(SF64, math.Float64bits(math.NaN()))), r))
			return val(r)
		}
	}
	reg("math.Max math.max", mm(true))
	reg("math.Min math.min", mm(false))
	reg("math.Float64bits", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Float64bits(x)
		}
		return vm.concFloatBits(a[0].(*Term))
	})
	reg("math.Float32bits", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		if x, ok := a[0].(float32); ok {
			return uint64(math.Float32bits(x))
		}
		return vm.concFloatBits(a[0].(*Term))
	})
	reg("math.Float64frombits", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		if x, ok := a[0].(uint64); ok {
			return math.Float64frombits(x)
		}
		return val(vm.tt.Un(OBitsToF, SF64, a[0].(*Term), 0, 0))
	})
	reg("math.Float32frombits", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		if x, ok := a[0].(uint64); ok {
			return math.Float32frombits(uint32(x))
		}
		return val(vm.tt.Un(OBitsToF, SF32, a[0].(*Term), 0, 0))
	})

	// ---- random numbers: deterministic, but the generator state is really read and written
	reg("(*math/rand.rngSource).Seed", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		vm.store(&cellArg(vm, a[0]).v.(*StructV).f[0], uint64(0))
		return nil
	})
	reg("(*math/rand.rngSource).Uint64", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.rngNext(cellArg(vm, a[0])) })
	reg("(*math/rand.rngSource).Int63", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		return vm.rngNext(cellArg(vm, a[0])).(uint64) & (1<<63 - 1)
	})
	reg("math/rand.Int63", func(vm *VM, g *Gor, fr *frame, a []Value) Value { vm.nextUniq++; return uint64(vm.nextUniq) * 7919 })
	reg("math/rand.Intn math/rand.Int63n math/rand.Int31n", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		vm.nextUniq++
		return uint64(vm.nextUniq) % vm.concInt(a[0], 64)
	})
	reg("math/rand.Float64", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return 0.5 })
	reg("math/rand.runtime_rand math/rand/v2.runtime_rand internal/runtime/maps.rand hash/maphash.runtime_rand", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		vm.nextUniq++
		return uint64(vm.nextUniq) * 0x9e3779b97f4a7c15
	})

	// ---- os and friends, for initialisers
	reg("os.Getenv syscall.Getenv", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		if fr != nil && fr.cf != nil && strings.HasPrefix(fr.cf.name, "syscall") {
			return Tuple{"", false}
		}
		return ""
	})
	reg("os.LookupEnv", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return Tuple{"", false} })

	// ---- protobuf
	const pkg = "google.golang.org/protobuf/proto."
	reg(pkg+"Clone", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		c, mi, ok := vm.msgOf(a[0])
		if !ok {
			return IfaceV{}
		}
		if c == nil {
			return IfaceV{t: mi.ptr, v: (*Cell)(nil)}
		}
		return IfaceV{t: mi.ptr, v: vm.cloneMsg(c, mi)}
	})
	reg(pkg+"Merge", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		s, smi, ok := vm.msgOf(a[1])
		d, dmi, ok2 := vm.msgOf(a[0])
		if !ok || !ok2 {
			vm.nilDeref()
		}
		if smi != dmi {
			vm.rtPanic(fmt.Sprintf("descriptor mismatch: %v != %v", dmi.desc.FullName(), smi.desc.FullName()))
		}
		if s != nil && d == nil {
			vm.rtPanic("proto: merge into invalid message")
		}
		vm.mergeMsg(d, s, smi)
		return nil
	})
	reg(pkg+"Equal", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		x, xmi, ok1 := vm.msgOf(a[0])
		y, ymi, ok2 := vm.msgOf(a[1])
		if !ok1 || !ok2 {
			return ok1 == ok2
		}
		if xmi != ymi || (x == nil) != (y == nil) {
			return false
		}
		return vm.equalMsg(x, y, xmi)
	})
	reg(pkg+"Reset", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		c, mi, ok := vm.msgOf(a[0])
		if !ok || c == nil {
			vm.nilDeref()
		}
		vm.store(c, zero(mi.named))
		return nil
	})
	marshal := func(vm *VM, v Value) (r Value) {
		c, mi, ok := vm.msgOf(v)
		if !ok {
			return Tuple{SliceV{}, IfaceV{}}
		}
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(utf8Err); is {
					r = Tuple{SliceV{}, vm.newError("string field contains invalid UTF-8")}
					return
				}
				panic(e)
			}
		}()
		b := vm.encMsg(c, mi)
		if len(b) == 0 && c != nil {
			return Tuple{SliceV{arr: &ArrayV{}}, IfaceV{}}
		}
		if len(b) == 0 {
			return Tuple{SliceV{}, IfaceV{}}
		}
		return Tuple{strToSlice(mkStr(b)), IfaceV{}}
	}
	reg(pkg+"Marshal", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return marshal(vm, a[0]) })
	reg("(google.golang.org/protobuf/proto.MarshalOptions).Marshal", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return marshal(vm, a[1]) })
	unmarshal := func(vm *VM, b SliceV, m Value, merge bool) (r Value) {
		c, mi, ok := vm.msgOf(m)
		if !ok || c == nil {
			vm.nilDeref()
		}
		defer func() {
			if e := recover(); e != nil {
				if de, is := e.(decErr); is {
					r = vm.newError("proto: cannot parse invalid wire-format data: " + de.msg)
					return
				}
				panic(e)
			}
		}()
		if !merge {
			vm.store(c, zero(mi.named))
		}
		vm.decMsg(strBytes(vm.sliceToStr(b)), c, mi)
		return IfaceV{}
	}
	reg(pkg+"Unmarshal", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return unmarshal(vm, a[0].(SliceV), a[1], false) })
	reg("(google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		st := a[0].(*StructV)
		merge := false
		// field order: NoUnkeyedLiterals, Merge, ...
		if b, ok := st.f[1].v.(bool); ok {
			merge = b
		}
		return unmarshal(vm, a[1].(SliceV), a[2], merge)
	})
	reg(pkg+"Size", func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		c, mi, ok := vm.msgOf(a[0])
		if !ok {
			return uint64(0)
		}
		return uint64(len(vm.encMsg(c, mi)))
	})

	pv := "(google.golang.org/protobuf/reflect/protoreflect."
	for _, m := range strings.Fields("IsValid Value Bool Int Uint Float String Bytes Enum Message List Map Interface MapKey") {
		f := func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.prefValueMethod(m, a[0].(PRefValue)) }
		reg(pv+"Value)."+m+" "+pv+"MapKey)."+m, f)
	}
	reg(pv+"Value).Equal", func(vm *VM, g *Gor, fr *frame, a []Value) Value { return vm.prefEqual(a[0].(PRefValue), a[1].(PRefValue)) })
	vo := "google.golang.org/protobuf/reflect/protoreflect.ValueOf"
	for n, k := range map[string]pref.Kind{"Bool": pref.BoolKind, "Int32": pref.Int32Kind, "Int64": pref.Int64Kind, "Uint32": pref.Uint32Kind, "Uint64": pref.Uint64Kind,
		"Float32": pref.FloatKind, "Float64": pref.DoubleKind, "String": pref.StringKind, "Bytes": pref.BytesKind, "Enum": pref.EnumKind, "Message": pref.MessageKind, "List": kindList, "Map": kindMap} {
		reg(vo+n, func(vm *VM, g *Gor, fr *frame, a []Value) Value { return PRefValue{kind: k, v: a[0]} })
	}
	fm := "(github.com/mennanov/fmutils.NestedMask)."
	nf := func(prune bool) intrinsic {
		return func(vm *VM, g *Gor, fr *frame, a []Value) Value {
			m, _ := a[0].(*MapV)
			if m == nil || vm.mapLen(m) == 0 {
				return nil
			}
			c, mi, ok := vm.msgOf(a[1])
			if !ok {
				vm.nilDeref()
			}
			vm.nestedFilter(m, c, mi, prune)
			return nil
		}
	}
	reg(fm+"Filter", nf(false))
	reg(fm+"Prune", nf(true))
}

func durArg(vm *VM, v Value) int64 {
	switch x := v.(type) {
	case uint64:
		return int64(x)
	}
	return 1
}

// rawSet writes a cell outside race checking.
func (vm *VM) rawSet(c *Cell, v Value) {
	saved := vm.race
	vm.race = nil
	vm.set(c, v)
	vm.race = saved
}

func atomicOp(f func(vm *VM, c *Cell, a []Value) Value) intrinsic {
	return func(vm *VM, g *Gor, fr *frame, a []Value) Value {
		c := cellArg(vm, a[0])
		if vm.explore && !g.init {
			in := fr
			for in != nil && in.cf != nil && strings.Contains(in.cf.name, "sync/atomic.") {
				in = in.caller
			}
			if in != nil && in.cf != nil && !in.cf.stdAtomic {
				g.visible(&op{kind: opYield, what: "atomic"})
			}
		}
		r := f(vm, c, a)
		if vm.race != nil && !g.init {
			v, _ := vm.side[c].(*VC)
			if v == nil {
				v = &VC{}
				vm.side[c] = v
			}
			g.vc.join(*v)
			v.join(g.vc)
			g.vc.inc(g.id)
		}
		return r
	}
}

func (vm *VM) wgOf(c *Cell) *wgState {
	w := vm.wgs[c]
	if w == nil {
		w = &wgState{}
		vm.wgs[c] = w
	}
	return w
}

func (vm *VM) wgAdd(g *Gor, c *Cell, d int64) {
	w := vm.wgOf(c)
	w.n += d
	if w.n < 0 {
		vm.rtPanic("sync: negative WaitGroup counter")
	}
	if vm.race != nil {
		w.vc = w.vc.joined(g.vc)
		g.vc.inc(g.id)
	}
}

func (vm *VM) live() int {
	n := 0
	for _, g := range vm.gors {
		if !g.done && g.id != 0 {
			n++
		}
	}
	return n
}

// timeVal builds a time.Time (UTC) from unix nanoseconds.
func (vm *VM) timeVal(ns int64) Value {
	st := zero(vm.p.namedType("time", "Time")).(*StructV)
	st.f[0].v = uint64(ns % 1_000_000_000)
	st.f[1].v = uint64(ns/1_000_000_000 + 62135596800)
	return st
}

func (vm *VM) rngNext(c *Cell) Value {
	tap := &c.v.(*StructV).f[0]
	x, ok := vm.load(tap).(uint64)
	if !ok {
		unsupported("symbolic rng state")
	}
	x++
	vm.store(tap, x)
	z := x * 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (vm *VM) newError(msg string) IfaceV {
	st := zero(vm.p.namedType("errors", "errorString")).(*StructV)
	st.f[0].v = msg
	return IfaceV{t: vm.p.ptrTo(vm.p.namedType("errors", "errorString")), v: &Cell{v: st}}
}

func (vm *VM) ifaceSlice(v Value) []Value {
	s := v.(SliceV)
	r := make([]Value, s.len)
	for i := range r {
		r[i] = vm.load(&s.arr.e[s.off+i])
	}
	return r
}

func (vm *VM) strIndex(s, sub Value) Value {
	x, ok1 := s.(string)
	y, ok2 := sub.(string)
	if ok1 && ok2 {
		return uint64(int64(strings.Index(x, y)))
	}
	n, m := strLen(s), strLen(sub)
	for i := 0; i+m <= n; i++ {
		if vm.branch(vm.strEq(strSlice(s, i, i+m), sub)) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (vm *VM) indexByte(b []Value, c Value) Value {
	for i := range b {
		if vm.branch(vm.eqByte(b[i], c)) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

// ---- formatting

func (vm *VM) sprintf(fv Value, args []Value) Value {
	f, ok := fv.(string)
	if !ok {
		return fv
	}
	var out Value = ""
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = strCat(out, f[i:j])
			i = j - 1
			continue
		}
		st := i
		i++
		for i < len(f) && strings.IndexByte("+-# 0.123456789", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			out = strCat(out, "%")
			continue
		}
		spec := f[st : i+1]
		if n >= len(args) {
			out = strCat(out, "%!"+f[i:i+1]+"(MISSING)")
			continue
		}
		a := args[n].(IfaceV)
		n++
		switch f[i] {
		case 'T':
			if a.t == nil {
				out = strCat(out, "<nil>")
			} else {
				out = strCat(out, a.t.String())
			}
			continue
		case 'w':
			spec = spec[:len(spec)-1] + "v"
		}
		out = strCat(out, vm.fmtArg(spec, a))
	}
	return out
}

func (vm *VM) fmtArg(spec string, a IfaceV) Value {
	verb := spec[len(spec)-1]
	if a.t == nil {
		return fmt.Sprintf(spec, nil)
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if s, ok := vm.tryText(a); ok {
			switch x := s.(type) {
			case string:
				return fmt.Sprintf(strings.Replace(strings.Replace(spec, "+", "", 1), "#", "", 1), x)
			default:
				if verb == 'q' {
					return strCat(strCat("\"", x), "\"")
				}
				return x
			}
		}
	}
	switch x := a.v.(type) {
	case bool:
		return fmt.Sprintf(spec, x)
	case uint64:
		s, signed, _ := basicSort(a.t)
		if signed {
			return fmt.Sprintf(spec, sext(s, x))
		}
		return fmt.Sprintf(spec, x)
	case float32:
		return fmt.Sprintf(spec, x)
	case float64:
		return fmt.Sprintf(spec, x)
	case string:
		return fmt.Sprintf(spec, x)
	case *SymStr:
		if verb == 'q' {
			return strCat(strCat("\"", x), "\"")
		}
		return x
	}
	return vm.fmtValue(a, a.v)
}

// tryText uses Error or String methods.
func (vm *VM) tryText(a IfaceV) (Value, bool) {
	switch a.v.(type) {
	case *Native, *MsgHandle, *ListHandle, *MapHandle:
		if n, ok := a.v.(*Native); ok {
			if s, ok := n.v.(fmt.Stringer); ok {
				return s.String(), true
			}
		}
		return "<native>", true
	}
	if c, ok := a.v.(*Cell); ok && c == nil {
		return "<nil>", true
	}
	if mi := vm.p.proto.infoOf(a.t); mi != nil {
		c, _ := a.v.(*Cell)
		return vm.msgText(c, mi), true
	}
	g := vm.cur
	for _, m := range []string{"Error", "String"} {
		f := vm.p.lookupMethod(canon(a.t), nil, m)
		if f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
			return vm.callFn(g, f, nil, []Value{a.v}, false), true
		}
	}
	return nil, false
}

func (vm *VM) fmtValue(a Value, v Value) Value {
	if iv, ok := a.(IfaceV); ok && v == nil {
		if iv.t == nil {
			return "<nil>"
		}
		return vm.fmtArg("%v", iv)
	}
	switch x := v.(type) {
	case *Term:
		return "<sym>"
	case string, *SymStr:
		return x
	case SliceV:
		var out Value = "["
		for i := 0; i < x.len; i++ {
			if i > 0 {
				out = strCat(out, " ")
			}
			e := x.arr.e[x.off+i].v
			if iv, ok := e.(IfaceV); ok {
				out = strCat(out, vm.fmtValue(iv, nil))
			} else {
				out = strCat(out, vm.fmtValue(nil, e))
			}
		}
		return strCat(out, "]")
	case nil:
		return "<nil>"
	case bool, uint64, float32, float64:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("<%T>", v)
}

// msgText is a placeholder text form: error texts built from messages are not part of any property.
func (vm *VM) msgText(c *Cell, mi *MsgInfo) Value {
	if c == nil {
		return "<nil>"
	}
	return "<" + string(mi.desc.FullName()) + ">"
}

// ---- errors.As

func (vm *VM) errorsAs(g *Gor, err, target IfaceV) Value {
	if err.t == nil {
		return false
	}
	if target.t == nil {
		vm.rtPanic("errors: target cannot be nil")
	}
	pt := under(target.t).(*types.Pointer)
	tt := pt.Elem()
	iface, isIface := under(tt).(*types.Interface)
	tc := target.v.(*Cell)
	for {
		if err.t == nil {
			return false
		}
		if isIface {
			if vm.p.implements(canon(err.t), iface, canon(tt)) {
				vm.store(tc, err)
				return true
			}
		} else if types.Identical(err.t, tt) {
			vm.store(tc, err.v)
			return true
		}
		if f := vm.p.lookupMethod(canon(err.t), nil, "As"); f != nil && f.Signature.Params().Len() == 1 {
			if vm.branch(vm.callFn(g, f, nil, []Value{err.v, target}, false)) {
				return true
			}
		}
		f := vm.p.lookupMethod(canon(err.t), nil, "Unwrap")
		if f == nil || f.Signature.Results().Len() != 1 {
			return false
		}
		r := vm.callFn(g, f, nil, []Value{err.v}, false)
		switch x := r.(type) {
		case IfaceV:
			err = x
		case SliceV:
			for i := 0; i < x.len; i++ {
				if vm.branch(vm.errorsAs(g, vm.load(&x.arr.e[x.off+i]).(IfaceV), target)) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func (vm *VM) deepEqual(a, b Value, depth int) Value {
	if depth > 50 {
		unsupported("DeepEqual depth")
	}
	switch x := a.(type) {
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		if x.t == nil {
			return true
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		return vm.deepEqual(x.v, y.v, depth+1)
	case *Cell:
		y, ok := b.(*Cell)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return vm.deepEqual(vm.load(x), vm.load(y), depth+1)
	case SliceV:
		y := b.(SliceV)
		if (x.arr == nil) != (y.arr == nil) || x.len != y.len {
			return false
		}
		var r Value = true
		for i := 0; i < x.len; i++ {
			r = vm.and(r, vm.deepEqual(vm.load(&x.arr.e[x.off+i]), vm.load(&y.arr.e[y.off+i]), depth+1))
		}
		return r
	case *StructV:
		y := b.(*StructV)
		var r Value = true
		for i := range x.f {
			r = vm.and(r, vm.deepEqual(x.f[i].v, y.f[i].v, depth+1))
		}
		return r
	case *ArrayV:
		y := b.(*ArrayV)
		var r Value = true
		for i := range x.e {
			r = vm.and(r, vm.deepEqual(x.e[i].v, y.e[i].v, depth+1))
		}
		return r
	case *MapV:
		y := b.(*MapV)
		if (x == nil) != (y == nil) || vm.mapLen(x) != vm.mapLen(y) {
			return false
		}
		if x == nil {
			return true
		}
		var r Value = true
		for i := range x.keys {
			if !x.live[i] {
				continue
			}
			v, ok := vm.mapGet(y, x.keys[i])
			if !ok {
				return false
			}
			r = vm.and(r, vm.deepEqual(x.vals[i], v, depth+1))
		}
		return r
	case *FuncV:
		return x == nil && b.(*FuncV) == nil
	}
	return vm.eqVal(nil, a, b)
}

// ---- host objects

func (p *Program) hostType(h any) types.Type {
	rt := reflect.TypeOf(h)
	ptr := false
	if rt.Kind() == reflect.Pointer {
		rt, ptr = rt.Elem(), true
	}
	t := p.namedType(rt.PkgPath(), rt.Name())
	if t == nil {
		unsupported("no program type for host type %v", rt)
	}
	if ptr {
		return p.ptrTo(t)
	}
	return t
}

func (vm *VM) nativeInvoke(g *Gor, iv IfaceV, x Value, name string, args []Value) Value {
	switch h := x.(type) {
	case *MsgHandle:
		return vm.msgMethod(g, h, name, args)
	case *ListHandle:
		return vm.listMethod(g, h, name, args)
	case *MapHandle:
		return vm.mapMethod(g, h, name, args)
	case Poison:
		unsupported("method %s on poison: %s", name, h.why)
	case *Native:
		switch n := h.v.(type) {
		case types.Type:
			return vm.typeMethod(n, name, args)
		case msgTypeN:
			switch name {
			case "New":
				return vm.p.proto.msgIface(&MsgHandle{vm.newMsg(n.mi), n.mi})
			case "Zero":
				return vm.p.proto.msgIface(&MsgHandle{nil, n.mi})
			case "Descriptor":
				return vm.ifaceOfNative(n.mi.desc)
			}
			unsupported("MessageType.%s", name)
		}
		return vm.hostCall(h.v, name, args)
	}
	return nil
}

func (vm *VM) typeMethod(t types.Type, name string, args []Value) Value {
	switch name {
	case "Comparable":
		return types.Comparable(t)
	case "String":
		return types.TypeString(t, func(p *types.Package) string { return p.Name() })
	case "Name":
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
		if b, ok := t.(*types.Basic); ok {
			return b.Name()
		}
		return ""
	case "Kind":
		switch u := under(t).(type) {
		case *types.Pointer:
			return uint64(reflect.Pointer)
		case *types.Struct:
			return uint64(reflect.Struct)
		case *types.Slice:
			return uint64(reflect.Slice)
		case *types.Map:
			return uint64(reflect.Map)
		case *types.Signature:
			return uint64(reflect.Func)
		case *types.Basic:
			switch u.Kind() {
			case types.String:
				return uint64(reflect.String)
			case types.Bool:
				return uint64(reflect.Bool)
			case types.Int:
				return uint64(reflect.Int)
			case types.Int32:
				return uint64(reflect.Int32)
			case types.Int64:
				return uint64(reflect.Int64)
			}
		}
	case "Elem":
		switch u := under(t).(type) {
		case *types.Pointer:
			return IfaceV{t: vm.p.ptrTo(vm.p.namedType("reflect", "rtype")), v: &Native{canon(u.Elem())}}
		}
	case "Implements":
		if iv, ok := args[0].(IfaceV); ok {
			if n, ok := iv.v.(*Native); ok {
				if it, ok := under(n.v.(types.Type)).(*types.Interface); ok {
					return types.Implements(t, it)
				}
			}
		}
	}
	unsupported("reflect.Type.%s of %v", name, t)
	return nil
}

var prefValueRT = reflect.TypeOf(pref.Value{})

func (vm *VM) hostCall(h any, name string, args []Value) Value {
	m := reflect.ValueOf(h).MethodByName(name)
	if !m.IsValid() {
		unsupported("host method %T.%s", h, name)
	}
	mt := m.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = vm.toHost(a, mt.In(i))
	}
	out := m.Call(in)
	switch len(out) {
	case 0:
		return nil
	case 1:
		return vm.fromHost(out[0])
	}
	t := make(Tuple, len(out))
	for i := range out {
		t[i] = vm.fromHost(out[i])
	}
	return t
}

func (vm *VM) toHost(v Value, t reflect.Type) reflect.Value {
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		r.SetString(vm.concStr(v))
	case reflect.Bool:
		r.SetBool(vm.branch(v))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		r.SetInt(sext(Sort(t.Bits()), vm.concInt(v, Sort(t.Bits()))))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		r.SetUint(vm.concInt(v, Sort(t.Bits())))
	case reflect.Interface:
		iv, ok := v.(IfaceV)
		if ok && iv.t == nil {
			return r
		}
		if n, ok := iv.v.(*Native); ok && reflect.TypeOf(n.v).Implements(t) {
			r.Set(reflect.ValueOf(n.v))
			return r
		}
		unsupported("host argument %T as %v", v, t)
	default:
		unsupported("host argument %T as %v", v, t)
	}
	return r
}

func (vm *VM) fromHost(v reflect.Value) Value {
	if v.Type() == prefValueRT {
		pv := v.Interface().(pref.Value)
		switch x := pv.Interface().(type) {
		case nil:
			return PRefValue{}
		case bool:
			return PRefValue{pref.BoolKind, x}
		case int32:
			return PRefValue{pref.Int32Kind, uint64(uint32(x))}
		case int64:
			return PRefValue{pref.Int64Kind, uint64(x)}
		case uint32:
			return PRefValue{pref.Uint32Kind, uint64(x)}
		case uint64:
			return PRefValue{pref.Uint64Kind, x}
		case float32:
			return PRefValue{pref.FloatKind, x}
		case float64:
			return PRefValue{pref.DoubleKind, x}
		case string:
			return PRefValue{pref.StringKind, x}
		case []byte:
			return PRefValue{pref.BytesKind, strToSlice(string(x))}
		case pref.EnumNumber:
			return PRefValue{pref.EnumKind, uint64(uint32(x))}
		}
		unsupported("host protoreflect.Value")
	}
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return mask(Sort(v.Type().Bits()), uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint()
	case reflect.Interface:
		if v.IsNil() {
			return IfaceV{}
		}
		return vm.ifaceOfNative(v.Interface())
	}
	unsupported("host result %v", v.Type())
	return nil
}
