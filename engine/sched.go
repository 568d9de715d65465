package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ChanV struct {
	id     int
	cap    int
	buf    []Value
	bufVC  []VC
	closed bool
	vc     VC // released by close and by buffered receives
	et     types.Type
	timer  *timer
}

type opKind uint8

const (
	opYield opKind = iota
	opGeneric
	opSend
	opRecv
	opSelect
	opQuiesce
	opArrive // partial order reduction: a sender becomes visible to receivers
)

type selCase struct {
	ch   *ChanV
	send bool
	val  Value
	et   types.Type
}

type op struct {
	kind       opKind
	ready      func() bool
	ch         *ChanV
	val        Value
	cases      []selCase
	hasDefault bool
	completed  bool
	rcase      int
	rval       Value
	rok        bool
	where      string
	what       string
	seq        int
	obj        any  // what the operation synchronises on, nil if that is not known
	read       bool // commutes with other reads of obj
}

type Gor struct {
	vm      *VM
	id      int
	name    string
	fr      *frame
	depth   int
	init    bool
	wake    chan struct{}
	pending *op
	fresh   bool // runnable without having to perform an operation first
	freshAt int
	done    bool
	start   func(*Gor)
	vc      VC
	lib     bool
	asleep  bool // partial order reduction: running this goroutine now leads to what was explored elsewhere
}

type timer struct {
	when   int64
	seq    int
	active bool
	fire   func()
	ch     *ChanV
}

type lockState struct {
	owner   *Gor
	locked  bool
	readers int
	pendW   int
	vc      VC // released by Unlock
	rvc     VC // released by RUnlock
}

type wgState struct {
	n  int64
	vc VC
}

type onceState struct {
	done, running bool
	vc            VC
}

func (vm *VM) newChan(n int) *ChanV {
	vm.chanSeq++
	return &ChanV{id: vm.chanSeq, cap: n}
}

func (vm *VM) spawn(name string, start func(g *Gor)) *Gor {
	if len(vm.gors) >= vm.maxGor {
		panic(pathEnd{"budget", "goroutine budget exceeded"})
	}
	g := &Gor{vm: vm, id: len(vm.gors), name: name, wake: make(chan struct{}, 1), start: start, fresh: true}
	vm.opSeq++
	g.freshAt = vm.opSeq
	vm.gors = append(vm.gors, g)
	if vm.race != nil && vm.cur != nil {
		g.vc = vm.cur.vc.clone()
		g.vc.inc(g.id)
		vm.cur.vc.inc(vm.cur.id)
	}
	vm.hostWG.Add(1)
	go g.host()
	return g
}

func (g *Gor) host() {
	vm := g.vm
	defer vm.hostWG.Done()
	<-g.wake
	if vm.dead {
		return
	}
	end := func() (out *pathOutcome) {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch e := r.(type) {
			case killedT:
				out = &pathOutcome{kind: "killed"}
			case pathEnd:
				out = &pathOutcome{kind: e.kind, msg: e.msg, stack: vm.stack()}
			case engineError:
				out = &pathOutcome{kind: "unsupported", msg: e.msg, stack: vm.stack()}
			case goPanic:
				out = &pathOutcome{kind: "panic", msg: vm.panicText(g, e), stack: vm.stack()}
			default:
				out = &pathOutcome{kind: "internal", msg: fmt.Sprintf("%v\n%s", r, hostStack()), stack: vm.stack()}
			}
		}()
		g.start(g)
		return nil
	}()
	if end != nil {
		if end.kind != "killed" {
			end.g = g
			vm.finish(end)
		}
		return
	}
	g.done = true
	g.fr = nil
	if g.id == 0 {
		vm.finish(&pathOutcome{kind: "ok"})
		return
	}
	// hand the token on
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case pathEnd:
					vm.finish(&pathOutcome{kind: e.kind, msg: e.msg, g: g})
				case engineError:
					vm.finish(&pathOutcome{kind: "unsupported", msg: e.msg})
				case killedT:
				default:
					vm.finish(&pathOutcome{kind: "internal", msg: fmt.Sprintf("%v\n%s", r, hostStack())})
				}
			}
		}()
		next := vm.pickNext(g)
		vm.cur = next
		next.wake <- struct{}{}
	}()
}

func (vm *VM) finish(o *pathOutcome) {
	select {
	case vm.doneCh <- o:
	default:
	}
}

// visible parks the goroutine at an operation until the scheduler lets it perform it.
func (g *Gor) visible(o *op) {
	vm := g.vm
	if g.init || vm.initMode {
		if !vm.enabled(g, o) {
			unsupported("blocking during init")
		}
		return
	}
	vm.opSeq++
	o.seq = vm.opSeq
	if vm.steps > vm.maxSteps {
		panic(pathEnd{"budget", "step budget"})
	}
	vm.steps += 5
	vm.schedOps++
	if !vm.explore && o.kind != opQuiesce && vm.enabled(g, o) {
		return
	}
	g.pending = o
	next := vm.pickNext(g)
	if next != g {
		vm.cur = next
		vm.switches++
		next.wake <- struct{}{}
		<-g.wake
		if vm.dead {
			panic(killedT{})
		}
	}
	g.pending = nil
	g.fresh = false
}

func (g *Gor) atomicCtx() bool {
	return g.fr != nil && g.fr.cf != nil && g.fr.cf.stdAtomic
}

// yield is a scheduling point that is always enabled.
func (g *Gor) yield(what string) {
	if !g.vm.explore || g.init || g.vm.initMode || g.atomicCtx() {
		return
	}
	g.visible(&op{kind: opYield, what: what})
}

func (vm *VM) enabled(g *Gor, o *op) bool {
	if o.completed {
		return true
	}
	switch o.kind {
	case opYield, opArrive:
		return true
	case opGeneric:
		return o.ready()
	case opSend:
		if vm.por && o.ch != nil && o.ch.cap == 0 && !o.ch.closed {
			return false // receivers start the exchange
		}
		return vm.sendReady(g, o.ch)
	case opRecv:
		return vm.recvReady(g, o.ch)
	case opSelect:
		if o.hasDefault {
			return true
		}
		for i := range o.cases {
			c := &o.cases[i]
			if vm.por && c.send && c.ch != nil && c.ch.cap == 0 && !c.ch.closed {
				continue // receivers start the exchange
			}
			if vm.caseReady(g, c) {
				return true
			}
		}
		return false
	}
	return false
}

// arrive is the step in which g starts waiting to send on unbuffered channels. What a receiver may get depends on who
// is waiting, so with partial order reduction this is an operation of its own.
func (g *Gor) arrive(o *op) {
	vm := g.vm
	if !vm.por || g.init || vm.initMode {
		return
	}
	var cs []selCase
	if o.kind == opSend {
		if o.ch != nil && o.ch.cap == 0 {
			cs = append(cs, selCase{ch: o.ch, send: true})
		}
	}
	for _, c := range o.cases {
		if c.send && c.ch != nil && c.ch.cap == 0 {
			cs = append(cs, selCase{ch: c.ch, send: true})
		}
	}
	if len(cs) == 0 {
		return
	}
	if o.hasDefault {
		unsupported("non-blocking send on an unbuffered channel with partial order reduction")
	}
	g.visible(&op{kind: opArrive, cases: cs, what: "arrive", where: o.where})
}

// touches is whether o synchronises on obj.
func (o *op) touches(obj any) bool {
	switch o.kind {
	case opSend, opRecv:
		return obj == any(o.ch)
	case opSelect, opArrive:
		for i := range o.cases {
			if obj == any(o.cases[i].ch) {
				return true
			}
		}
		return false
	}
	return obj == o.obj
}

// dependent is whether the order of two operations of different goroutines may matter.
// Operations synchronise on locks, channels and the like. Memory is not considered: accesses that are not ordered by
// synchronisation are data races, which C11 reports.
func dependent(a, b *op) bool {
	global := func(o *op) bool { return (o.kind == opYield || o.kind == opGeneric) && o.obj == nil }
	if global(a) || global(b) {
		return true
	}
	switch a.kind {
	case opSend, opRecv:
		return b.touches(a.ch)
	case opSelect, opArrive:
		if a.kind == opArrive && b.kind == opArrive {
			return false
		}
		for i := range a.cases {
			if a.cases[i].ch != nil && b.touches(a.cases[i].ch) {
				return true
			}
		}
		return false
	}
	if a.read && b.read {
		return false
	}
	return b.touches(a.obj)
}

// wakeSleepers takes the goroutines whose next operation depends on o out of the sleep set.
func (vm *VM) wakeSleepers(g *Gor, o *op) {
	if !vm.por {
		return
	}
	for _, s := range vm.gors {
		if s.asleep && s != g && (s.pending == nil || dependent(o, s.pending)) {
			s.asleep = false
		}
	}
}

func (vm *VM) caseReady(g *Gor, c *selCase) bool {
	if c.send {
		return vm.sendReady(g, c.ch)
	}
	return vm.recvReady(g, c.ch)
}

func (vm *VM) sendReady(g *Gor, ch *ChanV) bool {
	if ch == nil {
		return false
	}
	if ch.closed || len(ch.buf) < ch.cap {
		return true
	}
	if ch.cap > 0 {
		return false
	}
	return len(vm.partners(g, ch, false)) > 0
}

func (vm *VM) recvReady(g *Gor, ch *ChanV) bool {
	if ch == nil {
		return false
	}
	if ch.closed || len(ch.buf) > 0 {
		return true
	}
	if ch.cap > 0 {
		return false
	}
	return len(vm.partners(g, ch, true)) > 0
}

type partner struct {
	g *Gor
	i int // select case, or -1
}

// partners lists parked goroutines that could send to (send=true) or receive from ch.
func (vm *VM) partners(g *Gor, ch *ChanV, send bool) []partner {
	var r []partner
	for _, o := range vm.gors {
		if o == g || o.done || o.pending == nil || o.pending.completed {
			continue
		}
		p := o.pending
		switch p.kind {
		case opSend:
			if send && p.ch == ch {
				r = append(r, partner{o, -1})
			}
		case opRecv:
			if !send && p.ch == ch {
				r = append(r, partner{o, -1})
			}
		case opSelect:
			for i := range p.cases {
				if p.cases[i].ch == ch && p.cases[i].send == send {
					r = append(r, partner{o, i})
				}
			}
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].g.pending.seq < r[j].g.pending.seq })
	return r
}

func (vm *VM) pickNext(self *Gor) *Gor {
	// goroutines that can run without performing an operation
	if vm.explore {
		var best *Gor
		for _, g := range vm.gors {
			if g.done || g == self && !g.fresh {
				continue
			}
			if g.fresh || (g.pending != nil && g.pending.completed) {
				if g == self && g.pending != nil && g.pending.completed {
					return g
				}
				if best == nil || g.freshAt < best.freshAt {
					best = g
				}
			}
		}
		if best != nil {
			best.fresh = false
			return best
		}
		// receiving from a closed empty channel gives the same now or later and affects no other goroutine
		for _, g := range vm.gors {
			if g.done || g.pending == nil || g.fresh {
				continue
			}
			if o := g.pending; o.kind == opRecv && o.ch != nil && o.ch.closed && len(o.ch.buf) == 0 {
				g.asleep = false
				return g
			}
		}
	}
	for {
		var en []*Gor
		for _, g := range vm.gors {
			if g.done || (g.pending == nil && !g.fresh) {
				continue
			}
			if g.fresh || vm.enabled(g, g.pending) {
				en = append(en, g)
			}
		}
		if len(en) == 0 {
			// quiescent
			for _, g := range vm.gors {
				if !g.done && g.pending != nil && g.pending.kind == opQuiesce {
					return g
				}
			}
			if vm.fireTimer() {
				continue
			}
			panic(pathEnd{"deadlock", vm.blockedText()})
		}
		if !vm.explore {
			// longest waiting first
			best := en[0]
			for _, g := range en[1:] {
				if g.waitSeq() < best.waitSeq() {
					best = g
				}
			}
			best.fresh = false
			return best
		}
		if vm.por {
			awake := en[:0:0]
			for _, g := range en {
				if !g.asleep {
					awake = append(awake, g)
				}
			}
			if len(awake) == 0 {
				panic(pathEnd{"pruned", ""})
			}
			en = awake
		}
		if len(en) == 1 {
			vm.wakeSleepers(en[0], en[0].pending)
			return en[0]
		}
		selfOn := false
		for i, g := range en {
			if g == self {
				selfOn = true
				en[0], en[i] = en[i], en[0]
				sort.Slice(en[1:], func(a, b int) bool { return en[1+a].id < en[1+b].id })
				break
			}
		}
		if selfOn && !vm.por && vm.delays < 0 && vm.preempts >= vm.maxPreempt {
			return self
		}
		if vm.schedPoints >= vm.maxSchedPoints {
			vm.schedTrunc = true
			vm.wakeSleepers(en[0], en[0].pending)
			return en[0]
		}
		if vm.delays >= 0 {
			// the default is to go on with the current goroutine, or the next one after it that can; every goroutine
			// passed over is a delay
			if !selfOn {
				sort.Slice(en, func(a, b int) bool { return (en[a].id > self.id) != (en[b].id > self.id) && en[a].id > self.id || (en[a].id > self.id) == (en[b].id > self.id) && en[a].id < en[b].id })
			}
			en = en[:min(len(en), vm.delays+1)]
			if len(en) == 1 {
				return en[0]
			}
			vm.schedPoints++
			k := vm.choose("sched", len(en))
			vm.delays -= k
			return en[k]
		}
		vm.schedPoints++
		k := vm.choose("sched", len(en))
		if selfOn && k != 0 {
			vm.preempts++
		}
		if vm.por {
			for _, g := range en[:k] {
				g.asleep = true
			}
			vm.wakeSleepers(en[k], en[k].pending)
		}
		return en[k]
	}
}

func (g *Gor) waitSeq() int {
	if g.pending != nil {
		return g.pending.seq
	}
	return g.freshAt
}

func (vm *VM) blockedText() string {
	var sb strings.Builder
	for _, g := range vm.gors {
		if g.done || g.pending == nil {
			continue
		}
		fmt.Fprintf(&sb, "g%d[%s] blocked at %s %s; ", g.id, g.name, g.pending.what, g.pending.where)
	}
	return sb.String()
}

// ---- timers (virtual time)

func (vm *VM) fireTimer() bool {
	if vm.noTimers {
		return false
	}
	var best *timer
	for _, t := range vm.timers {
		if t.active && (best == nil || t.when < best.when || t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	best.active = false
	if best.when > vm.now {
		vm.now = best.when
	}
	best.fire()
	return true
}

func (vm *VM) addTimer(d int64, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	t := &timer{when: vm.now + d, seq: len(vm.timers), active: true, fire: fire}
	vm.timers = append(vm.timers, t)
	return t
}

// ---- channel operations

func (g *Gor) chanSend(ch *ChanV, v Value, where string) {
	if ch != nil && g.atomicCtx() && g.vm.sendReady(g, ch) {
		g.vm.doSend(g, ch, v)
		return
	}
	o := &op{kind: opSend, ch: ch, val: v, where: where, what: "send"}
	g.arrive(o)
	g.visible(o)
	if o.completed {
		return
	}
	g.vm.doSend(g, ch, v)
}

func (vm *VM) doSend(g *Gor, ch *ChanV, v Value) {
	if ch.closed {
		panic(goPanic{v: vm.runtimeErr("send on closed channel"), at: vm.stackTop()})
	}
	if ch.cap > 0 {
		ch.buf = append(ch.buf, v)
		if vm.race != nil {
			g.vc.join(ch.vc)
			ch.bufVC = append(ch.bufVC, g.vc.clone())
			g.vc.inc(g.id)
		}
		return
	}
	ps := vm.partners(g, ch, false)
	p := vm.pickPartner(ps)
	po := p.g.pending
	po.completed = true
	po.rcase = p.i
	po.rval, po.rok = v, true
	p.g.freshAt = vm.opSeq
	vm.raceRendezvous(g, p.g)
}

func (vm *VM) pickPartner(ps []partner) partner {
	if len(ps) > 1 && vm.explore {
		return ps[vm.choose("partner", len(ps))]
	}
	return ps[0]
}

func (g *Gor) chanRecv(ch *ChanV, et types.Type, where string) (Value, bool) {
	if ch != nil && g.atomicCtx() && g.vm.recvReady(g, ch) {
		return g.vm.doRecv(g, ch, et)
	}
	o := &op{kind: opRecv, ch: ch, where: where, what: "receive"}
	g.visible(o)
	if o.completed {
		return o.rval, o.rok
	}
	return g.vm.doRecv(g, ch, et)
}

func (vm *VM) doRecv(g *Gor, ch *ChanV, et types.Type) (Value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value{}, ch.buf[1:]...)
		if vm.race != nil {
			if len(ch.bufVC) > 0 {
				g.vc.join(ch.bufVC[0])
				ch.bufVC = ch.bufVC[1:]
			}
			ch.vc = ch.vc.joined(g.vc)
			g.vc.inc(g.id)
		}
		return v, true
	}
	if ch.closed {
		if vm.race != nil {
			g.vc.join(ch.vc)
		}
		return zero(et), false
	}
	ps := vm.partners(g, ch, true)
	p := vm.pickPartner(ps)
	po := p.g.pending
	v := po.val
	if p.i >= 0 {
		v = po.cases[p.i].val
	}
	po.completed = true
	po.rcase = p.i
	p.g.freshAt = vm.opSeq
	vm.raceRendezvous(g, p.g)
	return v, true
}

func (vm *VM) raceRendezvous(a, b *Gor) {
	if vm.race == nil {
		return
	}
	a.vc.join(b.vc)
	b.vc = a.vc.clone()
	a.vc.inc(a.id)
	b.vc.inc(b.id)
}

func (g *Gor) chanClose(ch *ChanV, where string) {
	vm := g.vm
	if ch == nil {
		panic(goPanic{v: vm.runtimeErr("close of nil channel"), at: where})
	}
	if vm.por && !g.init && !vm.initMode {
		g.visible(&op{kind: opYield, what: "close " + where, obj: ch})
	} else {
		g.yield("close " + where)
	}
	if ch.closed {
		panic(goPanic{v: vm.runtimeErr("close of closed channel"), at: where})
	}
	vm.closeChan(g, ch)
}

func (vm *VM) closeChan(g *Gor, ch *ChanV) {
	if vm.isFrozenChan(ch) {
		return
	}
	ch.closed = true
	if vm.race != nil {
		ch.vc = ch.vc.joined(g.vc)
		g.vc.inc(g.id)
	}
}

func (vm *VM) isFrozenChan(ch *ChanV) bool { return false }

func (vm *VM) runtimeErr(msg string) Value {
	t := vm.p.namedType("runtime", "plainError")
	if t == nil {
		t = vm.p.namedType("runtime", "errorString")
	}
	return IfaceV{t: t, v: msg}
}

func (p *Program) compileSelect(c *cfunc, in *ssa.Select) instrFn {
	d := c.slots[in]
	type st struct {
		ch, v opnd
		send  bool
		et    types.Type
	}
	var sts []st
	var nrecv int
	for _, s := range in.States {
		x := st{ch: p.opnd(c, s.Chan), send: s.Dir == types.SendOnly, et: under(s.Chan.Type()).(*types.Chan).Elem()}
		if x.send {
			x.v = p.opnd(c, s.Send)
		} else {
			nrecv++
		}
		sts = append(sts, x)
	}
	return func(fr *frame) {
		o := &op{kind: opSelect, hasDefault: !in.Blocking, where: fr.where(in), what: "select"}
		for _, s := range sts {
			cs := selCase{ch: s.ch.get(fr).(*ChanV), send: s.send, et: s.et}
			if s.send {
				cs.val = copyVal(s.v.get(fr))
			}
			o.cases = append(o.cases, cs)
		}
		k, v, ok := fr.g.doSelect(o)
		res := make(Tuple, 2+nrecv)
		res[0] = uint64(int64(k))
		res[1] = ok
		j := 2
		for i, s := range sts {
			if s.send {
				continue
			}
			if i == k {
				res[j] = v
			} else {
				res[j] = zero(s.et)
			}
			j++
		}
		fr.regs[d] = res
	}
}

func (g *Gor) doSelect(o *op) (int, Value, bool) {
	vm := g.vm
	if !(g.atomicCtx() && vm.enabled(g, o)) {
		g.arrive(o)
		g.visible(o)
	}
	if o.completed {
		return o.rcase, o.rval, o.rok
	}
	var ready []int
	for i := range o.cases {
		if vm.caseReady(g, &o.cases[i]) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		return -1, nil, false
	}
	k := 0
	if len(ready) > 1 && vm.selects != 0 {
		k = vm.choose("select", len(ready))
		if k > 0 && vm.selects > 0 {
			vm.selects--
		}
	}
	cs := &o.cases[ready[k]]
	if cs.send {
		vm.doSend(g, cs.ch, cs.val)
		return ready[k], nil, false
	}
	v, ok := vm.doRecv(g, cs.ch, cs.et)
	return ready[k], v, ok
}

// ---- locks

func (vm *VM) lockOf(c *Cell) *lockState {
	if c == nil {
		vm.nilDeref()
	}
	l := vm.locks[c]
	if l == nil {
		l = &lockState{}
		vm.locks[c] = l
	}
	return l
}

func (vm *VM) mutexLock(g *Gor, c *Cell) {
	l := vm.lockOf(c)
	free := func() bool { return !l.locked && l.readers == 0 }
	if !(g.atomicCtx() && free()) {
		g.visible(&op{kind: opGeneric, ready: free, what: "Lock", where: vm.callerWhere(g), obj: l})
	}
	l.locked, l.owner = true, g
	if vm.race != nil {
		g.vc.join(l.vc)
		g.vc.join(l.rvc)
	}
}

func (vm *VM) mutexTryLock(g *Gor, c *Cell) bool {
	l := vm.lockOf(c)
	g.yield("TryLock")
	if l.locked || l.readers > 0 {
		return false
	}
	l.locked, l.owner = true, g
	if vm.race != nil {
		g.vc.join(l.vc)
		g.vc.join(l.rvc)
	}
	return true
}

func (vm *VM) rwLock(g *Gor, c *Cell) {
	l := vm.lockOf(c)
	free := func() bool { return !l.locked && l.readers == 0 }
	if !(g.atomicCtx() && free()) {
		// reaching the lock is one step; waiting for readers (which keeps new readers out) is another
		if vm.explore {
			g.visible(&op{kind: opYield, what: "Lock", where: vm.callerWhere(g), obj: l})
		}
		if !free() || !vm.explore {
			l.pendW++
			g.visible(&op{kind: opGeneric, ready: free, what: "Lock", where: vm.callerWhere(g), obj: l})
			l.pendW--
		}
	}
	l.locked, l.owner = true, g
	if vm.race != nil {
		g.vc.join(l.vc)
		g.vc.join(l.rvc)
	}
}

func (vm *VM) mutexUnlock(g *Gor, c *Cell) {
	l := vm.lockOf(c)
	if !l.locked {
		panic(pathEnd{"panic", "fatal error: sync: unlock of unlocked mutex in " + vm.stackTop()})
	}
	l.locked, l.owner = false, nil
	if vm.race != nil {
		l.vc = l.vc.joined(g.vc)
		g.vc.inc(g.id)
	}
}

func (vm *VM) rwRLock(g *Gor, c *Cell) {
	l := vm.lockOf(c)
	free := func() bool { return !l.locked && l.pendW == 0 }
	if !(g.atomicCtx() && free()) {
		g.visible(&op{kind: opGeneric, ready: free, what: "RLock", where: vm.callerWhere(g), obj: l, read: true})
	}
	l.readers++
	if vm.race != nil {
		g.vc.join(l.vc)
	}
}

func (vm *VM) rwRUnlock(g *Gor, c *Cell) {
	l := vm.lockOf(c)
	if l.readers <= 0 {
		panic(pathEnd{"panic", "fatal error: sync: RUnlock of unlocked RWMutex in " + vm.stackTop()})
	}
	l.readers--
	if vm.race != nil {
		l.rvc = l.rvc.joined(g.vc)
		g.vc.inc(g.id)
	}
}

func (vm *VM) callerWhere(g *Gor) string {
	if g.fr == nil || g.fr.cf == nil {
		return ""
	}
	if vm.curInstr != nil {
		return posOf(vm.p, vm.curInstr)
	}
	return g.fr.cf.name
}

// ---- vector clocks and race detection

type VC []uint32

func (v VC) clone() VC { return append(VC{}, v...) }
func (v *VC) grow(n int) {
	for len(*v) < n {
		*v = append(*v, 0)
	}
}
func (v *VC) inc(i int) {
	if i < 0 {
		return
	}
	v.grow(i + 1)
	(*v)[i]++
}
func (v *VC) join(o VC) {
	v.grow(len(o))
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}
func (v VC) joined(o VC) VC {
	n := v.clone()
	n.join(o)
	return n
}
func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type shadow struct {
	wg, wclk int
	wAt      string
	reads    map[int]readRec
}
type readRec struct {
	clk int
	at  string
}

type raceState struct {
	cells map[*Cell]*shadow
	found map[string]bool
}

func (vm *VM) raceSite() string {
	g := vm.cur
	if g == nil {
		return "?"
	}
	var names []string
	for fr := g.fr; fr != nil && len(names) < 6; fr = fr.caller {
		if fr.cf != nil {
			names = append(names, fr.cf.name)
		}
	}
	return strings.Join(names, " < ")
}

func (vm *VM) raceOff() bool {
	return vm.initMode || vm.cur == nil || vm.cur.init || vm.raceQuiet > 0 || vm.cur.atomicCtx()
}

func (vm *VM) raceRead(c *Cell) {
	if vm.raceOff() {
		return
	}
	g := vm.cur
	s := vm.race.cells[c]
	if s == nil {
		s = &shadow{wg: -1}
		vm.race.cells[c] = s
	}
	if s.wg >= 0 && s.wg != g.id && g.vc.at(s.wg) < uint32(s.wclk) {
		vm.reportRace("read", vm.raceSite(), "write", s.wAt)
	}
	if s.reads == nil {
		s.reads = map[int]readRec{}
	}
	s.reads[g.id] = readRec{int(g.vc.at(g.id)), vm.raceSite()}
}

func (vm *VM) raceWrite(c *Cell) {
	if vm.raceOff() {
		return
	}
	g := vm.cur
	s := vm.race.cells[c]
	if s == nil {
		s = &shadow{wg: -1}
		vm.race.cells[c] = s
	}
	if s.wg >= 0 && s.wg != g.id && g.vc.at(s.wg) < uint32(s.wclk) {
		vm.reportRace("write", vm.raceSite(), "write", s.wAt)
	}
	for i, r := range s.reads {
		if i != g.id && g.vc.at(i) < uint32(r.clk) {
			vm.reportRace("write", vm.raceSite(), "read", r.at)
		}
	}
	s.wg, s.wclk, s.wAt = g.id, int(g.vc.at(g.id)), vm.raceSite()
	s.reads = nil
}

func (vm *VM) raceDeep(c *Cell, write bool) {
	switch v := c.v.(type) {
	case *StructV:
		for i := range v.f {
			vm.raceDeep(&v.f[i], write)
		}
	case *ArrayV:
		for i := range v.e {
			vm.raceDeep(&v.e[i], write)
		}
	default:
		if write {
			vm.raceWrite(c)
		} else {
			vm.raceRead(c)
		}
	}
}

func (vm *VM) reportRace(k1, s1, k2, s2 string) {
	key := k1 + s1 + k2 + s2
	if vm.race.found[key] {
		return
	}
	vm.race.found[key] = true
	vm.violation("data-race", fmt.Sprintf("data race: %s in %s / earlier %s in %s", k1, s1, k2, s2))
}
