package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Decision struct {
	k uint8 // 0 branch, 1 concretise, 2 choose, 3 implied branch
	b bool
	v uint64
}

type workItem struct {
	prefix []Decision
	model  map[string]uint64
}

type pathOutcome struct {
	kind  string // ok, panic, deadlock, budget, unsupported, infeasible, violation, internal, killed
	msg   string
	stack []string
	g     *Gor
}

type undoList []undoRec

// VM executes paths of one harness function. One per worker.
type VM struct {
	p          *Program
	ex         *Explorer
	tt         *TermTable
	solver     *Solver
	lia        *liaSolver
	stats      SolverStats
	globals    []*Cell
	globFrozen []bool
	initDone   map[*ssa.Package]bool
	initMode   bool
	undo       []undoRec
	race       *raceState
	raceQuiet  int
	curInstr   ssa.Instruction

	// per path
	cur        *Gor
	gors       []*Gor
	hostWG     sync.WaitGroup
	doneCh     chan *pathOutcome
	dead       bool
	explore    bool
	mapOrder   bool
	maxPreempt int
	delays     int // left, -1 if not delay bounded
	selects    int // selects that may take another than the first ready case, -1 if any
	preempts   int
	por        bool // sleep sets instead of a preemption bound
	schedPoints, maxSchedPoints int
	schedTrunc bool
	schedOps   int
	switches   int
	opSeq      int
	chanSeq    int
	maxGor     int
	locks      map[*Cell]*lockState
	wgs        map[*Cell]*wgState
	onces      map[*Cell]*onceState
	initOnces  []*Cell
	frozenOnce map[*Cell]bool
	side       map[any]any
	timers     []*timer
	noTimers   bool
	now        int64
	steps      int
	maxSteps   int
	pc         []*Term
	pcSet      map[int]bool
	uf         map[int]int
	model      Model
	prefix     []Decision
	pos        int
	trail      []Decision
	nBranch    int
	varSeq     map[string]int
	inputs     []inputRec
	observed   []obsRec
	covers     map[string]bool
	asserts    int
	qcache     map[string]qres
	ended      bool
	nextUniq   int
	knownID    string
}

type inputRec struct {
	name string
	t    *Term // nil for choices made outside the solver
	v    uint64
}

type obsRec struct {
	name string
	v    Value
}

type qres struct {
	r SatResult
	m map[int]uint64
}

type Violation struct {
	Label   string            `json:"label"`
	Msg     string            `json:"msg"`
	Inputs  map[string]uint64 `json:"inputs"`
	Order   []string          `json:"order"`
	Stack   []string          `json:"stack"`
	Harness string            `json:"harness"`
	Known   string            `json:"known,omitempty"`
	Observed []string         `json:"observed,omitempty"`
	Sched   bool              `json:"sched"`
}

// Explorer drives the exploration of one harness function.
type Explorer struct {
	p       *Program
	fn      *ssa.Function
	name    string
	workers int
	seed    int64

	maxPaths  int64
	deadline  time.Time
	maxSteps  int
	maxGor     int
	maxBranch int
	solverTmo time.Duration
	solverBin string
	tier      string

	mu     sync.Mutex
	cond   *sync.Cond
	queue  []workItem
	active int
	stop   bool
	rng    *rand.Rand

	pruned, paths, okPaths, truncated, infeasible, unsupportedN int64
	transitions, schedOps, branches, assertsChecked, assertsConcrete, replays  int64
	switches int64
	stats      SolverStats
	violations []*Violation
	vcount     map[string]int
	reasons    map[string]int
	covers     map[string]int64
	samples    []*Sample
	stopReason string
	schedTrunc int64
	maxTrail   int
	symVars    map[string]bool
	assertLabels map[string]int64
}

// Sample is a completed path with concrete inputs, for validation against the real code.
type Sample struct {
	Inputs   map[string]uint64 `json:"inputs"`
	Observed []string          `json:"observed"`
	Sched    bool              `json:"sched"`
	Decisions int              `json:"decisions"`
}

func (ex *Explorer) push(it workItem) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, it)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) pop() (workItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return workItem{}, false
		}
		if len(ex.queue) > 0 {
			if time.Now().After(ex.deadline) {
				ex.stop, ex.stopReason = true, "time limit"
				ex.cond.Broadcast()
				return workItem{}, false
			}
			if atomic.LoadInt64(&ex.paths) >= ex.maxPaths {
				ex.stop, ex.stopReason = true, "path limit"
				ex.cond.Broadcast()
				return workItem{}, false
			}
			n := len(ex.queue)
			i := n - 1
			if ex.rng.Intn(4) == 0 {
				i = ex.rng.Intn(n)
			}
			it := ex.queue[i]
			ex.queue[i] = ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			ex.active++
			return it, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return workItem{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) release() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func newVM(p *Program, ex *Explorer) *VM {
	vm := &VM{p: p, ex: ex, initDone: map[*ssa.Package]bool{}, frozenOnce: map[*Cell]bool{}}
	vm.resetTerms()
	return vm
}

func (vm *VM) resetTerms() {
	if vm.solver != nil {
		vm.solver.Close()
		vm.solver = nil
	}
	if vm.lia != nil {
		vm.lia.Close()
		vm.lia = nil
	}
	vm.tt = NewTermTable()
	vm.qcache = map[string]qres{}
}

func (vm *VM) getSolver() *Solver {
	if vm.solver == nil {
		s, err := NewSolver(vm.ex.solverBin, vm.ex.solverTmo, &vm.stats)
		if err != nil {
			panic(engineError{"cannot start solver: " + err.Error()})
		}
		vm.solver = s
	}
	return vm.solver
}

func hostStack() string {
	s := string(debug.Stack())
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

// Run explores until the queue is empty or a limit is hit.
func (ex *Explorer) Run(vms []*VM) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.rng = rand.New(rand.NewSource(ex.seed + 1))
	ex.vcount = map[string]int{}
	ex.reasons = map[string]int{}
	ex.covers = map[string]int64{}
	ex.symVars = map[string]bool{}
	ex.assertLabels = map[string]int64{}
	ex.queue = []workItem{{}}
	var wg sync.WaitGroup
	for _, vm := range vms {
		wg.Add(1)
		vm.ex = ex
		vm.stats = SolverStats{}
		if vm.solver != nil {
			vm.solver.stats = &vm.stats
		}
		go func() {
			defer wg.Done()
			for {
				it, ok := ex.pop()
				if !ok {
					return
				}
				vm.runPath(it)
				ex.release()
			}
		}()
	}
	wg.Wait()
	for _, vm := range vms {
		ex.stats.add(&vm.stats)
	}
}

func (vm *VM) runPath(it workItem) {
	ex := vm.ex
	if vm.tt.next > 1_500_000 {
		vm.resetTerms()
	}
	vm.gors = nil
	vm.doneCh = make(chan *pathOutcome, 1)
	vm.dead = false
	vm.explore, vm.mapOrder = false, false
	vm.maxPreempt, vm.preempts, vm.schedPoints, vm.maxSchedPoints = 0, 0, 0, 10000
	vm.por = false
	vm.delays = -1
	vm.selects = -1
	vm.schedTrunc = false
	vm.schedOps, vm.switches = 0, 0
	vm.opSeq, vm.chanSeq = 0, 0
	vm.maxGor = 200
	if ex.maxGor > 0 {
		vm.maxGor = ex.maxGor
	}
	vm.locks = map[*Cell]*lockState{}
	vm.wgs = map[*Cell]*wgState{}
	vm.onces = map[*Cell]*onceState{}
	vm.side = map[any]any{}
	vm.timers = nil
	vm.noTimers = false
	vm.now = 1_700_000_000_000_000_000
	vm.steps, vm.maxSteps = 0, ex.maxSteps
	vm.pc, vm.pcSet, vm.uf = nil, map[int]bool{}, map[int]int{}
	vm.model = Model{}
	vm.prefix, vm.pos, vm.trail = it.prefix, 0, nil
	vm.nBranch = 0
	vm.varSeq = map[string]int{}
	vm.inputs, vm.observed = nil, nil
	vm.covers = map[string]bool{}
	vm.asserts = 0
	vm.race = nil
	vm.raceQuiet = 0
	vm.nextUniq = 0
	vm.knownID = ""
	vm.curInstr = nil
	vm.ended = false
	vm.initModel(it.model)

	vm.cur = nil
	g0 := vm.spawn("main", func(g *Gor) { vm.callFn(g, ex.fn, nil, nil, false) })
	g0.fresh = false
	vm.cur = g0
	g0.wake <- struct{}{}
	var out *pathOutcome
	select {
	case out = <-vm.doneCh:
	case <-time.After(120 * time.Second):
		// should not happen: a path is bounded by its step budget
		out = &pathOutcome{kind: "internal", msg: "path watchdog"}
		if os.Getenv("GOSYM_DEBUG") != "" {
			debug.SetTraceback("all")
			panic("watchdog")
		}
	}
	// classify before the goroutines are unwound
	switch out.kind {
	case "panic":
		if out.g != nil {
			vm.cur = out.g
		}
		vm.violationKind("panic", out.msg, out.stack)
	case "deadlock":
		vm.violationKind("deadlock", out.msg, out.stack)
	}
	vm.dead = true
	for _, g := range vm.gors {
		if !g.done {
			select {
			case g.wake <- struct{}{}:
			default:
			}
		}
	}
	vm.hostWG.Wait()
	// restore the initial heap
	for i := len(vm.undo) - 1; i >= 0; i-- {
		u := vm.undo[i]
		if u.fn != nil {
			u.fn()
		} else {
			u.c.v = u.old
		}
	}
	vm.undo = vm.undo[:0]

	ex.mu.Lock()
	defer ex.mu.Unlock()
	atomic.AddInt64(&ex.paths, 1)
	ex.transitions += int64(vm.steps)
	ex.schedOps += int64(vm.schedOps)
	ex.switches += int64(vm.switches)
	if len(vm.trail) > ex.maxTrail {
		ex.maxTrail = len(vm.trail)
	}
	if vm.schedTrunc {
		ex.schedTrunc++
	}
	for c := range vm.covers {
		ex.covers[c]++
	}
	for _, in := range vm.inputs {
		ex.symVars[in.name] = true
	}
	switch out.kind {
	case "ok":
		ex.okPaths++
		vm.maybeSample()
	case "pruned":
		ex.pruned++
	case "infeasible":
		ex.infeasible++
	case "panic", "deadlock", "violation":
	default:
		ex.truncated++
		if out.kind == "unsupported" || out.kind == "internal" {
			ex.unsupportedN++
		}
		r := out.kind + ": " + out.msg
		if len(out.stack) > 0 {
			n := min(len(out.stack), 8)
			r += " in " + strings.Join(out.stack[:n], " < ")
		}
		ex.reasons[r]++
	}
}

func (vm *VM) maybeSample() {
	ex := vm.ex
	// reservoir of the completed paths
	const k = 6
	s := func() *Sample {
		return &Sample{Inputs: vm.modelInputs(vm.model), Observed: vm.observedText(vm.model), Sched: vm.explore || vm.schedPoints > 0, Decisions: len(vm.trail)}
	}
	if len(ex.samples) < k {
		ex.samples = append(ex.samples, s())
		return
	}
	if i := ex.rng.Int63n(ex.okPaths); i < k {
		ex.samples[i] = s()
	}
}

func (vm *VM) observedText(m Model) []string {
	var r []string
	for _, o := range vm.observed {
		r = append(r, o.name+"="+vm.showVal(o.v, m))
	}
	return r
}

// showVal prints a scalar or string value under a model.
func (vm *VM) showVal(v Value, m Model) string {
	switch x := v.(type) {
	case *Term:
		u := vm.tt.Eval(x, m)
		if x.sort == SBool {
			return fmt.Sprint(u != 0)
		}
		if x.sort == SF32 || x.sort == SF64 {
			return fmt.Sprint(fval(x.sort, u))
		}
		return fmt.Sprint(u)
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, c := range x.b {
			switch c := c.(type) {
			case uint64:
				b[i] = byte(c)
			case *Term:
				b[i] = byte(vm.tt.Eval(c, m))
			}
		}
		return fmt.Sprintf("%q", string(b))
	case string:
		return fmt.Sprintf("%q", x)
	case IfaceV:
		if x.t == nil {
			return "nil"
		}
		return vm.showVal(x.v, m)
	}
	return fmt.Sprint(v)
}

func (vm *VM) modelInputs(m Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, in := range vm.inputs {
		if in.t != nil {
			r[in.name] = m[in.t.id]
		} else {
			r[in.name] = in.v
		}
	}
	return r
}

// initModel maps a model keyed by variable name onto this worker's terms.
func (vm *VM) initModel(m map[string]uint64) {
	for k, v := range m {
		i := strings.LastIndexByte(k, '|')
		var s int
		var lo, hi int64
		if n, _ := fmt.Sscanf(k[i+1:], "%d %d %d", &s, &lo, &hi); n == 3 {
			vm.model[vm.tt.VarIn(k[:i], Sort(s), lo, hi).id] = v
			continue
		}
		t := vm.tt.Var(k[:i], Sort(s))
		vm.model[t.id] = v
	}
}

func (vm *VM) namedModel(m Model) map[string]uint64 {
	r := make(map[string]uint64, len(m))
	for _, in := range vm.inputs {
		if in.t != nil {
			if in.t.val > 0 {
				r[fmt.Sprintf("%s|%d %d %d", in.t.name, in.t.sort, in.t.lo, in.t.hi)] = m[in.t.id]
				continue
			}
			r[fmt.Sprintf("%s|%d", in.t.name, in.t.sort)] = m[in.t.id]
		}
	}
	return r
}

// ---- symbolic inputs

func (vm *VM) uniqName(name string) string {
	n := vm.varSeq[name]
	vm.varSeq[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

func (vm *VM) newVar(name string, s Sort) *Term {
	name = vm.uniqName(name)
	t := vm.tt.Var(name, s)
	vm.inputs = append(vm.inputs, inputRec{name: name, t: t})
	return t
}

func (vm *VM) newVarIn(name string, s Sort, lo, hi int64) *Term {
	name = vm.uniqName(name)
	t := vm.tt.VarIn(name, s, lo, hi)
	vm.inputs = append(vm.inputs, inputRec{name: name, t: t})
	return t
}

// choose forks over n alternatives of a schedule-like variable that nothing else constrains.
func (vm *VM) choose(name string, n int) int {
	if n == 1 {
		return 0
	}
	name = vm.uniqName(name)
	if vm.pos < len(vm.prefix) {
		d := vm.prefix[vm.pos]
		vm.pos++
		if d.k != 2 {
			panic(engineError{"replay divergence (choose)"})
		}
		vm.trail = append(vm.trail, d)
		vm.inputs = append(vm.inputs, inputRec{name: name, v: d.v})
		return int(d.v)
	}
	vm.bumpBranch()
	base := vm.trail[:len(vm.trail):len(vm.trail)]
	nm := vm.namedModel(vm.model)
	for i := n - 1; i >= 1; i-- {
		p := append(append(make([]Decision, 0, len(base)+1), base...), Decision{k: 2, v: uint64(i)})
		vm.ex.push(workItem{prefix: p, model: nm})
	}
	vm.trail = append(vm.trail, Decision{k: 2, v: 0})
	vm.inputs = append(vm.inputs, inputRec{name: name, v: 0})
	return 0
}

func (vm *VM) bumpBranch() {
	vm.nBranch++
	if vm.nBranch > vm.ex.maxBranch {
		panic(pathEnd{"budget", "branch budget exceeded in " + vm.stackTop()})
	}
	atomic.AddInt64(&vm.ex.branches, 1)
}

// ---- path condition

func (vm *VM) find(x int) int {
	r := x
	for {
		p, ok := vm.uf[r]
		if !ok || p == r {
			break
		}
		r = p
	}
	for x != r {
		p := vm.uf[x]
		vm.uf[x] = r
		x = p
	}
	return r
}

func (vm *VM) union(vars []int) {
	if len(vars) == 0 {
		return
	}
	for _, v := range vars {
		if _, ok := vm.uf[v]; !ok {
			vm.uf[v] = v
		}
	}
	r := vm.find(vars[0])
	for _, v := range vars[1:] {
		q := vm.find(v)
		if q != r {
			vm.uf[q] = r
		}
	}
}

func (vm *VM) addPC(t *Term) {
	if t.op == OConst {
		return
	}
	if t.op == OAnd {
		vm.addPC(t.args[0])
		vm.addPC(t.args[1])
		return
	}
	if vm.pcSet[t.id] {
		return
	}
	vm.pcSet[t.id] = true
	vm.pc = append(vm.pc, t)
	vm.union(t.vars)
}

func (vm *VM) entailed(t *Term) (bool, bool) {
	if vm.pcSet[t.id] {
		return true, true
	}
	if vm.pcSet[vm.tt.Not(t).id] {
		return false, true
	}
	if t.op == OAnd {
		a, ok1 := vm.entailed(t.args[0])
		b, ok2 := vm.entailed(t.args[1])
		if ok1 && ok2 {
			return a && b, true
		}
		if ok1 && !a || ok2 && !b {
			return false, true
		}
	}
	if t.op == OOr {
		a, ok1 := vm.entailed(t.args[0])
		b, ok2 := vm.entailed(t.args[1])
		if ok1 && ok2 {
			return a || b, true
		}
		if ok1 && a || ok2 && b {
			return true, true
		}
	}
	if t.op == ONot {
		a, ok := vm.entailed(t.args[0])
		return !a, ok
	}
	return false, false
}

// query asks whether pc and c is satisfiable; the model returned satisfies both.
func (vm *VM) query(c *Term) (SatResult, Model) {
	if c.op == OConst {
		if c.val != 0 {
			return Sat, vm.model
		}
		return Unsat, nil
	}
	roots := map[int]bool{}
	for _, v := range c.vars {
		if _, ok := vm.uf[v]; ok {
			roots[vm.find(v)] = true
		}
	}
	conj := []*Term{}
	vset := map[int]bool{}
	for _, v := range c.vars {
		vset[v] = true
	}
	for _, t := range vm.pc {
		if roots[vm.find(t.vars[0])] {
			conj = append(conj, t)
			for _, v := range t.vars {
				vset[v] = true
			}
		}
	}
	ids := make([]int, 0, len(conj)+1)
	for _, t := range conj {
		ids = append(ids, t.id)
	}
	sort.Ints(ids)
	key := fmt.Sprint(c.id, ids)
	if q, ok := vm.qcache[key]; ok {
		vm.stats.CacheHits++
		return q.r, vm.merged(q.m)
	}
	conj = append(conj, c)
	var vars []*Term
	for _, t := range vm.tt.vars {
		if vset[t.id] {
			vars = append(vars, t)
		}
	}
	if r, m := vm.checkLinear(conj, vars); r != Unknown {
		vm.qcache[key] = qres{r, m}
		return r, vm.merged(m)
	}
	r, m, err := vm.getSolver().Check(conj, vars)
	if err != nil {
		// the solver died: start afresh (terms must be emitted again)
		vm.solver.Close()
		vm.solver = nil
		for _, t := range vm.tt.tab {
			t.emitted = false
		}
		r, m, err = vm.getSolver().Check(conj, vars)
		if err != nil {
			vm.stats.Unknown++
			vm.solver.Close()
			vm.solver = nil
			for _, t := range vm.tt.tab {
				t.emitted = false
			}
			return Unknown, nil
		}
	}
	if r != Unknown {
		vm.qcache[key] = qres{r, m}
	}
	return r, vm.merged(m)
}

func (vm *VM) merged(m map[int]uint64) Model {
	r := make(Model, len(vm.model)+len(m))
	for k, v := range vm.model {
		r[k] = v
	}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (vm *VM) branchAt(v Value, in ssa.Instruction) bool {
	if in != nil {
		vm.curInstr = in
	}
	return vm.branch(v)
}

// branch decides a boolean value, forking when both sides are feasible.
func (vm *VM) branch(v Value) bool {
	switch b := v.(type) {
	case bool:
		return b
	case *Term:
		return vm.decide(b, Decision{k: 0})
	case Poison:
		unsupported("branch on poison: %s", b.why)
	}
	unsupported("branch on %T", v)
	return false
}

func (vm *VM) decide(c *Term, d Decision) bool {
	if c.op == OConst {
		return c.val != 0
	}
	if b, ok := vm.entailed(c); ok {
		return b
	}
	if vm.pos < len(vm.prefix) {
		p := vm.prefix[vm.pos]
		vm.pos++
		if p.k == 2 {
			panic(engineError{"replay divergence (branch)"})
		}
		vm.trail = append(vm.trail, p)
		if p.k != 3 {
			if p.b {
				vm.addPC(c)
			} else {
				vm.addPC(vm.tt.Not(c))
			}
		}
		return p.b
	}
	vm.bumpBranch()
	b := vm.tt.Eval(c, vm.model) != 0
	take, other := c, vm.tt.Not(c)
	if !b {
		take, other = other, take
	}
	r, m := vm.query(other)
	switch r {
	case Unsat:
		d.k, d.b = 3, b
		vm.trail = append(vm.trail, d)
		return b
	case Unknown:
		vm.ex.mu.Lock()
		vm.ex.reasons["solver unknown at branch in "+vm.stackTop()]++
		vm.ex.truncated++
		vm.ex.mu.Unlock()
	case Sat:
		p := append(append(make([]Decision, 0, len(vm.trail)+1), vm.trail...), Decision{k: d.k, b: !b, v: d.v})
		vm.ex.push(workItem{prefix: p, model: vm.namedModel(m)})
	}
	d.b = b
	vm.trail = append(vm.trail, d)
	vm.addPC(take)
	return b
}

// concretize forks over the feasible values of a term.
func (vm *VM) concretize(t *Term, in ssa.Instruction) uint64 {
	if in != nil {
		vm.curInstr = in
	}
	if t.op == OConst {
		return t.val
	}
	for i := 0; ; i++ {
		var v uint64
		if vm.pos < len(vm.prefix) {
			p := vm.prefix[vm.pos]
			if p.k == 3 || p.k == 1 {
				v = p.v
			} else {
				panic(engineError{"replay divergence (concretise)"})
			}
		} else {
			v = vm.tt.Eval(t, vm.model)
		}
		c := vm.tt.Bin(OEq, t, vm.tt.Const(t.sort, v))
		// entailed conditions leave no record, so keep the position in step
		if c.op == OConst {
			if c.val != 0 {
				return v
			}
			panic(engineError{"concretise: impossible value"})
		}
		if vm.decideRec(c, v) {
			return v
		}
		if i > 300 {
			panic(pathEnd{"budget", "too many values to enumerate in " + vm.stackTop()})
		}
	}
}

func (vm *VM) decideRec(c *Term, v uint64) bool {
	if vm.pos < len(vm.prefix) {
		p := vm.prefix[vm.pos]
		vm.pos++
		vm.trail = append(vm.trail, p)
		if p.k != 3 {
			if p.b {
				vm.addPC(c)
			} else {
				vm.addPC(vm.tt.Not(c))
			}
		}
		return p.b
	}
	if b, ok := vm.entailed(c); ok {
		vm.trail = append(vm.trail, Decision{k: 3, b: b, v: v})
		return b
	}
	n := len(vm.trail)
	b := vm.decide(c, Decision{k: 1, v: v})
	if len(vm.trail) == n {
		vm.trail = append(vm.trail, Decision{k: 3, b: b, v: v})
	} else {
		vm.trail[n].v = v
	}
	return b
}

// assume restricts the path.
func (vm *VM) assume(v Value) {
	switch b := v.(type) {
	case bool:
		if !b {
			panic(pathEnd{"infeasible", ""})
		}
		return
	case *Term:
		if vm.pos < len(vm.prefix) {
			vm.addPC(b)
			return
		}
		if vm.tt.Eval(b, vm.model) == 0 {
			r, m := vm.query(b)
			switch r {
			case Unsat:
				panic(pathEnd{"infeasible", ""})
			case Unknown:
				panic(pathEnd{"budget", "solver unknown at assumption"})
			}
			vm.model = m
		}
		vm.addPC(b)
		return
	}
	unsupported("assume %T", v)
}

// assert is the property check: pc and not c must be unsatisfiable.
func (vm *VM) assert(label string, v Value, msg func() string) {
	vm.asserts++
	switch b := v.(type) {
	case bool:
		if vm.pos >= len(vm.prefix) {
			vm.ex.mu.Lock()
			vm.ex.assertsConcrete++
			vm.ex.assertLabels[label]++
			vm.ex.mu.Unlock()
		}
		if !b {
			vm.violation(label, msg())
			panic(pathEnd{"violation", label})
		}
		return
	case *Term:
		if vm.pos < len(vm.prefix) {
			vm.addPC(b)
			return
		}
		if e, ok := vm.entailed(b); ok && e {
			return
		}
		r, m := vm.query(vm.tt.Not(b))
		vm.ex.mu.Lock()
		vm.ex.assertsChecked++
		vm.ex.assertLabels[label]++
		vm.ex.mu.Unlock()
		switch r {
		case Unknown:
			vm.ex.mu.Lock()
			vm.ex.reasons["solver unknown at assertion "+label]++
			vm.ex.truncated++
			vm.ex.mu.Unlock()
		case Sat:
			saved := vm.model
			vm.model = m
			vm.violation(label, msg())
			vm.model = saved
			if vm.tt.Eval(b, vm.model) == 0 {
				r, m := vm.query(b)
				if r != Sat {
					panic(pathEnd{"violation", label})
				}
				vm.model = m
			}
		}
		vm.addPC(b)
		return
	case Poison:
		unsupported("assert on poison %s", b.why)
	}
	unsupported("assert on %T", v)
}

func (vm *VM) violation(label, msg string) { vm.violationKind(label, msg, vm.stack()) }

func (vm *VM) violationKind(label, msg string, stack []string) {
	v := &Violation{Label: label, Msg: msg, Inputs: vm.modelInputs(vm.model), Stack: stack, Harness: vm.ex.name,
		Observed: vm.observedText(vm.model), Sched: vm.schedPoints > 0 || vm.explore, Known: vm.knownID}
	for _, in := range vm.inputs {
		v.Order = append(v.Order, in.name)
	}
	key := label + "/" + vm.knownID
	if label == "panic" || label == "deadlock" || label == "data-race" {
		key = label + ":" + msg
	}
	vm.ex.mu.Lock()
	defer vm.ex.mu.Unlock()
	vm.ex.vcount[key]++
	if vm.ex.vcount[key] <= 4 {
		vm.ex.violations = append(vm.ex.violations, v)
	}
}

func (vm *VM) panicText(g *Gor, p goPanic) string {
	iv, ok := p.v.(IfaceV)
	if !ok {
		return fmt.Sprint(p.v)
	}
	if iv.t == nil {
		return "panic(nil) at " + p.at
	}
	s := ""
	switch x := iv.v.(type) {
	case string:
		s = x
	case *SymStr:
		s = vm.showVal(x, vm.model)
	default:
		func() {
			defer func() {
				if r := recover(); r != nil {
					s = iv.t.String()
				}
			}()
			if v, ok := vm.callMethod(g, iv, "Error"); ok {
				s = vm.showVal(v, vm.model)
			} else {
				s = fmt.Sprint(iv.v)
			}
		}()
	}
	return s + " at " + p.at
}

func mustJSON(v any) []byte {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	return b
}
