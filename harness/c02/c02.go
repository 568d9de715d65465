// Package c02: concurrent writes are atomic.
package c02

import (
	"sync"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type msg = testproto.TestAllTypes

// kinds of write
const (
	set    = iota // overwrite, no create
	cas           // overwrite if the value is as expected
	inc           // read-modify-write in InterceptAfter
	incB          // read-modify-write in InterceptBefore
	check         // overwrite if a check accepts the value
	put           // overwrite or create
	incPut        // read-modify-write or create
	add           // create
	del
	delCas
	delCheck
	gen // create with a generated id
	nKinds
)

var names = []string{"set", "cas", "inc", "incB", "check", "put", "incPut", "add", "del", "delCas", "delCheck", "gen"}

// call is one write with its outcome.
type call struct {
	kind     int
	x, e     int32 // the written value or increment, and the expected value
	code     codes.Code
	ret      proto.Message
	id       string
	inv, res int
	prev     *call // earlier call by the same goroutine
}

type history struct {
	mu    sync.Mutex
	n     int
	calls []*call
}

func (h *history) tick() int {
	defer h.lock()()
	h.n++
	return h.n
}

// lock guards the history when run natively. In the executor goroutines only switch at operations that synchronise,
// so there it would only add scheduling points.
func (h *history) lock() func() {
	if sym.Symbolic() {
		return func() {}
	}
	h.mu.Lock()
	return h.mu.Unlock
}

func (h *history) begin(c *call) {
	c.inv = h.tick()
	defer h.lock()()
	h.calls = append(h.calls, c)
}

func (c *call) opts() []resource.WriteOption {
	x, e := c.x, c.e
	switch c.kind {
	case cas, delCas:
		return []resource.WriteOption{resource.WithExpectedValue(&msg{DefaultInt32: e})}
	case check, delCheck:
		return []resource.WriteOption{resource.WithExpectedCheck(func(m proto.Message) error {
			if m.(*msg).DefaultInt32 < e {
				return status.Error(codes.FailedPrecondition, "too small")
			}
			return nil
		})}
	case inc:
		return []resource.WriteOption{after(x)}
	case incB:
		return []resource.WriteOption{resource.InterceptBefore(func(old, new proto.Message) {
			new.(*msg).DefaultInt32 = old.(*msg).DefaultInt32 + x
		})}
	case put:
		return []resource.WriteOption{resource.WithCreateIfAbsent()}
	case incPut:
		return []resource.WriteOption{resource.WithCreateIfAbsent(), after(x)}
	case gen:
		return []resource.WriteOption{resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) { c.id = id })}
	}
	return nil
}

func after(x int32) resource.WriteOption {
	return resource.InterceptAfter(func(old, new proto.Message) {
		new.(*msg).DefaultInt32 = old.(*msg).DefaultInt32 + x
	})
}

func (h *history) done(c *call, ret proto.Message, err error) {
	c.res = h.tick()
	c.code = status.Code(err)
	switch c.code {
	case codes.OK:
		c.ret = ret
	case codes.Aborted, codes.AlreadyExists, codes.FailedPrecondition, codes.NotFound, codes.Unavailable:
	default:
		sym.Fail("unexpected-error", names[c.kind], err)
	}
}

func (h *history) onCollection(col *resource.Collection, c *call) {
	h.begin(c)
	m := &msg{DefaultInt32: c.x}
	var ret proto.Message
	var err error
	switch c.kind {
	case add:
		ret, err = col.Add(c.id, m, c.opts()...)
	case gen:
		ret, err = col.Add("", m, c.opts()...)
	case del, delCas, delCheck:
		ret, err = col.Delete(c.id, c.opts()...)
	default:
		ret, err = col.Update(c.id, m, c.opts()...)
	}
	h.done(c, ret, err)
}

func (h *history) onValue(v *resource.Value, c *call) {
	h.begin(c)
	ret, err := v.Set(&msg{DefaultInt32: c.x}, c.opts()...)
	h.done(c, ret, err)
}

// state is the specification: the value of each item, by id.
type state map[string]int32

func (s state) clone() state {
	r := state{}
	for k, v := range s {
		r[k] = v
	}
	return r
}

// apply runs the call on the specification. ok is whether the outcome of the call can be explained at this point,
// which is partly symbolic.
func (c *call) apply(s state) (possible bool, cond bool) {
	v, has := s[c.id]
	okay := c.code == codes.OK
	if c.code == codes.Aborted || c.code == codes.Unavailable {
		return true, true
	}
	switch c.kind {
	case add, gen:
		if has {
			return c.code == codes.AlreadyExists, true
		}
	case put, incPut:
	default:
		if !has {
			return c.code == codes.NotFound, true
		}
	}
	if c.code == codes.AlreadyExists || c.code == codes.NotFound {
		return false, false
	}
	cond = true
	switch c.kind {
	case cas, delCas:
		cond = v == c.e
		if !okay {
			return true, sym.Not(cond)
		}
	case check, delCheck:
		cond = v >= c.e
		if !okay {
			return true, sym.Not(cond)
		}
	default:
		if !okay {
			return false, false
		}
	}
	got := c.ret.(*msg).DefaultInt32
	switch c.kind {
	case del, delCas, delCheck:
		delete(s, c.id)
		return true, sym.And(cond, got == v)
	case inc, incB, incPut:
		s[c.id] = v + c.x // absent items read as zero
	default:
		s[c.id] = c.x
	}
	return true, sym.And(cond, got == s[c.id])
}

// linearizable looks for an order of the calls, consistent with real time, that explains every outcome and the end.
func (h *history) linearizable(start, end state) bool {
	found := false
	var search func(s state, left []*call, cond bool)
	search = func(s state, left []*call, cond bool) {
		if len(left) == 0 {
			if len(s) != len(end) {
				return
			}
			for id, v := range end {
				got, ok := s[id]
				if !ok {
					return
				}
				cond = sym.And(cond, got == v)
			}
			found = sym.Or(found, cond)
			return
		}
		for i, c := range left {
			first := true
			for _, o := range left {
				if o.res < c.inv {
					first = false // o was over before c began
				}
			}
			if !first {
				continue
			}
			n := s.clone()
			possible, ok := c.apply(n)
			if !possible {
				continue
			}
			rest := append(append([]*call{}, left[:i]...), left[i+1:]...)
			search(n, rest, sym.And(cond, ok))
		}
	}
	search(start, h.calls, true)
	return found
}

// lostRace checks that a call only says it lost a race when there was one.
func (h *history) lostRace(c *call) {
	if c.code != codes.Aborted && c.code != codes.Unavailable {
		return
	}
	for _, o := range h.calls {
		if o != c && o.code == codes.OK && o.inv < c.res && c.inv < o.res {
			return
		}
	}
	sym.Fail("aborted-without-race", names[c.kind])
}

func (h *history) verify(start, end state) {
	text := ""
	for _, c := range h.calls {
		text += names[c.kind] + ":" + c.code.String() + " "
		h.lostRace(c)
	}
	sym.Assert("linearizable", h.linearizable(start, end), text)
	sym.Observe("n", len(h.calls))
}

func newCall(id string, kinds []int) *call {
	c := &call{kind: kinds[sym.Choice("kind", len(kinds))], id: id, x: sym.Int32("x")}
	switch c.kind {
	case cas, check, delCas, delCheck:
		c.e = sym.Int32("e")
	}
	return c
}

func run(plans [][]*call, preempts int, do func(*call)) {
	var wg sync.WaitGroup
	wg.Add(len(plans))
	sym.Explore(preempts, 200)
	for _, p := range plans {
		go func() {
			defer wg.Done()
			for _, c := range p {
				do(c)
			}
		}()
	}
	wg.Wait()
	sym.Sequential()
}

func collection(id string, shape []int, kinds []int, preempts int) {
	h := &history{}
	start := state{}
	opts := []resource.Option{resource.WithClock(&hx.Clock{Hold: true}), resource.WithRNG(&hx.Rng{Mod: 2, Base: 'a'})}
	if sym.Flip("present") {
		v := sym.Int32("init")
		start[id] = v
		opts = append(opts, resource.WithInitialRecord(id, &msg{DefaultInt32: v}))
	}
	c := resource.NewCollection(opts...)
	var plans [][]*call
	for _, n := range shape {
		var p []*call
		for i := 0; i < n; i++ {
			p = append(p, newCall(id, kinds))
		}
		plans = append(plans, p)
	}
	run(plans, preempts, func(k *call) { h.onCollection(c, k) })
	end := state{}
	for _, id := range []string{"a", "YWFhYWFh", "YmJiYmJi"} {
		if m, ok := c.Get(id); ok {
			end[id] = m.(*msg).DefaultInt32
		}
	}
	sym.Assert("list", len(c.List()) == len(end), len(c.List()), len(end))
	h.verify(start, end)
}

// CheckCollectionPair: two concurrent writes of any kind to one item.
//
// gosym: time=60s
func CheckCollectionPair() {
	collection("a", []int{1, 1}, []int{set, cas, inc, incB, check, put, incPut, add, del, delCas, delCheck}, 4)
}

// CheckCollectionABA: one write against two consecutive ones.
//
// gosym: time=100s thorough.time=400s
func CheckCollectionABA() {
	if sym.Thorough() {
		collection("a", []int{1, 2}, []int{set, cas, inc, check, put, incPut, add, del, delCas, delCheck}, 3)
		return
	}
	collection("a", []int{1, 2}, []int{cas, inc, incPut, add, del, delCheck}, 3)
}

// CheckCollectionThree: three concurrent writers.
//
// gosym: time=100s thorough.time=600s
func CheckCollectionThree() {
	if sym.Thorough() {
		collection("a", []int{1, 1, 1}, []int{cas, inc, put, incPut, add, del, delCheck}, 3)
		return
	}
	collection("a", []int{1, 1, 1}, []int{inc, incPut, add, delCas}, 3)
}

// CheckCollectionDeep: longer runs by two writers.
//
// gosym: tier=thorough time=600s
func CheckCollectionDeep() {
	collection("a", []int{2, 2}, []int{inc, incPut, add, del}, 3)
}

// CheckGenerated: concurrent creates that generate the same id candidates.
//
// gosym: time=60s thorough.time=200s
func CheckGenerated() {
	h := &history{}
	c := resource.NewCollection(resource.WithClock(&hx.Clock{Hold: true}), resource.WithRNG(&hx.Rng{Mod: sym.Choice("mod", 2) + 1, Base: 'a'}))
	other := &call{kind: []int{gen, add, incPut}[sym.Choice("other", 3)], id: "YWFhYWFh", x: sym.Int32("x")}
	plans := [][]*call{
		{{kind: gen, x: sym.Int32("x")}},
		{other, {kind: []int{gen, del}[sym.Choice("then", 2)], id: "YWFhYWFh", x: sym.Int32("x")}},
	}
	run(plans, 3, func(k *call) { h.onCollection(c, k) })
	end := state{}
	n := 0
	for _, m := range c.List() {
		_ = m
		n++
	}
	for _, k := range h.calls {
		if k.code != codes.OK || k.kind == del {
			continue
		}
		if m, ok := c.Get(k.id); ok {
			end[k.id] = m.(*msg).DefaultInt32
		}
	}
	sym.Assert("all-known", n == len(end), n, len(end))
	for _, k := range h.calls {
		// creating with a generated id may also run out of candidates, which reports Aborted
		if k.kind == gen && k.code == codes.AlreadyExists {
			sym.Assert("collided-id", k.id != "")
		}
	}
	sym.Assert("linearizable", h.linearizable(state{}, end))
}

func value(shape []int, kinds []int, preempts int) {
	h := &history{}
	v := sym.Int32("init")
	start := state{"": v}
	r := resource.NewValue(resource.WithClock(&hx.Clock{Hold: true}), resource.WithInitialValue(&msg{DefaultInt32: v}))
	var plans [][]*call
	for _, n := range shape {
		var p []*call
		for i := 0; i < n; i++ {
			p = append(p, newCall("", kinds))
		}
		plans = append(plans, p)
	}
	run(plans, preempts, func(k *call) { h.onValue(r, k) })
	h.verify(start, state{"": r.Get().(*msg).DefaultInt32})
}

// CheckValuePair: concurrent writes to a value.
//
// gosym: time=60s thorough.time=600s
func CheckValuePair() {
	if sym.Thorough() {
		value([]int{1, 2}, []int{set, cas, inc, incB, check}, 3)
		return
	}
	value([]int{1, 1}, []int{set, cas, inc, incB, check}, 3)
}

// CheckValueABA: one write against two consecutive ones.
//
// gosym: time=60s
func CheckValueABA() { value([]int{1, 2}, []int{cas, inc, incB}, 3) }

// CheckValueThree: three concurrent writers of a value.
//
// gosym: time=60s thorough.time=400s
func CheckValueThree() {
	if sym.Thorough() {
		value([]int{1, 1, 1}, []int{set, cas, inc, check}, 3)
		return
	}
	value([]int{1, 1, 1}, []int{cas, inc}, 2)
}

// CheckDeleteRetry: a delete only removes the version its precondition saw last, and gives up when the item keeps changing.
//
// gosym: time=60s
func CheckDeleteRetry() {
	c := resource.NewCollection(resource.WithClock(&hx.Clock{Hold: true}), resource.WithInitialRecord("a", &msg{DefaultInt32: sym.Int32("init")}))
	same := sym.Flip("sameValue") // the interfering writes may leave the value as it was
	interfere := sym.Choice("interfere", 7)
	ends := sym.Flip("ends") // the last interfering write removes the item
	limit := sym.Int32("limit")
	calls := 0
	var saw, failed *msg
	removed := false
	ret, err := c.Delete("a", resource.WithExpectedCheck(func(m proto.Message) error {
		calls++
		saw = proto.Clone(m).(*msg)
		if m.(*msg).DefaultInt32 < limit {
			failed = saw
			return status.Error(codes.FailedPrecondition, "too small")
		}
		if calls <= interfere {
			if ends && calls == interfere {
				if _, err := c.Delete("a"); err != nil {
					sym.Fail("inner-delete", err)
				}
				removed = true
			} else {
				n := sym.Int32("w")
				if same {
					n = saw.DefaultInt32
				}
				if _, err := c.Update("a", &msg{DefaultInt32: n}); err != nil {
					sym.Fail("inner-update", err)
				}
			}
		}
		return nil
	}))
	now, has := c.Get("a")
	code := status.Code(err)
	switch {
	case err == nil:
		sym.Assert("deleted", !has)
		hx.Same("deleted-what-was-checked", ret, saw)
		sym.Assert("checked-after-last-write", calls == interfere+1 && !removed, calls, interfere)
	case removed:
		sym.Assert("removed-meanwhile", code == codes.NotFound && !has || code == codes.Unavailable, err)
	default:
		sym.Assert("not-deleted", has)
		sym.Assert("code", code == codes.Unavailable && calls < interfere+1 || code == codes.FailedPrecondition && failed != nil, err)
		if code == codes.FailedPrecondition {
			hx.Same("failed-for-current", failed, now)
		}
	}
	sym.Observe("calls", calls)
}

// CheckInterfere: a write whose callbacks see other writes happen never overwrites them unseen.
//
// gosym: time=100s
func CheckInterfere() {
	h := &history{}
	start := state{}
	opts := []resource.Option{resource.WithClock(&hx.Clock{Hold: true})}
	if sym.Flip("present") {
		v := sym.Int32("init")
		start["a"] = v
		opts = append(opts, resource.WithInitialRecord("a", &msg{DefaultInt32: v}))
	}
	c := resource.NewCollection(opts...)
	outer := &call{kind: []int{inc, incPut, add, put}[sym.Choice("outer", 4)], id: "a", x: sym.Int32("x")}
	n := sym.Choice("n", 3)
	var inner []*call
	for i := 0; i < n; i++ {
		inner = append(inner, newCall("a", []int{set, inc, put, add, del}))
	}
	at := sym.Choice("at", 3)
	interfere := func() {
		for _, k := range inner {
			h.onCollection(c, k)
		}
		inner = nil
	}
	x := outer.x
	wo := []resource.WriteOption{
		resource.WithExpectedCheck(func(proto.Message) error {
			if at == 0 {
				interfere()
			}
			return nil
		}),
		resource.InterceptBefore(func(old, new proto.Message) {
			if at == 1 {
				interfere()
			}
		}),
		resource.InterceptAfter(func(old, new proto.Message) {
			if outer.kind == inc || outer.kind == incPut {
				new.(*msg).DefaultInt32 = old.(*msg).DefaultInt32 + x
			}
			if at == 2 {
				interfere()
			}
		}),
	}
	switch outer.kind {
	case incPut, put:
		wo = append(wo, resource.WithCreateIfAbsent())
	}
	h.begin(outer)
	var ret proto.Message
	var err error
	if outer.kind == add {
		ret, err = c.Add("a", &msg{DefaultInt32: x}, wo...)
	} else {
		ret, err = c.Update("a", &msg{DefaultInt32: x}, wo...)
	}
	h.done(outer, ret, err)
	end := state{}
	if m, ok := c.Get("a"); ok {
		end["a"] = m.(*msg).DefaultInt32
	}
	h.verify(start, end)
}
