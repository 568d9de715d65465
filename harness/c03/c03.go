// Package c03: a subscriber's folded view converges to the store's state.
package c03

import (
	"context"
	"sort"
	"sync"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/types"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type msg = testproto.TestAllTypes

// write is one write by one of the writers.
type write struct {
	id       string
	del      bool
	x        int32
	ok       bool
	inv, res int
}

type world struct {
	mu     sync.Mutex
	now    int
	writes []*write
	mask   bool
	only   bool
	bp     bool
	subInv int // when Pull was called and had returned
	subRes int
}

// lock guards the bookkeeping in native runs, see c02.
func (w *world) lock() func() {
	if sym.Symbolic() {
		return func() {}
	}
	w.mu.Lock()
	return w.mu.Unlock
}

func (w *world) tick() int {
	defer w.lock()()
	w.now++
	return w.now
}

func (w *world) readOpts() []resource.ReadOption {
	w.only = sym.Flip("updatesOnly")
	w.bp = sym.Flip("backpressure")
	ro := []resource.ReadOption{resource.WithUpdatesOnly(w.only), resource.WithBackpressure(w.bp)}
	if w.mask {
		ro = append(ro, resource.WithReadPaths(&msg{}, "default_int32"))
	}
	return ro
}

func (w *world) view(m proto.Message) proto.Message {
	if m == nil || !w.mask {
		return m
	}
	return &msg{DefaultInt32: m.(*msg).DefaultInt32}
}

func (w *world) plan(shape []int, ids []string) [][]*write {
	var plans [][]*write
	for _, k := range shape {
		var p []*write
		for i := 0; i < k; i++ {
			k := &write{id: ids[0], x: sym.Int32("x")}
			if ids[0] != "" { // not a value
				k.id, k.del = ids[sym.Choice("id", len(ids))], sym.Flip("del")
			}
			p = append(p, k)
		}
		plans = append(plans, p)
	}
	return plans
}

func allowed(err error) {
	switch status.Code(err) {
	case codes.OK, codes.Aborted, codes.NotFound, codes.Unavailable:
	default:
		sym.Fail("unexpected-error", err)
	}
}

func (w *world) do(c *resource.Collection, k *write) {
	k.inv = w.tick()
	func() {
		defer w.lock()()
		w.writes = append(w.writes, k)
	}()
	var err error
	if k.del {
		_, err = c.Delete(k.id)
	} else {
		_, err = c.Update(k.id, &msg{DefaultInt32: k.x, DefaultString: "s"}, resource.WithCreateIfAbsent())
	}
	allowed(err)
	k.ok = err == nil
	k.res = w.tick()
}

// touchedAfter is whether a write of the item began after the subscription was made.
func (w *world) touchedAfter(id string) bool {
	for _, k := range w.writes {
		if k.id == id && k.ok && k.inv > w.subRes {
			return true
		}
	}
	return false
}

// view is what a subscriber makes of a stream.
type view struct {
	items  map[string]proto.Message
	seen   map[string]bool
	only   bool
	lossy  bool
	seeded bool // an update was received, no more seeds
	lastID string
}

func (v *view) apply(e *resource.CollectionChange) {
	if e.SeedValue {
		sym.Assert("seed-first", !v.seeded && !v.only, e.Id)
		sym.Assert("seed-sorted", v.lastID < e.Id, v.lastID, e.Id)
		v.lastID = e.Id
	} else {
		v.seeded = true
	}
	has := v.items[e.Id] != nil
	known := !v.only || v.seen[e.Id] // whether the view knows if the item exists
	v.seen[e.Id] = true
	switch e.ChangeType {
	case types.ChangeType_ADD:
		sym.Assert("add-absent", !known || !has, e.Id)
		sym.Assert("add-no-old", e.OldValue == nil)
	case types.ChangeType_UPDATE:
		sym.Assert("update-present", !known || has, e.Id)
	case types.ChangeType_REPLACE:
		sym.Assert("replace-lossy", v.lossy)
		sym.Assert("replace-present", !known || has, e.Id)
	case types.ChangeType_REMOVE:
		sym.Assert("remove-present", !known || has, e.Id)
	default:
		sym.Fail("kind", e.ChangeType)
	}
	if known && e.ChangeType != types.ChangeType_ADD {
		hx.Same("old-chains", e.OldValue, v.items[e.Id])
	}
	if e.ChangeType == types.ChangeType_REMOVE {
		sym.Assert("remove-no-new", e.NewValue == nil)
		delete(v.items, e.Id)
		return
	}
	sym.Assert("has-new", e.NewValue != nil)
	v.items[e.Id] = e.NewValue
}

func keys(m map[string]proto.Message) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// collection opens a subscription while writers are at work.
func collection(shape []int, ids []string, preempts int, atStart bool) {
	w := &world{mask: sym.Thorough() && sym.Flip("mask")}
	opts := []resource.Option{resource.WithClock(&hx.Clock{Hold: true})}
	init := map[string]proto.Message{}
	if sym.Flip("present") {
		init[ids[0]] = &msg{DefaultInt32: sym.Int32("init"), DefaultString: "s"}
		opts = append(opts, resource.WithInitialRecord(ids[0], proto.Clone(init[ids[0]])))
	}
	c := resource.NewCollection(opts...)
	ro := w.readOpts()
	plans := w.plan(shape, ids)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	v := &view{items: map[string]proto.Message{}, seen: map[string]bool{}, only: w.only, lossy: !w.bp}
	var wg sync.WaitGroup
	follow := func() {
		w.subInv = w.tick()
		ch := c.Pull(ctx, ro...)
		w.subRes = w.tick()
		for e := range ch {
			v.apply(e)
		}
	}
	sym.Explore(preempts, 400)
	if atStart {
		w.subInv = w.tick()
		ch := c.Pull(ctx, ro...)
		w.subRes = w.tick()
		go func() {
			for e := range ch {
				v.apply(e)
			}
		}()
	}
	wg.Add(len(plans))
	for _, p := range plans {
		go func() {
			defer wg.Done()
			for _, k := range p {
				w.do(c, k)
			}
		}()
	}
	if !atStart {
		go follow()
	}
	wg.Wait()
	sym.Sequential()
	sym.Quiesce()
	for _, id := range ids {
		end, ok := c.Get(id)
		if !ok {
			end = nil
		}
		if w.only && !v.seen[id] {
			// nothing was said about the item, so nothing can have happened after subscribing
			if !w.bp && end == nil {
				continue // an add and a remove cancel out
			}
			sym.Assert("missed", !w.touchedAfter(id), id)
			if atStart {
				sym.Assert("missed-change", proto.Equal(end, init[id]), id)
			}
			continue
		}
		got := v.items[id]
		if end == nil {
			sym.Assert("view-absent", got == nil, id)
			continue
		}
		sym.Assert("view-present", got != nil, id)
		hx.Same("view-value", got, w.view(end))
	}
	sym.Observe("writes", len(w.writes))
}

// CheckJoin: a subscription opened while two writers write one item. Every interleaving.
//
// gosym: time=100s thorough.time=300s
func CheckJoin() { collection([]int{1, 1}, []string{"a"}, -1, false) }

// CheckTwoWriters: a subscription opened before two writers write one item. Every interleaving.
//
// gosym: time=100s thorough.time=300s
func CheckTwoWriters() { collection([]int{1, 1}, []string{"a"}, -1, true) }

// CheckJoinTwoIds: one writer changing two items while the subscription is opened. Every interleaving.
//
// gosym: time=60s thorough.time=200s
func CheckJoinTwoIds() { collection([]int{2}, []string{"a", "b"}, -1, false) }

// CheckJoinLong: one writer making three changes while the subscription is opened. Every interleaving.
//
// gosym: tier=thorough time=600s
func CheckJoinLong() { collection([]int{3}, []string{"a", "b"}, -1, false) }

// CheckTwoWritersLong: writers making several changes.
//
// gosym: tier=thorough time=900s
func CheckTwoWritersLong() { collection([]int{2, 1}, []string{"a", "b"}, -1, true) }

// CheckMask: a read mask does not change what is delivered.
//
// gosym: time=60s
func CheckMask() {
	w := &world{mask: true}
	c := resource.NewCollection(resource.WithClock(&hx.Clock{Hold: true}), resource.WithInitialRecord("a", &msg{DefaultInt32: sym.Int32("init"), DefaultString: "s"}))
	ro := w.readOpts()
	x := &write{id: "a", del: sym.Flip("del"), x: sym.Int32("x")}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	v := &view{items: map[string]proto.Message{}, seen: map[string]bool{}, only: w.only, lossy: !w.bp}
	sym.Explore(-1, 400)
	ch := c.Pull(ctx, ro...)
	go func() {
		for e := range ch {
			v.apply(e)
		}
	}()
	w.do(c, x)
	sym.Sequential()
	sym.Quiesce()
	sym.Assert("seen", v.seen["a"])
	if end, ok := c.Get("a"); ok {
		hx.Same("masked-view", v.items["a"], w.view(end))
	} else {
		sym.Assert("masked-absent", v.items["a"] == nil)
	}
}

// single opens a subscription to one item while writers are at work.
func single(shape []int, ids []string, atStart bool) {
	w := &world{}
	opts := []resource.Option{resource.WithClock(&hx.Clock{Hold: true})}
	var init *msg
	if sym.Flip("present") {
		init = &msg{DefaultInt32: sym.Int32("init"), DefaultString: "s"}
		opts = append(opts, resource.WithInitialRecord("a", proto.Clone(init)))
	}
	c := resource.NewCollection(opts...)
	ro := w.readOpts()
	plans := w.plan(shape, ids)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var last proto.Message
	closed := false
	n := 0
	read := func(ch <-chan *resource.ValueChange) {
		for e := range ch {
			sym.Assert("id-seed-first", !e.SeedValue || n == 0 && !w.only, n)
			sym.Assert("id-value", e.Value != nil)
			n++
			last = e.Value
		}
		closed = true
	}
	var wg sync.WaitGroup
	wg.Add(len(plans))
	sym.Explore(-1, 400)
	if atStart {
		ch := c.PullID(ctx, "a", ro...)
		w.subRes = w.tick()
		go read(ch)
	}
	for _, p := range plans {
		go func() {
			defer wg.Done()
			for _, k := range p {
				w.do(c, k)
			}
		}()
	}
	if !atStart {
		go func() {
			ch := c.PullID(ctx, "a", ro...)
			w.subRes = w.tick()
			read(ch)
		}()
	}
	wg.Wait()
	sym.Sequential()
	sym.Quiesce()
	end, ok := c.Get("a")
	removed := false
	for _, k := range w.writes {
		removed = removed || k.ok && k.del && k.id == "a"
	}
	if closed {
		// the item was removed, there may be no more to see
		sym.Assert("closed-removed", removed)
		return
	}
	switch {
	case !ok:
		// the removal was before the subscription, or cancelled out an add that was never sent
		sym.Assert("still-open", last == nil, last)
	case last == nil:
		sym.Assert("id-silent", w.only)
		sym.Assert("id-missed", !w.touchedAfter("a"))
	default:
		hx.Same("id-last-is-final", last, w.view(end))
	}
}

// CheckSingleJoin: a subscription to one item opened while it is written.
//
// gosym: time=60s
func CheckSingleJoin() { single([]int{2}, []string{"a"}, false) }

// CheckSingleWriters: a subscription to one item opened before two writers change it.
//
// gosym: time=60s thorough.time=300s
func CheckSingleWriters() {
	if sym.Thorough() {
		single([]int{1, 1}, []string{"a", "b"}, true)
		return
	}
	single([]int{1, 1}, []string{"a"}, true)
}

// value opens a subscription to a value while writers are at work.
func value(shape []int, preempts int, atStart bool) {
	w := &world{}
	w.mask = sym.Thorough() && sym.Flip("mask")
	init := &msg{DefaultInt32: sym.Int32("init"), DefaultString: "s"}
	r := resource.NewValue(resource.WithClock(&hx.Clock{Hold: true}), resource.WithInitialValue(proto.Clone(init)))
	ro := w.readOpts()
	plans := w.plan(shape, []string{""})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var last proto.Message
	n := 0
	read := func(ch <-chan *resource.ValueChange) {
		for e := range ch {
			sym.Assert("seed-first", e.SeedValue == (n == 0 && !w.only), n, e.SeedValue)
			n++
			last = e.Value
		}
	}
	var wg sync.WaitGroup
	wg.Add(len(plans))
	sym.Explore(preempts, 400)
	if atStart {
		ch := r.Pull(ctx, ro...)
		w.subRes = w.tick()
		go read(ch)
	}
	for _, p := range plans {
		go func() {
			defer wg.Done()
			for _, k := range p {
				k.inv = w.tick()
				func() {
					defer w.lock()()
					w.writes = append(w.writes, k)
				}()
				_, err := r.Set(&msg{DefaultInt32: k.x, DefaultString: "s"})
				allowed(err)
				k.ok = err == nil
				k.res = w.tick()
			}
		}()
	}
	if !atStart {
		go func() {
			ch := r.Pull(ctx, ro...)
			w.subRes = w.tick()
			read(ch)
		}()
	}
	wg.Wait()
	sym.Sequential()
	sym.Quiesce()
	if last == nil {
		sym.Assert("no-event", w.only)
		sym.Assert("missed", !w.touchedAfter(""))
		return
	}
	hx.Same("last-is-final", last, w.view(r.Get()))
}

// CheckValueJoin: a subscription to a value opened while two writers write.
//
// gosym: time=60s thorough.time=300s
func CheckValueJoin() { value([]int{1, 1}, -1, false) }

// CheckValueWriters: a subscription to a value opened before two writers write.
//
// gosym: time=60s thorough.time=300s
func CheckValueWriters() { value([]int{1, 1}, -1, true) }

// CheckValueLong: longer runs of writes.
//
// gosym: tier=thorough time=900s
func CheckValueLong() { value([]int{2, 1}, -1, true) }
