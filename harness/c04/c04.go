// Package c04: with backpressure the stream is an exact, ordered edit script.
package c04

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/types"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type msg = testproto.TestAllTypes

// writeTime is some time the clock never has.
func writeTime() time.Time { return time.Unix(77, 5) }

type entry struct {
	m *msg
	t time.Time
}

// same bucket: an equivalence that is coarser than equality but not trivial.
type bucket struct{}

func (bucket) Compare(x, y proto.Message) bool {
	a, _ := x.(*msg)
	b, _ := y.(*msg)
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.DefaultInt32>>1 == b.DefaultInt32>>1
}

func equiv(a, b *msg) bool { return bucket{}.Compare(a, b) }

// world is a collection with its model.
type world struct {
	c     *resource.Collection
	clock *hx.Clock
	items map[string]entry
	lower bool
	equiv bool
	rng   *hx.Rng
	few   bool // fewer kinds of write
}

func newWorld(maxInitial int) *world {
	w := &world{clock: &hx.Clock{}, items: map[string]entry{}, rng: &hx.Rng{Mod: 2, Base: 'a'}}
	opts := []resource.Option{resource.WithClock(w.clock), resource.WithRNG(w.rng)}
	if w.lower = sym.Flip("lower"); w.lower {
		opts = append(opts, resource.WithIDInterceptor(strings.ToLower))
	}
	if w.equiv = sym.Flip("equiv"); w.equiv {
		opts = append(opts, resource.WithEquivalence(bucket{}))
	}
	n := sym.Choice("initial", maxInitial+1)
	for i := n - 1; i >= 0; i-- {
		id := string(rune('a' + i))
		m := &msg{DefaultInt32: sym.Int32("init"), DefaultString: id}
		w.items[id] = entry{m: m}
		opts = append(opts, resource.WithInitialRecord(id, proto.Clone(m)))
	}
	w.c = resource.NewCollection(opts...)
	return w
}

func (w *world) ids() []string {
	var r []string
	for id := range w.items {
		r = append(r, id)
	}
	sort.Strings(r)
	return r
}

// event is what a subscriber is expected to be told about a write.
type event struct {
	id       string
	kind     types.ChangeType
	old, new *msg
	from, to int64 // the clock readings the change time may be
	at       *time.Time
}

func (w *world) arg(base string) string {
	if w.lower && (w.few || sym.Flip("upper")) {
		return strings.ToUpper(base)
	}
	return base
}

// step makes one write call, successful or not, and returns the event it should cause.
func (w *world) step(nIds int) *event {
	e := &event{from: w.clock.N + 1}
	var wo []resource.WriteOption
	if !w.few && sym.Flip("writeTime") {
		t := writeTime()
		e.at = &t
		wo = append(wo, resource.WithWriteTime(t))
	}
	finish := func(err error, code codes.Code) *event {
		sym.Assert("code", status.Code(err) == code, err, code)
		if err != nil {
			return nil
		}
		e.to = w.clock.N
		return e
	}
	e.id = string(rune('a' + sym.Choice("id", nIds)))
	id := w.arg(e.id)
	was, has := w.items[e.id]
	e.old = was.m
	m := &msg{DefaultInt32: sym.Int32("w"), DefaultString: e.id + "!"}
	op := 0
	if w.few {
		op = []int{0, 2, 3}[sym.Choice("op", 3)]
	} else {
		op = sym.Choice("op", 6)
	}
	switch op {
	case 0: // update, creating when asked to
		create := w.few || sym.Flip("create")
		if create {
			wo = append(wo, resource.WithCreateIfAbsent())
		}
		_, err := w.c.Update(id, proto.Clone(m), wo...)
		if !has && !create {
			return finish(err, codes.NotFound)
		}
		e.new = m
		e.kind = types.ChangeType_UPDATE
		if !has {
			e.kind = types.ChangeType_ADD
		}
		return finish(err, codes.OK)
	case 1: // masked update
		_, err := w.c.Update(id, proto.Clone(m), append(wo, resource.WithUpdatePaths("default_int32"))...)
		if !has {
			return finish(err, codes.NotFound)
		}
		e.kind = types.ChangeType_UPDATE
		e.new = &msg{DefaultInt32: m.DefaultInt32, DefaultString: was.m.DefaultString}
		return finish(err, codes.OK)
	case 2:
		_, err := w.c.Add(id, proto.Clone(m), wo...)
		if has {
			return finish(err, codes.AlreadyExists)
		}
		e.kind, e.new = types.ChangeType_ADD, m
		return finish(err, codes.OK)
	case 3:
		allow := sym.Flip("allowMissing")
		_, err := w.c.Delete(id, append(wo, resource.WithAllowMissing(allow))...)
		switch {
		case !has && allow:
			finish(err, codes.OK)
			return nil
		case !has:
			return finish(err, codes.NotFound)
		}
		e.kind = types.ChangeType_REMOVE
		return finish(err, codes.OK)
	case 4: // precondition, on update or delete
		want := &msg{DefaultInt32: sym.Int32("expect"), DefaultString: e.id}
		wo = append(wo, resource.WithExpectedValue(want))
		var err error
		del := sym.Flip("del")
		if del {
			_, err = w.c.Delete(id, wo...)
			e.kind = types.ChangeType_REMOVE
		} else {
			_, err = w.c.Update(id, proto.Clone(m), wo...)
			e.kind, e.new = types.ChangeType_UPDATE, m
		}
		if !has {
			return finish(err, codes.NotFound)
		}
		if !proto.Equal(was.m, want) {
			return finish(err, codes.FailedPrecondition)
		}
		return finish(err, codes.OK)
	default: // generated id
		if len(w.items) > 1 {
			sym.Assume(false) // candidates may run out
		}
		var got string
		body := proto.Clone(m).(*msg)
		_, err := w.c.Add("", body, append(wo, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
			got = id
			body.DefaultString = id
		}))...)
		e.id = got
		if w.lower {
			e.id = strings.ToLower(got)
		}
		e.kind, e.old = types.ChangeType_ADD, nil
		e.new = &msg{DefaultInt32: m.DefaultInt32, DefaultString: got}
		return finish(err, codes.OK)
	}
}

func (w *world) commit(e *event, t time.Time) {
	if e.kind == types.ChangeType_REMOVE {
		delete(w.items, e.id)
		return
	}
	w.items[e.id] = entry{e.new, t}
}

func inTime(label string, t time.Time, e *event) {
	if e.at != nil {
		sym.Assert(label+"-write-time", t.Equal(*e.at), t, *e.at)
		return
	}
	n := t.Unix() - 1000
	sym.Assert(label+"-clock-time", e.from <= n && n <= e.to, n, e.from, e.to)
}

// seed checks the seed of a fresh subscription, including the stored change times.
func (w *world) seed(label string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := w.c.Pull(ctx, resource.WithBackpressure(true))
	ids := w.ids()
	for i, id := range ids {
		e := <-ch
		sym.Assert(label+"-id", e.Id == id, e.Id, id)
		sym.Assert(label+"-kind", e.ChangeType == types.ChangeType_ADD && e.OldValue == nil, e.ChangeType)
		sym.Assert(label+"-flags", e.SeedValue && e.LastSeedValue == (i == len(ids)-1), id)
		hx.Same(label+"-value", e.NewValue, w.items[id].m)
		if t := w.items[id].t; !t.IsZero() {
			sym.Assert(label+"-time", e.ChangeTime.Equal(t), id, e.ChangeTime, t)
		}
	}
	sym.Quiesce()
	select {
	case e := <-ch:
		sym.Fail(label+"-extra", e.Id)
	default:
	}
}

// CheckCollection follows a collection through writes of every kind.
//
// gosym: time=200s thorough.time=800s
func CheckCollection() {
	initial := 1
	if sym.Thorough() {
		initial = 2
	}
	w := newWorld(initial)
	updatesOnly := sym.Flip("updatesOnly")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	// held is what the subscriber has, which only differs from the contents by equivalent values
	held := map[string]*msg{}
	ch := w.c.Pull(ctx, resource.WithBackpressure(true), resource.WithUpdatesOnly(updatesOnly))
	got := make(chan *resource.CollectionChange, 20)
	go func() {
		for e := range ch {
			got <- e
		}
	}()
	sym.Quiesce()
	for id, i := range w.items {
		held[id] = i.m
	}
	if updatesOnly {
		sym.Assert("no-seed", len(got) == 0)
	} else {
		ids := w.ids()
		sym.Assert("seed-len", len(got) == len(ids), len(got), len(ids))
		for i, id := range ids {
			e := <-got
			sym.Assert("seed-id", e.Id == id, e.Id, id)
			sym.Assert("seed-kind", e.ChangeType == types.ChangeType_ADD && e.OldValue == nil, e.ChangeType)
			sym.Assert("seed-flags", e.SeedValue && e.LastSeedValue == (i == len(ids)-1), id, e.SeedValue, e.LastSeedValue)
			hx.Same("seed-value", e.NewValue, w.items[id].m)
		}
	}
	steps := 2
	if sym.Thorough() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		want := w.step(2)
		sym.Quiesce()
		if want == nil {
			sym.Assert("failed-write-silent", len(got) == 0)
			continue
		}
		if want.kind == types.ChangeType_UPDATE && w.equiv && equiv(held[want.id], want.new) {
			sym.Assert("equivalent-silent", len(got) == 0)
			// the time is not seen here
			w.commit(want, time.Time{})
			sym.Cover("suppressed")
			continue
		}
		sym.Assert("one-event", len(got) == 1, len(got), fmt.Sprint(want.kind), want.id)
		e := <-got
		sym.Assert("event-id", e.Id == want.id, e.Id, want.id)
		sym.Assert("event-kind", e.ChangeType == want.kind, e.ChangeType, want.kind)
		sym.Assert("event-not-seed", !e.SeedValue && !e.LastSeedValue)
		inTime("event", e.ChangeTime, want)
		if want.new == nil {
			sym.Assert("event-no-new", e.NewValue == nil, e.NewValue)
			delete(held, want.id)
		} else {
			hx.Same("event-new", e.NewValue, want.new)
			held[want.id] = want.new
		}
		if want.old == nil {
			sym.Assert("event-no-old", e.OldValue == nil, e.OldValue)
		} else {
			hx.Same("event-old", e.OldValue, want.old)
		}
		w.commit(want, e.ChangeTime)
		sym.Observe("event", e.Id+e.ChangeType.String())
	}
	w.seed("later-seed")
}

// CheckTwoSubscribers: subscribers opened at different times each get the script from where they started.
//
// gosym: time=120s thorough.time=400s
func CheckTwoSubscribers() {
	w := &world{clock: &hx.Clock{}, items: map[string]entry{}}
	w.c = resource.NewCollection(resource.WithClock(w.clock))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type sub struct {
		got  chan *resource.CollectionChange
		only bool
	}
	var subs []*sub
	open := func() {
		s := &sub{got: make(chan *resource.CollectionChange, 20), only: sym.Flip("updatesOnly")}
		ch := w.c.Pull(ctx, resource.WithBackpressure(true), resource.WithUpdatesOnly(s.only))
		go func() {
			for e := range ch {
				s.got <- e
			}
		}()
		subs = append(subs, s)
		sym.Quiesce()
		if s.only {
			sym.Assert("no-seed", len(s.got) == 0)
			return
		}
		sym.Assert("seed", len(s.got) == len(w.items), len(s.got), len(w.items))
		for i, id := range w.ids() {
			e := <-s.got
			sym.Assert("seed-flags", e.Id == id && e.SeedValue && e.LastSeedValue == (i == len(w.items)-1), id)
			hx.Same("seed-value", e.NewValue, w.items[id].m)
			sym.Assert("seed-time", e.ChangeTime.Equal(w.items[id].t), id)
		}
	}
	openAt := sym.Choice("openAt", 3)
	for i := 0; i < 3; i++ {
		if i == 0 || i == openAt {
			open()
		}
		id := string(rune('a' + sym.Choice("id", 2)))
		old, has := w.items[id]
		m := &msg{DefaultInt32: sym.Int32("w")}
		del := has && sym.Flip("del")
		kind := types.ChangeType_ADD
		if del {
			w.c.Delete(id)
			kind = types.ChangeType_REMOVE
			delete(w.items, id)
		} else {
			w.c.Update(id, m, resource.WithCreateIfAbsent())
			if has {
				kind = types.ChangeType_UPDATE
			}
		}
		sym.Quiesce()
		var t time.Time
		for _, s := range subs {
			sym.Assert("each-one-event", len(s.got) == 1, len(s.got))
			e := <-s.got
			sym.Assert("each-kind", e.Id == id && e.ChangeType == kind, e.Id, e.ChangeType, kind)
			if has {
				hx.Same("each-old", e.OldValue, old.m)
			} else {
				sym.Assert("each-no-old", e.OldValue == nil)
			}
			if del {
				sym.Assert("each-no-new", e.NewValue == nil)
			} else {
				hx.Same("each-new", e.NewValue, m)
			}
			t = e.ChangeTime
		}
		if !del {
			w.items[id] = entry{m, t}
		}
	}
}

// CheckPullID: a single item's stream is the item's part of the script.
//
// gosym: time=120s thorough.time=400s
func CheckPullID() {
	w := newWorld(2)
	w.few = !sym.Thorough()
	updatesOnly := sym.Flip("updatesOnly")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := w.c.PullID(ctx, w.arg("a"), resource.WithBackpressure(true), resource.WithUpdatesOnly(updatesOnly))
	got := make(chan *resource.ValueChange, 20)
	closed := false
	early := sym.Flip("writeAtOnce") // write before the subscription's goroutines had a chance to run
	read := func() {
		for e := range ch {
			got <- e
		}
		closed = true
	}
	go read()
	held := w.items["a"].m
	checkSeed := func() {
		if held == nil || updatesOnly {
			return
		}
		sym.Assert("id-seed", len(got) > 0)
		e := <-got
		sym.Assert("id-seed-flags", e.SeedValue && e.LastSeedValue, e.SeedValue, e.LastSeedValue)
		hx.Same("id-seed-value", e.Value, held)
	}
	if !early {
		sym.Quiesce()
		checkSeed()
		sym.Assert("id-seed-only", len(got) == 0)
	}
	for i := 0; i < 2; i++ {
		want := w.step(2)
		sym.Quiesce()
		if early && i == 0 {
			checkSeed()
		}
		if want == nil {
			sym.Assert("id-failed-silent", len(got) == 0 && !closed)
			continue
		}
		if want.id != "a" {
			sym.Assert("id-other-silent", len(got) == 0 && !closed, len(got))
			w.commit(want, time.Time{})
			continue
		}
		if want.kind == types.ChangeType_REMOVE {
			sym.Assert("id-removed-closes", closed && len(got) == 0)
			return
		}
		if w.equiv && want.kind == types.ChangeType_UPDATE && equiv(held, want.new) {
			sym.Assert("id-equivalent-silent", len(got) == 0)
			w.commit(want, time.Time{})
			continue
		}
		sym.Assert("id-one-event", len(got) == 1 && !closed, len(got))
		e := <-got
		hx.Same("id-value", e.Value, want.new)
		sym.Assert("id-not-seed", !e.SeedValue && !e.LastSeedValue)
		inTime("id", e.ChangeTime, want)
		w.commit(want, e.ChangeTime)
		held = want.new
	}
}

// CheckValue follows a value.
//
// gosym: time=120s thorough.time=400s
func CheckValue() {
	clock := &hx.Clock{}
	opts := []resource.Option{resource.WithClock(clock)}
	hasEquiv := sym.Flip("equiv")
	if hasEquiv {
		opts = append(opts, resource.WithEquivalence(bucket{}))
	}
	cur := &msg{DefaultInt32: sym.Int32("init"), DefaultString: "v"}
	opts = append(opts, resource.WithInitialValue(proto.Clone(cur)), resource.WithWritablePaths(&msg{}, "default_int32", "default_int64"))
	v := resource.NewValue(opts...)
	var curTime time.Time
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type sub struct {
		got  chan *resource.ValueChange
		held *msg
	}
	var subs []*sub
	open := func() {
		only := sym.Flip("updatesOnly")
		ch := v.Pull(ctx, resource.WithBackpressure(true), resource.WithUpdatesOnly(only))
		s := &sub{got: make(chan *resource.ValueChange, 20)}
		go func() {
			for e := range ch {
				s.got <- e
			}
		}()
		subs = append(subs, s)
		sym.Quiesce()
		if only {
			sym.Assert("no-seed", len(s.got) == 0)
			return
		}
		sym.Assert("seed", len(s.got) == 1, len(s.got))
		e := <-s.got
		sym.Assert("seed-flags", e.SeedValue && e.LastSeedValue)
		hx.Same("seed-value", e.Value, cur)
		s.held = cur
		if !curTime.IsZero() {
			sym.Assert("seed-time", e.ChangeTime.Equal(curTime), e.ChangeTime, curTime)
		}
	}
	steps := 2
	if sym.Thorough() {
		steps = 3
	}
	openAt := sym.Choice("openAt", steps)
	for i := 0; i < steps; i++ {
		if i == 0 || (i == openAt && !hasEquiv) {
			open()
		}
		e := &event{from: clock.N + 1}
		var wo []resource.WriteOption
		if sym.Flip("writeTime") {
			t := writeTime()
			e.at = &t
			wo = append(wo, resource.WithWriteTime(t))
		}
		m := &msg{DefaultInt32: sym.Int32("w")}
		code := codes.OK
		switch sym.Choice("op", 4) {
		case 0:
			e.new = &msg{DefaultInt32: m.DefaultInt32, DefaultString: "v"}
		case 1: // read only field
			wo = append(wo, resource.WithUpdatePaths("default_string"))
			code = codes.InvalidArgument
		case 2:
			want := &msg{DefaultInt32: sym.Int32("expect"), DefaultString: "v"}
			wo = append(wo, resource.WithExpectedValue(want))
			if proto.Equal(want, cur) {
				e.new = &msg{DefaultInt32: m.DefaultInt32, DefaultString: "v"}
			} else {
				code = codes.FailedPrecondition
			}
		default:
			wo = append(wo, resource.InterceptAfter(func(old, new proto.Message) {
				new.(*msg).DefaultInt32 = old.(*msg).DefaultInt32 + m.DefaultInt32
			}))
			e.new = &msg{DefaultInt32: cur.DefaultInt32 + m.DefaultInt32, DefaultString: "v"}
		}
		_, err := v.Set(m, wo...)
		sym.Assert("code", status.Code(err) == code, err)
		e.to = clock.N
		sym.Quiesce()
		if err != nil {
			for _, s := range subs {
				sym.Assert("failed-silent", len(s.got) == 0)
			}
			continue
		}
		curTime = time.Time{}
		for _, s := range subs {
			if hasEquiv && s.held != nil && equiv(s.held, e.new) {
				sym.Assert("equivalent-silent", len(s.got) == 0)
				continue
			}
			sym.Assert("one-event", len(s.got) == 1, len(s.got))
			got := <-s.got
			hx.Same("event-value", got.Value, e.new)
			sym.Assert("event-not-seed", !got.SeedValue && !got.LastSeedValue)
			inTime("event", got.ChangeTime, e)
			curTime = got.ChangeTime
			s.held = e.new
		}
		cur = e.new
		hx.Same("get", v.Get(), cur)
	}
}

// CheckSlowReader: a reader that starts receiving long after the writes, or pauses between them, still gets everything.
//
// gosym: time=120s thorough.time=400s
func CheckSlowReader() {
	sym.NoTimers(true)
	kind := sym.Choice("kind", 3) // collection, one item of a collection, value
	updatesOnly := sym.Flip("updatesOnly")
	initial := sym.Flip("initial") || kind == 2
	masked := sym.Flip("mask")
	n := 5
	if sym.Thorough() {
		n = 8
	}
	clock := &hx.Clock{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	opts := []resource.ReadOption{resource.WithBackpressure(true), resource.WithUpdatesOnly(updatesOnly)}
	if masked {
		opts = append(opts, resource.WithReadPaths(&msg{}, "default_int32"))
	}
	first := &msg{DefaultInt32: 100, DefaultInt64: 7}
	project := func(m *msg) *msg {
		if m == nil || !masked {
			return m
		}
		return &msg{DefaultInt32: m.DefaultInt32}
	}

	// want are the events of the script, recv waits for one
	type ev struct {
		kind     types.ChangeType
		old, new *msg
		seed     bool
	}
	var want []ev
	var recv func() (*ev, bool)
	asMsg := func(m proto.Message) *msg {
		if m == nil {
			return nil
		}
		return m.(*msg)
	}
	var write func(i int) error
	cur := first
	if !initial {
		cur = nil
	}
	if initial && !updatesOnly {
		want = append(want, ev{kind: types.ChangeType_ADD, new: first, seed: true})
	}
	values := make([]*msg, n)
	dels := make([]bool, n)
	for i := range values {
		values[i] = &msg{DefaultInt32: sym.Int32("v"), DefaultInt64: int64(i + 1)}
		if kind == 0 && cur != nil && sym.Flip("del") {
			dels[i] = true
			want = append(want, ev{kind: types.ChangeType_REMOVE, old: cur})
			cur = nil
			continue
		}
		k := types.ChangeType_UPDATE
		if cur == nil {
			k = types.ChangeType_ADD
		}
		want = append(want, ev{kind: k, old: cur, new: values[i]})
		cur = values[i]
	}
	isValue := false
	if kind == 2 {
		isValue = true
		v := resource.NewValue(resource.WithClock(clock), resource.WithInitialValue(proto.Clone(first)))
		ch := v.Pull(ctx, opts...)
		recv = func() (*ev, bool) {
			select {
			case e, ok := <-ch:
				sym.Assert("open", ok)
				return &ev{new: asMsg(e.Value), seed: e.SeedValue && e.LastSeedValue}, true
			default:
				return nil, false
			}
		}
		write = func(i int) error {
			_, err := v.Set(values[i])
			return err
		}
	} else {
		co := []resource.Option{resource.WithClock(clock)}
		if initial {
			co = append(co, resource.WithInitialRecord("a", proto.Clone(first)))
		}
		c := resource.NewCollection(co...)
		write = func(i int) error {
			var err error
			if dels[i] {
				_, err = c.Delete("a")
			} else {
				_, err = c.Update("a", values[i], resource.WithCreateIfAbsent())
			}
			return err
		}
		if kind == 0 {
			ch := c.Pull(ctx, opts...)
			recv = func() (*ev, bool) {
				select {
				case e, ok := <-ch:
					sym.Assert("open", ok)
					sym.Assert("id", e.Id == "a", e.Id)
					return &ev{kind: e.ChangeType, old: asMsg(e.OldValue), new: asMsg(e.NewValue), seed: e.SeedValue && e.LastSeedValue}, true
				default:
					return nil, false
				}
			}
		} else {
			isValue = true
			ch := c.PullID(ctx, "a", opts...)
			recv = func() (*ev, bool) {
				select {
				case e, ok := <-ch:
					sym.Assert("open", ok)
					return &ev{new: asMsg(e.Value), seed: e.SeedValue && e.LastSeedValue}, true
				default:
					return nil, false
				}
			}
		}
	}
	go func() {
		for i := 0; i < n; i++ {
			if err := write(i); err != nil {
				sym.Fail("write", err)
			}
		}
	}()
	pause := sym.Flip("pause") // between receives, otherwise only before the first
	sym.Quiesce()
	for i, w := range want {
		if pause {
			sym.Quiesce()
		}
		e, ok := recv()
		for try := 0; !ok && try < 2; try++ {
			sym.Quiesce()
			e, ok = recv()
		}
		sym.Assert("nothing-dropped", ok, i)
		hx.Same("new", e.new, project(w.new))
		sym.Assert("seed", e.seed == w.seed, i)
		if !isValue {
			sym.Assert("kind", e.kind == w.kind, i, e.kind.String(), w.kind.String())
			hx.Same("old", e.old, project(w.old))
		}
	}
	sym.Quiesce()
	_, ok := recv()
	sym.Assert("nothing-more", !ok)
}
