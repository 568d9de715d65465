// Package c08: include-filtered List and Pull behave as the filtered collection.
package c08

import (
	"context"
	"sort"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/types"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type msg = testproto.TestAllTypes

// pred includes items whose int is at least min, except the id it bars.
// It fails on absent values: items that do not exist have nothing to filter on.
func pred(min int32, barred string) resource.FilterFunc {
	return func(id string, item proto.Message) bool {
		if id == barred {
			return false
		}
		return item.(*msg).DefaultInt32 >= min
	}
}

func ids[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// world is a collection with a plain model of its contents beside it.
type world struct {
	c     *resource.Collection
	clock *hx.Clock
	items map[string]*msg
	inc   resource.FilterFunc
	mask  bool
	ro    []resource.ReadOption
}

func newWorld(maxInitial int) *world {
	w := &world{clock: &hx.Clock{}, items: map[string]*msg{}}
	opts := []resource.Option{resource.WithClock(w.clock)}
	for i := sym.Choice("initial", maxInitial+1) - 1; i >= 0; i-- {
		id := string(rune('a' + i))
		m := &msg{DefaultInt32: sym.Int32("init"), DefaultString: id}
		w.items[id] = m
		opts = append(opts, resource.WithInitialRecord(id, proto.Clone(m)))
	}
	w.c = resource.NewCollection(opts...)
	w.inc = pred(sym.Int32("min"), []string{"", "a"}[sym.Choice("barred", 2)])
	w.ro = []resource.ReadOption{resource.WithInclude(w.inc)}
	return w
}

func (w *world) view(m *msg) *msg {
	if m == nil {
		return nil
	}
	if w.mask {
		return &msg{DefaultString: m.DefaultString}
	}
	return m
}

// filtered is the model restricted to what is included.
func (w *world) filtered() map[string]*msg {
	r := map[string]*msg{}
	for _, id := range ids(w.items) {
		if w.inc(id, w.items[id]) {
			r[id] = w.view(w.items[id])
		}
	}
	return r
}

func (w *world) sameList(label string) {
	want := w.filtered()
	got := w.c.List(w.ro...)
	sym.Assert(label+"-len", len(got) == len(want), len(got), len(want))
	for i, id := range ids(want) {
		hx.Same(label+"-item", got[i], want[id])
	}
}

// step makes one write and returns the id it touched with the value before and after.
func (w *world) step(nIds int) (id string, old, new *msg) {
	id = string(rune('a' + sym.Choice("id", nIds)))
	old = w.items[id]
	if old != nil && sym.Flip("delete") {
		if _, err := w.c.Delete(id); err != nil {
			sym.Fail("delete", err)
		}
		delete(w.items, id)
		return id, old, nil
	}
	new = &msg{DefaultInt32: sym.Int32("w"), DefaultString: id + "!"}
	if _, err := w.c.Update(id, proto.Clone(new), resource.WithCreateIfAbsent()); err != nil {
		sym.Fail("update", err)
	}
	w.items[id] = new
	return id, old, new
}

func fold(view map[string]*msg, e *resource.CollectionChange, label string) {
	switch e.ChangeType {
	case types.ChangeType_REMOVE:
		sym.Assert(label+"-remove-known", view[e.Id] != nil, e.Id)
		sym.Assert(label+"-remove-has-no-new", e.NewValue == nil)
		delete(view, e.Id)
	default:
		sym.Assert(label+"-has-new", e.NewValue != nil, e.ChangeType)
		if e.ChangeType == types.ChangeType_ADD {
			sym.Assert(label+"-add-new", view[e.Id] == nil, e.Id)
		} else {
			sym.Assert(label+"-update-known", view[e.Id] != nil, e.Id, e.ChangeType)
		}
		view[e.Id] = e.NewValue.(*msg)
	}
}

func sameView(label string, got, want map[string]*msg) {
	sym.Assert(label+"-size", len(got) == len(want), ids(got), ids(want))
	for id, m := range want {
		g, ok := got[id]
		sym.Assert(label+"-has", ok, id)
		hx.Same(label+"-item", g, m)
	}
}

// CheckExact: with backpressure every write gives exactly the event the filtered collection would give.
//
// gosym: time=150s thorough.time=600s
func CheckExact() {
	w := newWorld(2)
	w.mask = sym.Flip("mask")
	if w.mask {
		w.ro = append(w.ro, resource.WithReadPaths(&msg{}, "default_string"))
	}
	updatesOnly := sym.Flip("updatesOnly")
	ro := append([]resource.ReadOption{resource.WithBackpressure(true), resource.WithUpdatesOnly(updatesOnly)}, w.ro...)
	w.sameList("list")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := w.c.Pull(ctx, ro...)
	got := make(chan *resource.CollectionChange, 20)
	go func() {
		for e := range ch {
			got <- e
		}
	}()
	sym.Quiesce()
	view := map[string]*msg{}
	want := w.filtered()
	if updatesOnly {
		sym.Assert("updates-only-no-seed", len(got) == 0)
		for id, m := range want {
			view[id] = m
		}
	} else {
		sym.Assert("seed-len", len(got) == len(want), len(got), len(want))
		for i, id := range ids(want) {
			e := <-got
			sym.Assert("seed-id", e.Id == id, e.Id, id)
			sym.Assert("seed-kind", e.ChangeType == types.ChangeType_ADD, e.ChangeType)
			sym.Assert("seed-flags", e.SeedValue && e.LastSeedValue == (i == len(want)-1), i, e.SeedValue, e.LastSeedValue)
			fold(view, e, "seed")
		}
	}
	sameView("seed-view", view, want)
	steps := 2
	if sym.Thorough() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		id, old, new := w.step(2)
		sym.Quiesce()
		was, is := old != nil && w.inc(id, old), new != nil && w.inc(id, new)
		if !was && !is {
			sym.Assert("excluded-change-silent", len(got) == 0, id, old, new)
			continue
		}
		sym.Assert("one-event", len(got) == 1, len(got), id, old, new)
		e := <-got
		sym.Assert("event-id", e.Id == id, e.Id, id)
		sym.Assert("event-not-seed", !e.SeedValue && !e.LastSeedValue)
		switch {
		case was && is:
			sym.Assert("kind-update", e.ChangeType == types.ChangeType_UPDATE, e.ChangeType)
			hx.Same("update-old", e.OldValue, w.view(old))
			hx.Same("update-new", e.NewValue, w.view(new))
		case is:
			sym.Assert("kind-add", e.ChangeType == types.ChangeType_ADD, e.ChangeType)
			sym.Assert("add-no-old", e.OldValue == nil, e.OldValue)
			hx.Same("add-new", e.NewValue, w.view(new))
		default:
			sym.Assert("kind-remove", e.ChangeType == types.ChangeType_REMOVE, e.ChangeType)
			hx.Same("remove-old", e.OldValue, w.view(old))
			sym.Assert("remove-no-new", e.NewValue == nil, e.NewValue)
		}
		fold(view, e, "event")
		sameView("view", view, w.filtered())
		w.sameList("list-after")
		sym.Observe("kind", int32(e.ChangeType))
	}
}

// CheckLossy: without backpressure a reader that sleeps through the writes still folds to the filtered list.
//
// gosym: time=150s thorough.time=600s
func CheckLossy() {
	w := newWorld(2)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := w.c.Pull(ctx, w.ro...)
	view := map[string]*msg{}
	drain := func() {
		for {
			sym.Quiesce()
			select {
			case e := <-ch:
				fold(view, e, "lossy")
				continue
			default:
			}
			return
		}
	}
	if sym.Flip("seedFirst") {
		drain()
		sameView("seed", view, w.filtered())
	}
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		w.step(2)
		sym.Quiesce()
		if i == 1 && sym.Flip("recvMid") {
			select {
			case e := <-ch:
				fold(view, e, "lossy")
			default:
			}
		}
	}
	drain()
	sameView("view", view, w.filtered())
	sym.Cover("lossy")
}

// CheckPullID: a single item with an include predicate is followed while it is included.
//
// gosym: time=60s
func CheckPullID() {
	w := newWorld(1)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := w.c.PullID(ctx, "a", append([]resource.ReadOption{resource.WithBackpressure(true)}, w.ro...)...)
	got := make(chan *resource.ValueChange, 20)
	closed := false
	go func() {
		for e := range ch {
			got <- e
		}
		closed = true
	}()
	sym.Quiesce()
	if m := w.filtered()["a"]; m != nil {
		sym.Assert("id-seed", len(got) == 1)
		hx.Same("id-seed-value", (<-got).Value, m)
	} else {
		sym.Assert("id-no-seed", len(got) == 0)
	}
	for i := 0; i < 2; i++ {
		id, old, new := w.step(2)
		sym.Quiesce()
		if id != "a" {
			sym.Assert("other-id-silent", len(got) == 0 && !closed)
			continue
		}
		was, is := old != nil && w.inc(id, old), new != nil && w.inc(id, new)
		switch {
		case is:
			sym.Assert("id-event", len(got) == 1, len(got))
			hx.Same("id-event-value", (<-got).Value, new)
		case was:
			sym.Assert("id-ends", closed && len(got) == 0)
			return
		default:
			sym.Assert("id-silent", len(got) == 0 && !closed)
		}
	}
}
