package c04

import (
	"context"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-api/go/types"

	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

// view is a read mask and what it selects.
func view() (*fieldmaskpb.FieldMask, func(m *msg) *msg) {
	switch sym.Choice("mask", 4) {
	case 1:
		return &fieldmaskpb.FieldMask{Paths: []string{"default_int32"}}, func(m *msg) *msg { return &msg{DefaultInt32: m.DefaultInt32} }
	case 2:
		return &fieldmaskpb.FieldMask{Paths: []string{"default_string", "default_bool"}}, func(m *msg) *msg {
			return &msg{DefaultString: m.DefaultString, DefaultBool: m.DefaultBool}
		}
	case 3:
		return &fieldmaskpb.FieldMask{}, func(m *msg) *msg { return &msg{} }
	}
	return nil, func(m *msg) *msg { return m }
}

// body is a message whose default_bool decides whether it is included.
func body(name string) *msg {
	return &msg{DefaultInt32: sym.Int32(name), DefaultString: name, DefaultBool: sym.Flip(name + ".in")}
}

// CheckMaskedCollection: read masks and include predicates keep everything else about the events: ids, kinds, change
// times, seed flags, and old values.
//
// gosym: time=100s thorough.time=400s
func CheckMaskedCollection() {
	clock := &hx.Clock{}
	mask, project := view()
	include := sym.Flip("include")
	in := func(m *msg) bool { return m != nil && (!include || m.DefaultBool) }
	updatesOnly := sym.Flip("updatesOnly")
	items := map[string]entry{}
	opts := []resource.Option{resource.WithClock(clock)}
	hasEquiv := sym.Flip("equiv")
	if hasEquiv {
		opts = append(opts, resource.WithEquivalence(bucket{}))
	}
	c := resource.NewCollection(opts...)
	for i := sym.Choice("initial", 3); i > 0; i-- {
		id := string(rune('a' + i - 1))
		m := body("init")
		at := time.Unix(int64(500+i), 7)
		c.Add(id, proto.Clone(m), resource.WithWriteTime(at))
		items[id] = entry{m, at}
	}
	ro := []resource.ReadOption{resource.WithBackpressure(true), resource.WithUpdatesOnly(updatesOnly), resource.WithReadMask(mask)}
	if include {
		ro = append(ro, resource.WithInclude(func(id string, m proto.Message) bool { return m.(*msg).DefaultBool }))
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	single := sym.Flip("pullID") // the single item "a"
	got := make(chan *resource.CollectionChange, 20)
	closed := false
	if single {
		ch := c.PullID(ctx, "a", ro...)
		go func() {
			for e := range ch {
				got <- &resource.CollectionChange{Id: "a", ChangeTime: e.ChangeTime, NewValue: e.Value, SeedValue: e.SeedValue, LastSeedValue: e.LastSeedValue}
			}
			closed = true
		}()
	} else {
		ch := c.Pull(ctx, ro...)
		go func() {
			for e := range ch {
				got <- e
			}
			closed = true
		}()
	}
	sym.Quiesce()
	var ids []string
	held := map[string]*msg{}
	for _, id := range []string{"a", "b"} {
		if m := items[id].m; in(m) && (!single || id == "a") {
			held[id] = project(m)
			if !updatesOnly {
				ids = append(ids, id)
			}
		}
	}
	sym.Assert("masked-seed-len", len(got) == len(ids), len(got), len(ids))
	for i, id := range ids {
		e := <-got
		sym.Assert("masked-seed-id", e.Id == id, e.Id)
		sym.Assert("masked-seed-flags", e.SeedValue && e.LastSeedValue == (i == len(ids)-1), e.Id, e.SeedValue, e.LastSeedValue)
		sym.Assert("masked-seed-time", e.ChangeTime.Equal(items[id].t), e.ChangeTime)
		sym.Assert("masked-seed-kind", single || (e.ChangeType == types.ChangeType_ADD && e.OldValue == nil), e.ChangeType)
		hx.Same("masked-seed-value", e.NewValue, project(items[id].m))
	}
	steps := 1
	if sym.Thorough() {
		steps = 2
	}
	for i := 0; i < steps; i++ {
		id := string(rune('a' + sym.Choice("id", 2)))
		was, has := items[id]
		at := time.Unix(int64(900+i), 3)
		var m *msg
		if has && sym.Flip("del") {
			c.Delete(id, resource.WithWriteTime(at))
			delete(items, id)
		} else {
			m = body("w")
			c.Update(id, proto.Clone(m), resource.WithCreateIfAbsent(), resource.WithWriteTime(at))
			items[id] = entry{m, at}
		}
		sym.Quiesce()
		if single && id != "a" {
			sym.Assert("masked-other-silent", len(got) == 0 && !closed)
			continue
		}
		oldIn, newIn := in(was.m), in(m)
		if !oldIn && !newIn {
			sym.Assert("masked-excluded-silent", len(got) == 0 && !closed)
			continue
		}
		if single && !newIn {
			sym.Assert("masked-gone-closes", closed && len(got) == 0)
			return
		}
		if hasEquiv && oldIn && newIn && held[id] != nil && equiv(held[id], project(m)) {
			sym.Assert("masked-equivalent-silent", len(got) == 0)
			continue
		}
		sym.Assert("masked-one-event", len(got) == 1 && !closed, len(got))
		e := <-got
		sym.Assert("masked-id", e.Id == id, e.Id)
		sym.Assert("masked-time", e.ChangeTime.Equal(at), e.ChangeTime)
		sym.Assert("masked-not-seed", !e.SeedValue && !e.LastSeedValue)
		if !single {
			kind := types.ChangeType_UPDATE
			switch {
			case !oldIn:
				kind = types.ChangeType_ADD
			case !newIn:
				kind = types.ChangeType_REMOVE
			}
			sym.Assert("masked-kind", e.ChangeType == kind, e.ChangeType, kind)
			if oldIn {
				hx.Same("masked-old", e.OldValue, project(was.m))
			} else {
				sym.Assert("masked-no-old", e.OldValue == nil)
			}
		}
		if newIn {
			hx.Same("masked-new", e.NewValue, project(m))
			held[id] = project(m)
		} else {
			sym.Assert("masked-no-new", e.NewValue == nil)
			delete(held, id)
		}
	}
}

// CheckMaskedValue: a value's events through a read mask.
//
// gosym: time=60s thorough.time=200s
func CheckMaskedValue() {
	mask, project := view()
	var opts []resource.Option
	hasEquiv := sym.Flip("equiv")
	if hasEquiv {
		opts = append(opts, resource.WithEquivalence(bucket{}))
	}
	v := resource.NewValue(append(opts, resource.WithInitialValue(&msg{}))...)
	cur := body("init")
	at := time.Unix(500, 7)
	v.Set(proto.Clone(cur), resource.WithWriteTime(at))
	updatesOnly := sym.Flip("updatesOnly")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := v.Pull(ctx, resource.WithBackpressure(true), resource.WithUpdatesOnly(updatesOnly), resource.WithReadMask(mask))
	got := make(chan *resource.ValueChange, 20)
	go func() {
		for e := range ch {
			got <- e
		}
	}()
	sym.Quiesce()
	var held *msg
	if updatesOnly {
		sym.Assert("value-no-seed", len(got) == 0)
	} else {
		sym.Assert("value-one-seed", len(got) == 1)
		e := <-got
		sym.Assert("value-seed-flags", e.SeedValue && e.LastSeedValue)
		sym.Assert("value-seed-time", e.ChangeTime.Equal(at), e.ChangeTime)
		held = project(cur)
		hx.Same("value-seed", e.Value, held)
	}
	for i := 0; i < 2; i++ {
		m := body("w")
		at = time.Unix(int64(900+i), 3)
		_, err := v.Set(proto.Clone(m), resource.WithWriteTime(at))
		sym.Assert("value-set", err == nil, err)
		sym.Quiesce()
		if hasEquiv && held != nil && equiv(held, project(m)) {
			sym.Assert("value-equivalent-silent", len(got) == 0)
			continue
		}
		sym.Assert("value-one-event", len(got) == 1, len(got))
		e := <-got
		sym.Assert("value-time", e.ChangeTime.Equal(at), e.ChangeTime)
		sym.Assert("value-not-seed", !e.SeedValue && !e.LastSeedValue)
		held = project(m)
		hx.Same("value-new", e.Value, held)
	}
}
