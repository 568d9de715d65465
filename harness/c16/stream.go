package c16

import (
	"context"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

// near is a tolerance equivalence: it is not transitive.
func near(a, b *msg) bool {
	if a == nil || b == nil {
		return a == b
	}
	d := int64(a.DefaultInt32) - int64(b.DefaultInt32)
	return sym.And(sym.And(d >= -1, d <= 1), a.DefaultString == b.DefaultString)
}

func nearCmp() resource.Option {
	return resource.WithEquivalence(resource.ComparerFunc(func(x, y proto.Message) bool {
		a, _ := x.(*msg)
		b, _ := y.(*msg)
		return near(a, b)
	}))
}

func eqCmp(kind int) (resource.Option, func(a, b *msg) bool) {
	if kind == 0 {
		return resource.WithNoDuplicates(), func(a, b *msg) bool { return proto.Equal(a, b) }
	}
	return nearCmp(), near
}

func masked(m *msg, mask bool) *msg {
	if m == nil {
		return nil
	}
	m = proto.Clone(m).(*msg)
	if mask {
		m = &msg{DefaultInt32: m.DefaultInt32}
	}
	return m
}

// CheckValueStream: a value with an equivalence delivers exactly the changes that differ from what the subscriber holds.
//
// gosym: time=100s
func CheckValueStream() {
	o, eq := eqCmp(sym.Choice("equivalence", 2))
	mask, updatesOnly := sym.Flip("mask"), sym.Flip("updatesOnly")
	v := resource.NewValue(o, resource.WithInitialValue(&msg{DefaultInt32: 5, DefaultString: "x"}))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ro := []resource.ReadOption{resource.WithBackpressure(true), resource.WithUpdatesOnly(updatesOnly)}
	if mask {
		ro = append(ro, resource.WithReadPaths(&msg{}, "default_int32"))
	}
	ch := v.Pull(ctx, ro...)
	got := make(chan *resource.ValueChange, 20)
	go func() {
		for c := range ch {
			got <- c
		}
	}()
	sym.Quiesce()
	var held *msg
	if !updatesOnly {
		held = (<-got).Value.(*msg)
	}
	for i := 0; i < 3; i++ {
		w := &msg{DefaultInt32: sym.Int32("w"), DefaultString: "x"}
		if sym.Flip("other") {
			w.DefaultString = "y"
		}
		if _, err := v.Set(w); err != nil {
			sym.Fail("set", err)
		}
		sym.Quiesce()
		want := masked(w, mask)
		if held != nil && eq(held, want) {
			sym.Assert("equivalent-not-delivered", len(got) == 0, held, want)
			continue
		}
		sym.Assert("different-delivered", len(got) == 1, len(got), held, want)
		held = (<-got).Value.(*msg)
		hx.Same("delivered-value", held, want)
	}
	sym.Cover("value-stream")
}

// CheckCollectionStream: the same per item of a collection, with removals and include filters.
//
// gosym: time=150s thorough.time=400s
func CheckCollectionStream() {
	o, eq := eqCmp(sym.Choice("equivalence", 2))
	mask, include := sym.Flip("mask"), sym.Flip("include")
	c := resource.NewCollection(o, resource.WithInitialRecord("a", &msg{DefaultInt32: 5, DefaultString: "x"}), resource.WithInitialRecord("b", &msg{DefaultInt32: 50}))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ro := []resource.ReadOption{resource.WithBackpressure(true)}
	if mask {
		ro = append(ro, resource.WithReadPaths(&msg{}, "default_int32"))
	}
	if include {
		ro = append(ro, resource.WithInclude(func(id string, item proto.Message) bool {
			m, _ := item.(*msg)
			return m != nil && m.DefaultString != "z"
		}))
	}
	ch := c.Pull(ctx, ro...)
	got := make(chan *resource.CollectionChange, 20)
	go func() {
		for e := range ch {
			got <- e
		}
	}()
	sym.Quiesce()
	held := map[string]*msg{}
	for i := 0; i < 2; i++ {
		e := <-got
		held[e.Id] = e.NewValue.(*msg)
	}
	steps := 2
	if sym.Thorough() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		if i > 0 && sym.Flip("delete") {
			c.Delete("a")
			sym.Quiesce()
			if held["a"] == nil {
				sym.Assert("absent-delete-silent", len(got) == 0)
				continue
			}
			sym.Assert("remove-delivered", len(got) == 1)
			e := <-got
			sym.Assert("remove-kind", e.ChangeType == types.ChangeType_REMOVE, e)
			delete(held, "a")
			continue
		}
		w := &msg{DefaultInt32: sym.Int32("w"), DefaultString: []string{"x", "y", "z"}[sym.Choice("s", 3)]}
		if _, err := c.Update("a", w, resource.WithCreateIfAbsent()); err != nil {
			sym.Fail("update", err)
		}
		sym.Quiesce()
		want := masked(w, mask)
		if include && w.DefaultString == "z" {
			if held["a"] == nil {
				sym.Assert("excluded-silent", len(got) == 0)
				continue
			}
			sym.Assert("excluded-removed", len(got) == 1)
			e := <-got
			sym.Assert("excluded-kind", e.ChangeType == types.ChangeType_REMOVE, e)
			delete(held, "a")
			continue
		}
		if held["a"] != nil && eq(held["a"], want) {
			sym.Assert("equivalent-not-delivered", len(got) == 0, held["a"], want)
			continue
		}
		sym.Assert("different-delivered", len(got) == 1, len(got), held["a"], want)
		e := <-got
		held["a"] = e.NewValue.(*msg)
		hx.Same("delivered-value", held["a"], want)
	}
	sym.Cover("collection-stream")
}
