package c07

import (
	"context"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type msg = testproto.TestAllTypes
type nested = testproto.TestAllTypes_NestedMessage

// build makes a message of a few shapes that together use every kind of field that is shared by copying a pointer.
func build(shape int, x int32) *msg {
	switch shape {
	case 0:
		return &msg{
			DefaultInt32:          x,
			DefaultNestedMessage:  &nested{A: x, Corecursive: &msg{DefaultInt32: x, RepeatedInt32: []int32{1, x}}},
			RepeatedInt32:         []int32{x, 2, 3},
			RepeatedNestedMessage: []*nested{{A: x}, {A: 2}},
			MapInt32Int32:         map[int32]int32{1: x},
			OptionalInt32:         &x,
			DefaultBytes:          []byte{1, 2},
		}
	case 1:
		return &msg{
			DefaultNestedMessage:   &nested{Corecursive: &msg{DefaultNestedMessage: &nested{A: x}}},
			MapStringNestedMessage: map[string]*nested{"k": {A: x}},
			OneofDefault:           &testproto.TestAllTypes_OneofDefaultNestedMessage{OneofDefaultNestedMessage: &nested{A: x}},
		}
	default:
		return &msg{DefaultInt32: x, RepeatedNestedMessage: []*nested{{A: x}}}
	}
}

// scribble changes everything in m in place.
func scribble(m *msg) {
	m.DefaultInt32++
	if n := m.DefaultNestedMessage; n != nil {
		n.A++
		if n.Corecursive != nil {
			scribble(n.Corecursive)
		}
	}
	for i := range m.RepeatedInt32 {
		m.RepeatedInt32[i]++
	}
	if c := m.RepeatedInt32; cap(c) > len(c) {
		c = append(c, 77)
	}
	for _, n := range m.RepeatedNestedMessage {
		n.A++
	}
	for k := range m.MapInt32Int32 {
		m.MapInt32Int32[k]++
	}
	if m.MapInt32Int32 != nil {
		m.MapInt32Int32[99] = 99
	}
	for _, n := range m.MapStringNestedMessage {
		n.A++
	}
	if m.OptionalInt32 != nil {
		*m.OptionalInt32++
	}
	for i := range m.DefaultBytes {
		m.DefaultBytes[i]++
	}
	if n := m.GetOneofDefaultNestedMessage(); n != nil {
		n.A++
	}
}

func writeOpts() (opts []resource.WriteOption) {
	switch sym.Choice("mask", 4) {
	case 1:
		opts = append(opts, resource.WithUpdatePaths("default_nested_message.corecursive", "repeated_nested_message", "map_int32_int32"))
	case 2:
		opts = append(opts, resource.WithUpdatePaths("default_nested_message", "map_string_nested_message", "oneof_default_nested_message"), resource.WithResetPaths("repeated_int32", "default_nested_message.a"))
	case 3:
		opts = append(opts, resource.WithMoreWritablePaths("default_int32"), resource.WithUpdatePaths("default_nested_message.a", "repeated_int32", "default_bytes", "optional_int32"))
	}
	switch sym.Choice("intercept", 3) {
	case 1: // relative write
		opts = append(opts, resource.InterceptBefore(func(old, new proto.Message) {
			new.(*msg).DefaultInt32 += old.(*msg).DefaultInt32
			new.(*msg).RepeatedInt32 = append(new.(*msg).RepeatedInt32, 7)
		}))
	case 2: // computed property
		opts = append(opts, resource.InterceptAfter(func(old, new proto.Message) {
			n := new.(*msg)
			n.OptionalInt32 = &n.DefaultInt32
			n.RepeatedNestedMessage = append(n.RepeatedNestedMessage, &nested{A: 5})
			if n.DefaultNestedMessage != nil {
				n.DefaultNestedMessage.A++
			}
		}))
	}
	return opts
}

func readOpts() []resource.ReadOption {
	switch sym.Choice("readmask", 3) {
	case 1:
		return []resource.ReadOption{resource.WithReadMask(hx.Mask("default_nested_message.corecursive.default_int32", "repeated_nested_message.a", "map_int32_int32"))}
	case 2:
		return []resource.ReadOption{resource.WithReadMask(hx.Mask("default_int32"))}
	}
	return nil
}

// Value makes the operations on a value.
func newValue(initial *msg) *tm.Model {
	opts := []resource.Option{resource.WithInitialValue(initial), resource.WithClock(&hx.Clock{Hold: true})}
	if sym.Flip("nodup") {
		opts = append(opts, resource.WithMessageEquivalence(cmp.Equal()))
	}
	v := resource.NewValue(opts...)
	return &tm.Model{
		Name: "value",
		Writes: []tm.Op{{"Set", func(l tm.Log, n int) {
			in := build(sym.Choice("shape", 3), sym.Int32("x"))
			res, err := v.Set(in, writeOpts()...)
			if err == nil {
				l.Out("Set", res)
			}
			l.In("Set", in, func() { scribble(in) })
		}}, {"Set expecting", func(l tm.Log, n int) {
			in := build(sym.Choice("shape", 3), sym.Int32("x"))
			expected := proto.Clone(v.Get())
			if n == 1 {
				expected.(*msg).DefaultInt32++
			}
			res, err := v.Set(in, resource.WithExpectedValue(expected))
			if err == nil {
				l.Out("Set", res)
			}
			l.In("Set", in, func() { scribble(in); scribble(expected.(*msg)) })
		}}},
		Reads: []tm.Op{{"Get", func(l tm.Log, n int) {
			if n == 0 {
				l.Out("Get", v.Get())
			} else {
				l.Out("Get", v.Get(readOpts()...))
			}
		}}},
		Pulls: []tm.Pull{{"Pull", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			ch := v.Pull(ctx, append(opts, readOpts()...)...)
			return func() ([]proto.Message, bool) {
				c, ok := <-ch
				if !ok {
					return nil, false
				}
				return []proto.Message{c.Value}, true
			}
		}}},
	}
}

func newCollection(initial *msg) *tm.Model {
	opts := []resource.Option{resource.WithInitialRecord("a", initial), resource.WithClock(&hx.Clock{Hold: true}), resource.WithRNG(&hx.Rng{})}
	if sym.Flip("nodup") {
		opts = append(opts, resource.WithMessageEquivalence(cmp.Equal()))
	}
	c := resource.NewCollection(opts...)
	res := func(l tm.Log, op string, m proto.Message, err error) {
		if m != nil && err == nil {
			l.Out(op, m)
		}
	}
	return &tm.Model{
		Name: "collection",
		Writes: []tm.Op{{"Update", func(l tm.Log, n int) {
			in := build(sym.Choice("shape", 3), sym.Int32("x"))
			opts := writeOpts()
			if n == 1 {
				opts = append(opts, resource.WithCreateIfAbsent())
			}
			m, err := c.Update([]string{"a", "b"}[n], in, opts...)
			res(l, "Update", m, err)
			l.In("Update", in, func() { scribble(in) })
		}}, {"Add", func(l tm.Log, n int) {
			in := build(sym.Choice("shape", 3), sym.Int32("x"))
			m, err := c.Add([]string{"", "b"}[n], in, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) { in.DefaultString = id }))
			res(l, "Add", m, err)
			l.In("Add", in, func() { scribble(in); in.DefaultString = "changed" })
		}}, {"Delete", func(l tm.Log, n int) {
			m, err := c.Delete([]string{"a", "b"}[n], resource.WithAllowMissing(true))
			res(l, "Delete", m, err)
		}}},
		Reads: []tm.Op{{"Get", func(l tm.Log, n int) {
			var m proto.Message
			var ok bool
			if n == 0 {
				m, ok = c.Get("a")
			} else {
				m, ok = c.Get("b", readOpts()...)
			}
			if ok {
				l.Out("Get", m)
			}
		}}, {"List", func(l tm.Log, n int) {
			var opts []resource.ReadOption
			if n == 1 {
				opts = append(readOpts(), resource.WithInclude(func(id string, item proto.Message) bool { return item.(*msg).GetDefaultInt32() > 0 }))
			}
			for _, m := range c.List(opts...) {
				l.Out("List", m)
			}
		}}},
		Pulls: []tm.Pull{{"Pull", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			opts = append(opts, readOpts()...)
			if sym.Flip("include") {
				opts = append(opts, resource.WithInclude(func(id string, item proto.Message) bool { return item != nil && item.(*msg).GetDefaultInt32() > 0 }))
			}
			ch := c.Pull(ctx, opts...)
			return func() ([]proto.Message, bool) {
				c, ok := <-ch
				if !ok {
					return nil, false
				}
				var ms []proto.Message
				if c.OldValue != nil {
					ms = append(ms, c.OldValue)
				}
				if c.NewValue != nil {
					ms = append(ms, c.NewValue)
				}
				return ms, true
			}
		}}, {"PullID", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			ch := c.PullID(ctx, "a", append(opts, readOpts()...)...)
			return func() ([]proto.Message, bool) {
				c, ok := <-ch
				if !ok {
					return nil, false
				}
				return []proto.Message{c.Value}, true
			}
		}}},
	}
}

// CheckValue: any sequence of operations on a value.
//
// gosym: time=60s thorough.time=400s
func CheckValue() {
	sym.NoTimers(true)
	initial := build(0, sym.Int32("x"))
	steps := 2
	if sym.Thorough() {
		steps = 3
	}
	play(newValue(initial), initial, steps)
}

// CheckCollection: any sequence of operations on a collection.
//
// gosym: time=80s thorough.time=400s
func CheckCollection() {
	sym.NoTimers(true)
	initial := build(0, sym.Int32("x"))
	steps := 2
	if sym.Thorough() {
		steps = 3
	}
	play(newCollection(initial), initial, steps)
}
