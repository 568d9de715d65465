// Package c06: reads return exactly the projection selected by the read mask, and never mutate.
package c06

import (
	"context"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/masks"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type msg = testproto.TestAllTypes
type nested = testproto.TestAllTypes_NestedMessage

const (
	pA   = "default_int32"
	pB   = "default_string"
	pN   = "default_nested_message"
	pNA  = "default_nested_message.a"
	pNC  = "default_nested_message.corecursive"
	pNCA = "default_nested_message.corecursive.default_int32"
	pNCR = "default_nested_message.corecursive.repeated_int32"
	pR   = "repeated_int32"
	pRN  = "repeated_nested_message"
	pM   = "map_int32_int32"
	pMN  = "map_string_nested_message"
	pO   = "optional_int32"
	pUI  = "oneof_default_int32"
	pUN  = "oneof_default_nested_message"
	pUNA = "oneof_default_nested_message.a"
)

var validPaths = []string{pA, pB, pN, pNA, pNC, pNCA, pNCR, pR, pRN, pM, pMN, pO, pUI, pUN, pUNA}

var invalidPaths = []string{
	"nope", "", "default_int32.a", "default_int32.", "default_nested_message.nope", "default_nested_message..a",
	"repeated_int32.a", "repeated_nested_message.a", "map_int32_int32.value", "map_string_nested_message.a",
	"map_string_nested_message.value.a", "default_nested_message.a.b", "default_nested_message.corecursive.repeated_int32.x",
	"oneof_default_int32.a", "default_bytes.0",
}

func covered(p string, set []string) bool {
	for _, s := range set {
		if s == p || strings.HasPrefix(p, s+".") {
			return true
		}
	}
	return false
}

func under(set []string, f string) []string {
	var r []string
	for _, s := range set {
		if rest, ok := strings.CutPrefix(s, f+"."); ok {
			r = append(r, rest)
		}
	}
	return r
}

// project builds the projection of m from nothing.
func project(m *msg, set []string) *msg {
	if m == nil {
		return nil
	}
	r := &msg{}
	if covered(pA, set) {
		r.DefaultInt32 = m.DefaultInt32
	}
	if covered(pB, set) {
		r.DefaultString = m.DefaultString
	}
	if covered(pO, set) && m.OptionalInt32 != nil {
		r.OptionalInt32 = proto.Int32(*m.OptionalInt32)
	}
	if covered(pR, set) {
		r.RepeatedInt32 = append(r.RepeatedInt32, m.RepeatedInt32...)
	}
	if covered(pRN, set) {
		for _, n := range m.RepeatedNestedMessage {
			r.RepeatedNestedMessage = append(r.RepeatedNestedMessage, proto.Clone(n).(*nested))
		}
	}
	if covered(pM, set) && m.MapInt32Int32 != nil {
		r.MapInt32Int32 = map[int32]int32{}
		for k, v := range m.MapInt32Int32 {
			r.MapInt32Int32[k] = v
		}
	}
	if covered(pMN, set) && m.MapStringNestedMessage != nil {
		r.MapStringNestedMessage = map[string]*nested{}
		for k, v := range m.MapStringNestedMessage {
			r.MapStringNestedMessage[k] = proto.Clone(v).(*nested)
		}
	}
	r.DefaultNestedMessage = projectNested(m.DefaultNestedMessage, pN, set)
	switch v := m.OneofDefault.(type) {
	case *testproto.TestAllTypes_OneofDefaultInt32:
		if covered(pUI, set) {
			r.OneofDefault = &testproto.TestAllTypes_OneofDefaultInt32{OneofDefaultInt32: v.OneofDefaultInt32}
		}
	case *testproto.TestAllTypes_OneofDefaultNestedMessage:
		if n := projectNested(v.OneofDefaultNestedMessage, pUN, set); n != nil {
			r.OneofDefault = &testproto.TestAllTypes_OneofDefaultNestedMessage{OneofDefaultNestedMessage: n}
		}
	}
	return r
}

// projectNested keeps a selected message present, even when none of its selected fields is set.
func projectNested(n *nested, f string, set []string) *nested {
	if n == nil {
		return nil
	}
	if covered(f, set) {
		return proto.Clone(n).(*nested)
	}
	sub := under(set, f)
	if len(sub) == 0 {
		return nil
	}
	r := &nested{}
	if covered("a", sub) {
		r.A = n.A
	}
	if covered("corecursive", sub) {
		if n.Corecursive != nil {
			r.Corecursive = proto.Clone(n.Corecursive).(*msg)
		}
	} else if s := under(sub, "corecursive"); len(s) > 0 {
		r.Corecursive = project(n.Corecursive, s)
	}
	return r
}

func projection(m *msg, mask *fieldmaskpb.FieldMask) *msg {
	if mask == nil {
		return proto.Clone(m).(*msg)
	}
	return project(m, mask.Paths)
}

func symMsg(name string, rich bool) *msg {
	m := &msg{DefaultInt32: sym.Int32(name + ".a"), DefaultString: sym.String(name+".b", 2)}
	if sym.Flip(name + ".n") {
		m.DefaultNestedMessage = &nested{A: sym.Int32(name + ".n.a")}
		if sym.Flip(name + ".n.core") {
			m.DefaultNestedMessage.Corecursive = &msg{DefaultInt32: sym.Int32(name + ".n.core.a"), DefaultString: "c", RepeatedInt32: []int32{sym.Int32(name + ".n.core.r")}}
		}
	}
	if !rich {
		return m
	}
	if sym.Flip(name + ".lists") {
		m.RepeatedInt32 = []int32{sym.Int32(name + ".r0"), 7}
		m.RepeatedNestedMessage = []*nested{{A: sym.Int32(name + ".rn")}, {}}
		m.MapInt32Int32 = map[int32]int32{1: sym.Int32(name + ".m1"), 2: 0}
		m.MapStringNestedMessage = map[string]*nested{"k": {A: sym.Int32(name + ".mk")}}
		m.OptionalInt32 = proto.Int32(sym.Int32(name + ".o"))
		m.DefaultBytes = []byte{1}
	}
	switch sym.Choice(name+".u", 3) {
	case 1:
		m.OneofDefault = &testproto.TestAllTypes_OneofDefaultInt32{OneofDefaultInt32: sym.Int32(name + ".ui")}
	case 2:
		m.OneofDefault = &testproto.TestAllTypes_OneofDefaultNestedMessage{OneofDefaultNestedMessage: &nested{A: sym.Int32(name + ".una")}}
	}
	return m
}

// pick is nil, the empty mask, or up to max of the paths.
func pick(name string, max int, paths []string) *fieldmaskpb.FieldMask {
	n := sym.Choice(name+".kind", 2+max)
	if n == 0 {
		return nil
	}
	m := &fieldmaskpb.FieldMask{}
	for i := 1; i < n; i++ {
		m.Paths = append(m.Paths, paths[sym.Choice(name+".path", len(paths))])
	}
	return m
}

func contains(set []string, p string) bool {
	for _, s := range set {
		if s == p {
			return true
		}
	}
	return false
}

// CheckFilter: Filter and FilterClone of a ResponseFilter with any valid mask.
//
// gosym: time=100s thorough.time=300s
func CheckFilter() {
	max := 2
	if sym.Thorough() && sym.Flip("three") {
		max = 3
	}
	mask := pick("mask", max, validPaths)
	m := symMsg("m", true)
	keep := proto.Clone(m).(*msg)
	var keepMask *fieldmaskpb.FieldMask
	if mask != nil {
		keepMask = proto.Clone(mask).(*fieldmaskpb.FieldMask)
	}
	f := masks.NewResponseFilter(masks.WithFieldMask(mask))
	sym.Assert("valid-mask-validates", f.Validate(m) == nil, mask)
	want := projection(m, mask)
	got := f.FilterClone(m)
	hx.Same("projection", got, want)
	hx.Same("input-unchanged", m, keep)
	f.Filter(m)
	hx.Same("filter-in-place", m, want)
	// the clone is independent of what happens to the input afterwards
	if mask != nil {
		sym.Assert("clone-not-input", !sym.SameMessage(got, m))
		hx.Same("projection-again", got, want)
		hx.Same("mask-unchanged", mask, keepMask)
	}
	sym.Observe("a", want.DefaultInt32)
}

// CheckInvalid: masks with paths that name unknown fields or continue through scalars, lists and maps.
//
// gosym: time=100s
func CheckInvalid() {
	bad := invalidPaths[sym.Choice("bad", len(invalidPaths))]
	mask := &fieldmaskpb.FieldMask{Paths: []string{bad}}
	switch sym.Choice("with", 3) {
	case 1:
		mask.Paths = append(mask.Paths, validPaths[sym.Choice("good", len(validPaths))])
	case 2:
		mask.Paths = []string{validPaths[sym.Choice("good", len(validPaths))], bad}
	}
	m := symMsg("m", true)
	keep := proto.Clone(m).(*msg)
	f := masks.NewResponseFilter(masks.WithFieldMask(mask))
	sym.Assert("invalid-mask-reported", f.Validate(m) != nil, mask)
	p := hx.Catch(func() { f.FilterClone(m) })
	sym.Assert("filter-clone-no-panic", p == nil, mask, p)
	hx.Same("input-unchanged", m, keep)
	v := resource.NewValue(resource.WithInitialValue(m))
	c := resource.NewCollection(resource.WithInitialRecord("x", m))
	p = hx.Catch(func() {
		v.Get(resource.WithReadMask(mask))
		c.Get("x", resource.WithReadMask(mask))
		c.List(resource.WithReadMask(mask))
	})
	sym.Assert("get-no-panic", p == nil, mask, p)
	hx.Same("stored-unchanged", v.Get(), keep)
	stored, _ := c.Get("x")
	hx.Same("item-unchanged", stored, keep)
	p = hx.Catch(func() { f.Filter(m) })
	sym.Assert("filter-no-panic", p == nil, mask, p)
}

// CheckInvalidPull: the stream of a pull with an invalid mask does not panic either.
//
// gosym: time=60s
func CheckInvalidPull() {
	bad := invalidPaths[sym.Choice("bad", len(invalidPaths))]
	ro := []resource.ReadOption{resource.WithReadMask(hx.Mask(bad)), resource.WithBackpressure(true)}
	m := &msg{DefaultInt32: 1, RepeatedInt32: []int32{1}, MapInt32Int32: map[int32]int32{1: 1}, MapStringNestedMessage: map[string]*nested{"a": {A: 1}},
		RepeatedNestedMessage: []*nested{{A: 1}}, DefaultNestedMessage: &nested{A: 2, Corecursive: &msg{RepeatedInt32: []int32{1}}}, DefaultBytes: []byte{1},
		OneofDefault: &testproto.TestAllTypes_OneofDefaultInt32{OneofDefaultInt32: 1}}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if sym.Flip("coll") {
		c := resource.NewCollection(resource.WithInitialRecord("x", m))
		ch := c.Pull(ctx, ro...)
		<-ch
		c.Update("x", &msg{DefaultInt32: 2, RepeatedInt32: []int32{2}, MapInt32Int32: map[int32]int32{1: 1}})
		<-ch
	} else {
		v := resource.NewValue(resource.WithInitialValue(m))
		ch := v.Pull(ctx, ro...)
		<-ch
		v.Set(&msg{DefaultInt32: 2, RepeatedInt32: []int32{2}, MapInt32Int32: map[int32]int32{1: 1}})
		<-ch
	}
	sym.Cover("pulled")
}

// CheckReads: Get of a value and of an item, List and all streams return the projection and leave the store alone.
//
// gosym: time=100s thorough.time=300s
func CheckReads() {
	max := 1
	if sym.Thorough() {
		max = 2
	}
	paths := []string{pA, pB, pN, pNA, pNC, pNCA, pRN, pM, pUI}
	mask := pick("mask", max, paths)
	ro := []resource.ReadOption{resource.WithReadMask(mask), resource.WithBackpressure(true)}
	first, second := symMsg("m1", false), symMsg("m2", false)
	if sym.Flip("lists") {
		first.RepeatedNestedMessage = []*nested{{A: sym.Int32("rn")}}
		second.MapInt32Int32 = map[int32]int32{3: sym.Int32("m3")}
	}
	k1, k2 := proto.Clone(first).(*msg), proto.Clone(second).(*msg)
	want1, want2 := projection(first, mask), projection(second, mask)

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	v := resource.NewValue(resource.WithInitialValue(first))
	hx.Same("value-get", v.Get(resource.WithReadMask(mask)), want1)
	hx.Same("value-unchanged", v.Get(), k1)
	vch := v.Pull(ctx, ro...)
	seed := <-vch
	hx.Same("value-seed", seed.Value, want1)
	hx.Same("value-unchanged-by-pull", v.Get(), k1)
	if _, err := v.Set(proto.Clone(second)); err != nil {
		sym.Fail("set", err)
	}
	ev := <-vch
	hx.Same("value-event", ev.Value, want2)
	hx.Same("value-after-event", v.Get(), k2)
	hx.Same("seed-unchanged", seed.Value, want1)

	c := resource.NewCollection()
	c.Add("x", proto.Clone(first))
	got, _ := c.Get("x", resource.WithReadMask(mask))
	hx.Same("item-get", got, want1)
	cch := c.Pull(ctx, ro...)
	cseed := <-cch
	hx.Same("item-seed", cseed.NewValue, want1)
	ich := c.PullID(ctx, "x", ro...)
	iseed := <-ich
	hx.Same("id-seed", iseed.Value, want1)
	if _, err := c.Update("x", proto.Clone(second)); err != nil {
		sym.Fail("update", err)
	}
	cev := <-cch
	hx.Same("item-event-new", cev.NewValue, want2)
	hx.Same("item-event-old", cev.OldValue, want1)
	iev := <-ich
	hx.Same("id-event", iev.Value, want2)
	c.Add("y", proto.Clone(first))
	yev := <-cch
	hx.Same("add-event-new", yev.NewValue, want1)
	sym.Assert("add-event-old", yev.OldValue == nil, yev.OldValue)
	l := c.List(resource.WithReadMask(mask))
	sym.Assert("list-len", len(l) == 2, len(l))
	hx.Same("list-0", l[0], want2)
	hx.Same("list-1", l[1], want1)
	raw := c.List()
	hx.Same("stored-0", raw[0], k2)
	hx.Same("stored-1", raw[1], k1)
	del, _ := c.Delete("x")
	hx.Same("deleted", del, k2)
	dev := <-cch
	hx.Same("remove-event-old", dev.OldValue, want2)
	sym.Assert("remove-event-new", dev.NewValue == nil, dev.NewValue)
	sym.Observe("x", want2.DefaultInt32)
}

// CheckUnknownFields: fields that are not known cannot be selected, and come with everything only.
//
// gosym: time=20s
func CheckUnknownFields() {
	m := &msg{DefaultInt32: sym.Int32("a"), DefaultNestedMessage: &nested{A: sym.Int32("na")}}
	unk := []byte{0xf8, 0x7f, 0x05} // field 2047, varint 5
	m.ProtoReflect().SetUnknown(unk)
	m.DefaultNestedMessage.ProtoReflect().SetUnknown(unk)
	keep := proto.Clone(m).(*msg)
	mask := pick("mask", 1, []string{pA, pN, pNA})
	want := proto.Clone(m).(*msg)
	if mask != nil {
		want = project(m, mask.Paths)
	}
	got := masks.NewResponseFilter(masks.WithFieldMask(mask)).FilterClone(m)
	hx.Same("projection", got, want)
	hx.Same("input-unchanged", m, keep)
}
