// Package c05: writes respect update, writable and reset masks.
package c05

import (
	"strings"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type msg = testproto.TestAllTypes
type nested = testproto.TestAllTypes_NestedMessage

// Paths of the groups of fields the harnesses work on.
const (
	pA     = "default_int32"
	pB     = "default_string"
	pN     = "default_nested_message"
	pNA    = "default_nested_message.a"
	pNC    = "default_nested_message.corecursive"
	pNCA   = "default_nested_message.corecursive.default_int32"
	pR     = "repeated_int32"
	pRN    = "repeated_nested_message"
	pM     = "map_int32_int32"
	pO     = "optional_int32"
	pUI    = "oneof_default_int32"
	pUN    = "oneof_default_nested_message"
	pUNA   = "oneof_default_nested_message.a"
	badTop = "nope"
	badSub = "default_nested_message.nope"
)

// ---- reference semantics

func covered(p string, set []string) bool {
	for _, s := range set {
		if s == p || strings.HasPrefix(p, s+".") {
			return true
		}
	}
	return false
}

// under lists the parts of the paths that continue below field f.
func under(set []string, f string) []string {
	var r []string
	for _, s := range set {
		if rest, ok := strings.CutPrefix(s, f+"."); ok {
			r = append(r, rest)
		}
	}
	return r
}

// refMsg writes the fields of src selected by set (nil means all) into dst.
// With replace the selected parts of dst become those of src; otherwise messages are merged, lists
// appended to and maps added to, and an absent field is cleared.
func refMsg(dst, src *msg, set []string, replace bool) {
	if covered(pA, set) {
		dst.DefaultInt32 = src.DefaultInt32
	}
	if covered(pB, set) {
		dst.DefaultString = src.DefaultString
	}
	if covered(pO, set) {
		dst.OptionalInt32 = nil
		if src.OptionalInt32 != nil {
			dst.OptionalInt32 = proto.Int32(*src.OptionalInt32)
		}
	}
	if covered(pR, set) {
		if replace || len(src.RepeatedInt32) == 0 {
			dst.RepeatedInt32 = nil
		}
		dst.RepeatedInt32 = append(append([]int32(nil), dst.RepeatedInt32...), src.RepeatedInt32...)
	}
	if covered(pRN, set) {
		if replace || len(src.RepeatedNestedMessage) == 0 {
			dst.RepeatedNestedMessage = nil
		}
		for _, n := range src.RepeatedNestedMessage {
			dst.RepeatedNestedMessage = append(dst.RepeatedNestedMessage, proto.Clone(n).(*nested))
		}
	}
	if covered(pM, set) {
		if replace || len(src.MapInt32Int32) == 0 {
			dst.MapInt32Int32 = nil
		}
		for k, v := range src.MapInt32Int32 {
			if dst.MapInt32Int32 == nil {
				dst.MapInt32Int32 = map[int32]int32{}
			}
			dst.MapInt32Int32[k] = v
		}
	}
	// nested message
	if covered(pN, set) {
		dst.DefaultNestedMessage = refWhole(dst.DefaultNestedMessage, src.DefaultNestedMessage, replace)
	} else if sub := under(set, pN); len(sub) > 0 && (src.DefaultNestedMessage != nil || dst.DefaultNestedMessage != nil) {
		if dst.DefaultNestedMessage == nil {
			dst.DefaultNestedMessage = &nested{}
		}
		s := src.DefaultNestedMessage
		if s == nil {
			s = &nested{}
		}
		refNested(dst.DefaultNestedMessage, s, sub, replace)
	}
	// oneof: setting one member drops the other
	if covered(pUI, set) {
		if v, ok := src.OneofDefault.(*testproto.TestAllTypes_OneofDefaultInt32); ok {
			dst.OneofDefault = &testproto.TestAllTypes_OneofDefaultInt32{OneofDefaultInt32: v.OneofDefaultInt32}
		} else if _, ok := dst.OneofDefault.(*testproto.TestAllTypes_OneofDefaultInt32); ok {
			dst.OneofDefault = nil
		}
	}
	if covered(pUN, set) {
		v, ok := src.OneofDefault.(*testproto.TestAllTypes_OneofDefaultNestedMessage)
		old, okOld := dst.OneofDefault.(*testproto.TestAllTypes_OneofDefaultNestedMessage)
		switch {
		case ok:
			var o *nested
			if okOld {
				o = old.OneofDefaultNestedMessage
			}
			dst.OneofDefault = &testproto.TestAllTypes_OneofDefaultNestedMessage{OneofDefaultNestedMessage: refWhole(o, v.OneofDefaultNestedMessage, replace)}
		case okOld:
			dst.OneofDefault = nil
		}
	}
}

func refWhole(dst, src *nested, replace bool) *nested {
	if src == nil {
		return nil
	}
	if dst == nil || replace {
		return proto.Clone(src).(*nested)
	}
	proto.Merge(dst, src)
	return dst
}

func refNested(dst, src *nested, set []string, replace bool) {
	if covered("a", set) {
		dst.A = src.A
	}
	if covered("corecursive", set) {
		if src.Corecursive == nil {
			dst.Corecursive = nil
		} else if dst.Corecursive == nil || replace {
			dst.Corecursive = proto.Clone(src.Corecursive).(*msg)
		} else {
			proto.Merge(dst.Corecursive, src.Corecursive)
		}
	} else if sub := under(set, "corecursive"); len(sub) > 0 && (src.Corecursive != nil || dst.Corecursive != nil) {
		if dst.Corecursive == nil {
			dst.Corecursive = &msg{}
		}
		s := src.Corecursive
		if s == nil {
			s = &msg{}
		}
		refMsg(dst.Corecursive, s, sub, replace)
	}
}

var allPaths = []string{pA, pB, pN, pR, pRN, pM, pO, pUI, pUN}

// ref is the whole of a write; ok is false when it must be rejected.
func ref(old, src *msg, m, w *fieldmaskpb.FieldMask, reset []string) (*msg, bool) {
	res := proto.Clone(old).(*msg)
	if m != nil {
		for _, p := range m.Paths {
			if p == badTop || p == badSub {
				return nil, false
			}
			if w != nil && !covered(p, w.Paths) {
				return nil, false
			}
		}
		refMsg(res, src, m.Paths, false)
	} else if w != nil {
		refMsg(res, src, w.Paths, true)
	} else {
		res = proto.Clone(src).(*msg)
	}
	if m == nil || len(m.Paths) > 0 {
		for _, p := range reset {
			refReset(res, p)
		}
	}
	return res, true
}

func refReset(m *msg, p string) {
	switch p {
	case pA:
		m.DefaultInt32 = 0
	case pN:
		m.DefaultNestedMessage = nil
	case pNA:
		if m.DefaultNestedMessage != nil {
			m.DefaultNestedMessage.A = 0
		}
	case pNC:
		if m.DefaultNestedMessage != nil {
			m.DefaultNestedMessage.Corecursive = nil
		}
	case pR:
		m.RepeatedInt32 = nil
	case pM:
		m.MapInt32Int32 = nil
	}
}

// ---- inputs

// mask picks nil, the empty mask, or a list of up to two of the paths.
func mask(name string, max int, paths ...string) *fieldmaskpb.FieldMask {
	n := sym.Choice(name+".kind", 2+max)
	if n == 0 {
		return nil
	}
	m := &fieldmaskpb.FieldMask{}
	for i := 1; i < n; i++ {
		m.Paths = append(m.Paths, paths[sym.Choice(name+".path", len(paths))])
	}
	return m
}

func symNested(name string, deep bool) *nested {
	n := &nested{A: sym.Int32(name + ".a")}
	if deep && sym.Flip(name+".core") {
		n.Corecursive = &msg{DefaultInt32: sym.Int32(name + ".core.a"), DefaultString: "s" + name}
	}
	return n
}

func check(old, src *msg, m, w *fieldmaskpb.FieldMask, reset []string) {
	run(old, src, m, w, reset, false)
}

func run(old, src *msg, m, w *fieldmaskpb.FieldMask, reset []string, coll bool, extra ...resource.WriteOption) {
	keep := proto.Clone(old).(*msg)
	want, ok := ref(old, src, m, w, reset)
	eff := proto.Clone(src).(*msg)
	wo := append([]resource.WriteOption{}, extra...)
	if m != nil {
		wo = append(wo, resource.WithUpdateMask(m))
	}
	if reset != nil {
		wo = append(wo, resource.WithResetPaths(reset...))
	}
	var got, after proto.Message
	var err error
	if coll {
		c := resource.NewCollection(resource.WithInitialRecord("x", old), resource.WithWritableFields(w))
		got, err = c.Update("x", eff, wo...)
		after, _ = c.Get("x")
	} else {
		v := resource.NewValue(resource.WithInitialValue(old), resource.WithWritableFields(w))
		got, err = v.Set(eff, wo...)
		after = v.Get()
	}
	sym.Observe("err", err != nil)
	if !ok {
		sym.Assert("bad-mask-rejected", hx.Code(err) == codes.InvalidArgument, err, m, w)
		hx.Same("rejected-unchanged", after, keep)
		return
	}
	sym.Assert("valid-mask-accepted", err == nil, err)
	hx.Same("write-result", got, want)
	hx.Same("stored", after, want)
	sym.Observe("a", after.(*msg).DefaultInt32)
}

// CheckNestedMasks: update and writable masks over a scalar and a nested message, at any depth, duplicated and overlapping.
//
// gosym: time=100s
func CheckNestedMasks() {
	ps := []string{pA, pN, pNA, pNC, pNCA}
	nm := 1
	if sym.Thorough() {
		nm = 2
	}
	m := mask("m", nm, append(ps, badTop, badSub)...)
	w := mask("w", nm, ps...)
	build := func(name string) *msg {
		x := &msg{DefaultInt32: sym.Int32(name + ".a"), DefaultString: name}
		if sym.Flip(name + ".n") {
			x.DefaultNestedMessage = symNested(name+".n", true)
		}
		return x
	}
	check(build("old"), build("new"), m, w, nil)
}

// CheckMaskPairs: masks naming two paths on both sides, over fixed presence patterns.
//
// gosym: time=100s
func CheckMaskPairs() {
	ps := []string{pA, pN, pNA, pNC}
	m := mask("m", 2, append(ps, badSub)...)
	w := mask("w", 2, ps...)
	old := &msg{DefaultInt32: sym.Int32("old.a"), DefaultString: "o", DefaultNestedMessage: &nested{A: sym.Int32("old.n.a"), Corecursive: &msg{DefaultInt32: 3}}}
	src := &msg{DefaultInt32: sym.Int32("new.a"), DefaultString: "n"}
	if sym.Flip("new.n") {
		src.DefaultNestedMessage = symNested("new.n", true)
	}
	check(old, src, m, w, nil)
}

// CheckLists: repeated and map fields.
//
// gosym: time=60s
func CheckLists() {
	ps := []string{pR, pRN, pM, pA}
	m := mask("m", 2, append(ps, badTop)...)
	w := mask("w", 1, ps...)
	build := func(name string) *msg {
		x := &msg{DefaultInt32: sym.Int32(name + ".a")}
		for i := sym.Choice(name+".r", 3); i > 0; i-- {
			x.RepeatedInt32 = append(x.RepeatedInt32, sym.Int32(name+".ri"))
		}
		if sym.Flip(name + ".rn") {
			x.RepeatedNestedMessage = []*nested{symNested(name+".rni", false)}
		}
		if sym.Flip(name + ".m") {
			x.MapInt32Int32 = map[int32]int32{1: sym.Int32(name + ".m1")}
			if name == "new" {
				x.MapInt32Int32[2] = 22
			}
		}
		return x
	}
	check(build("old"), build("new"), m, w, nil)
}

// CheckPresence: fields with explicit presence and oneofs.
//
// gosym: time=60s
func CheckPresence() {
	ps := []string{pO, pUI, pUN, pA}
	m := mask("m", 2, ps...)
	w := mask("w", 1, ps...)
	build := func(name string) *msg {
		x := &msg{DefaultInt32: sym.Int32(name + ".a")}
		if sym.Flip(name + ".o") {
			x.OptionalInt32 = proto.Int32(sym.Int32(name + ".ov"))
		}
		switch sym.Choice(name+".u", 3) {
		case 1:
			x.OneofDefault = &testproto.TestAllTypes_OneofDefaultInt32{OneofDefaultInt32: sym.Int32(name + ".ui")}
		case 2:
			x.OneofDefault = &testproto.TestAllTypes_OneofDefaultNestedMessage{OneofDefaultNestedMessage: symNested(name+".un", false)}
		}
		return x
	}
	check(build("old"), build("new"), m, w, nil)
}

// CheckReset: reset masks, alone and with update and writable masks, on values and collections.
//
// gosym: time=60s
func CheckReset() {
	rs := []string{pA, pN, pNA, pNC, pR}
	m := mask("m", 1, pA, pN, pR)
	w := mask("w", 1, pA, pN)
	var reset []string
	for i := sym.Choice("resets", 3); i > 0; i-- {
		reset = append(reset, rs[sym.Choice("reset", len(rs))])
	}
	build := func(name string) *msg {
		x := &msg{DefaultInt32: sym.Int32(name + ".a"), RepeatedInt32: []int32{sym.Int32(name + ".r")}}
		if sym.Flip(name + ".n") {
			x.DefaultNestedMessage = &nested{A: sym.Int32(name + ".na"), Corecursive: &msg{DefaultInt32: 4}}
		}
		return x
	}
	run(build("old"), build("new"), m, w, reset, sym.Flip("coll"))
}

// CheckMoreWritable: extra writable fields per call, and the all-writable override.
//
// gosym: time=60s
func CheckMoreWritable() {
	ps := []string{pA, pN, pNA, pR}
	m := mask("m", 1, ps...)
	w := mask("w", 1, ps...)
	more := mask("more", 1, ps...)
	all := sym.Flip("all")
	old := &msg{DefaultInt32: sym.Int32("old.a"), DefaultNestedMessage: &nested{A: sym.Int32("old.n.a"), Corecursive: &msg{DefaultInt32: 3}}, RepeatedInt32: []int32{1}}
	src := &msg{DefaultInt32: sym.Int32("new.a"), RepeatedInt32: []int32{sym.Int32("new.r")}}
	if sym.Flip("new.n") {
		src.DefaultNestedMessage = symNested("new.n", true)
	}
	keep := proto.Clone(old).(*msg)
	eff := w
	var wo []resource.WriteOption
	if m != nil {
		wo = append(wo, resource.WithUpdateMask(m))
	}
	if more != nil {
		wo = append(wo, resource.WithMoreWritableFields(more))
		if w != nil {
			eff = &fieldmaskpb.FieldMask{Paths: append(append([]string{}, w.Paths...), more.Paths...)}
		}
	}
	if all {
		wo = append(wo, resource.WithAllFieldsWritable())
		eff = nil
	}
	want, ok := ref(old, src, m, eff, nil)
	v := resource.NewValue(resource.WithInitialValue(old), resource.WithWritableFields(w))
	got, err := v.Set(proto.Clone(src), wo...)
	if !ok {
		sym.Assert("more-rejected", hx.Code(err) == codes.InvalidArgument, err)
		hx.Same("more-rejected-unchanged", v.Get(), keep)
		return
	}
	sym.Assert("more-accepted", err == nil, err)
	hx.Same("more-result", got, want)
	hx.Same("more-stored", v.Get(), want)
}

// grown is the mask of the given paths with room for more in the backing array, as append leaves it.
func grown(paths ...string) *fieldmaskpb.FieldMask {
	return &fieldmaskpb.FieldMask{Paths: append(make([]string, 0, 6), paths...)}
}

// CheckHistory: a sequence of writes to one resource, each with its own masks. Every write obeys the masks of the
// resource and its own, whatever the masks of earlier writes were.
//
// gosym: time=60s
func CheckHistory() {
	ps := []string{pN, pA, pNA, pR, pB}
	var w *fieldmaskpb.FieldMask
	var wPaths []string
	switch sym.Choice("w", 4) {
	case 1:
		wPaths = []string{pN}
	case 2:
		wPaths = []string{pR, pB}
	case 3:
		wPaths = []string{pNA, pN, pR}
	}
	if wPaths != nil {
		w = grown(wPaths...)
	}
	cur := &msg{DefaultInt32: sym.Int32("old.a"), DefaultString: "o", DefaultNestedMessage: &nested{A: sym.Int32("old.n.a"), Corecursive: &msg{DefaultInt32: 3}}, RepeatedInt32: []int32{1}}
	coll := sym.Flip("coll")
	var write func(m proto.Message, opts ...resource.WriteOption) (proto.Message, error)
	var read func() proto.Message
	if coll {
		c := resource.NewCollection(resource.WithInitialRecord("x", proto.Clone(cur)), resource.WithWritableFields(w))
		write = func(m proto.Message, opts ...resource.WriteOption) (proto.Message, error) {
			return c.Update("x", m, opts...)
		}
		read = func() proto.Message { m, _ := c.Get("x"); return m }
	} else {
		v := resource.NewValue(resource.WithInitialValue(proto.Clone(cur)), resource.WithWritableFields(w))
		write, read = v.Set, func() proto.Message { return v.Get() }
	}
	steps := 2
	for i := 0; i < steps; i++ {
		var wo []resource.WriteOption
		eff := w
		if w != nil {
			eff = &fieldmaskpb.FieldMask{Paths: wPaths}
		}
		var m, extra *fieldmaskpb.FieldMask
		var mPaths []string
		if n := sym.Choice("m", len(ps)+1); n > 0 {
			mPaths = []string{ps[n-1]}
			m = grown(mPaths...)
			wo = append(wo, resource.WithUpdateMask(m))
			if i == 0 && sym.Flip("moreUpdate") {
				wo = append(wo, resource.WithMoreUpdatePaths(pA))
				mPaths = append(mPaths, pA)
			}
		} else if sym.Flip("moreUpdate") {
			wo = append(wo, resource.WithMoreUpdatePaths(pA)) // without a mask there are no more fields to update
		}
		moreCases := 3
		if i == 0 {
			moreCases = 4
		}
		switch sym.Choice("more", moreCases) {
		case 3: // twice
			wo = append(wo, resource.WithMoreWritablePaths(pB), resource.WithMoreWritableFields(grown(pA)))
			if w != nil {
				eff = &fieldmaskpb.FieldMask{Paths: append([]string{pA, pB}, wPaths...)}
			}
		case 1:
			extra = grown(pA)
			wo = append(wo, resource.WithMoreWritableFields(extra))
			if w != nil {
				eff = &fieldmaskpb.FieldMask{Paths: append([]string{pA}, wPaths...)}
			}
		case 2:
			wo = append(wo, resource.WithAllFieldsWritable())
			eff = nil
		}
		src := &msg{DefaultInt32: sym.Int32("new.a"), DefaultString: "n", DefaultNestedMessage: &nested{A: sym.Int32("new.n.a")}}
		if i == 1 {
			src.RepeatedInt32 = []int32{7}
		}
		effM := m
		if m != nil {
			effM = &fieldmaskpb.FieldMask{Paths: mPaths}
		}
		want, ok := ref(cur, src, effM, eff, nil)
		got, err := write(proto.Clone(src), wo...)
		if !ok {
			sym.Assert("step-rejected", hx.Code(err) == codes.InvalidArgument, err)
			hx.Same("step-rejected-unchanged", read(), cur)
		} else {
			sym.Assert("step-accepted", err == nil, err)
			hx.Same("step-result", got, want)
			hx.Same("step-stored", read(), want)
			cur = want
		}
	}
}
