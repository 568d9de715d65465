// Package c16: message comparers are sound equivalences.
package c16

import (
	"math"
	"time"

	"google.golang.org/protobuf/proto"
	pref "google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
)

type msg = testproto.TestAllTypes
type nested = testproto.TestAllTypes_NestedMessage

// agree checks the default comparer against proto.Equal, both ways round.
func agree(x, y proto.Message) {
	eq := cmp.Equal()
	want := proto.Equal(x, y)
	sym.Assert("equal-agrees", eq(x, y) == want, x, y)
	sym.Assert("equal-agrees-reversed", eq(y, x) == want, x, y)
	sym.Assert("equal-reflexive", eq(x, x), x)
}

func fill(name string, group int) *msg {
	m := &msg{}
	n := func(s string) string { return name + "." + s }
	switch group {
	case 0: // implicit presence scalars
		m.DefaultInt32, m.DefaultUint64, m.DefaultBool = sym.Int32(n("i")), sym.Uint64(n("u")), sym.Bool(n("b"))
		m.DefaultSint64, m.DefaultFixed32 = sym.Int64(n("s")), sym.Uint32(n("f"))
		m.DefaultNestedEnum = testproto.TestAllTypes_NestedEnum(sym.Int32(n("e")))
	case 1: // floats, NaN and both zeros included
		m.DefaultFloat, m.DefaultDouble = sym.Float32(n("f")), sym.Float64(n("d"))
	case 2: // strings and bytes
		m.DefaultString = sym.String(n("s"), 2)
		m.DefaultBytes = []byte(sym.String(n("b"), 2))
		m.RepeatedString = []string{sym.String(n("rs"), 1)}
	case 3: // explicit presence: unset against default
		if sym.Flip(n("oi")) {
			m.OptionalInt32 = proto.Int32(sym.Int32(n("oiv")))
		}
		if sym.Flip(n("os")) {
			m.OptionalString = proto.String(sym.String(n("osv"), 1))
		}
		if sym.Flip(n("od")) {
			m.OptionalDouble = proto.Float64(sym.Float64(n("odv")))
		}
		if sym.Flip(n("ob")) {
			m.OptionalBytes = []byte{}
			if sym.Flip(n("obv")) {
				m.OptionalBytes = []byte{sym.Byte(n("obb"))}
			}
		}
	case 4: // messages
		if sym.Flip(n("n")) {
			m.DefaultNestedMessage = &nested{A: sym.Int32(n("na"))}
			if sym.Flip(n("nc")) {
				m.DefaultNestedMessage.Corecursive = &msg{DefaultInt32: sym.Int32(n("nca"))}
			}
		}
		switch sym.Choice(n("u"), 4) {
		case 1:
			m.OneofDefault = &testproto.TestAllTypes_OneofDefaultInt32{OneofDefaultInt32: sym.Int32(n("ui"))}
		case 2:
			m.OneofDefault = &testproto.TestAllTypes_OneofDefaultNestedMessage{OneofDefaultNestedMessage: &nested{A: sym.Int32(n("una"))}}
		case 3:
			m.OneofDefault = &testproto.TestAllTypes_OneofDefaultNestedMessage{}
		}
	case 5: // lists
		for i := sym.Choice(n("l"), 3); i > 0; i-- {
			m.RepeatedInt32 = append(m.RepeatedInt32, sym.Int32(n("li")))
		}
		for i := sym.Choice(n("ln"), 3); i > 0; i-- {
			m.RepeatedNestedMessage = append(m.RepeatedNestedMessage, &nested{A: sym.Int32(n("lni"))})
		}
		if sym.Flip(n("ld")) {
			m.RepeatedDouble = []float64{sym.Float64(n("ldv"))}
		}
	case 6: // maps
		for i := sym.Choice(n("m"), 3); i > 0; i-- {
			if m.MapInt32Int32 == nil {
				m.MapInt32Int32 = map[int32]int32{}
			}
			m.MapInt32Int32[int32(sym.Choice(n("mk"), 3))] = sym.Int32(n("mv"))
		}
		if sym.Flip(n("mn")) {
			m.MapStringNestedMessage = map[string]*nested{"k": {A: sym.Int32(n("mnv"))}}
			if sym.Flip(n("mn2")) {
				m.MapStringNestedMessage["l"] = &nested{}
			}
		}
	case 7: // well known
		if sym.Flip(n("w")) {
			m.DefaultWellKnown = &testproto.WellKnown{}
			if sym.Flip(n("wt")) {
				m.DefaultWellKnown.DefaultTimestamp = &timestamppb.Timestamp{Seconds: sym.Int64(n("ws")), Nanos: sym.Int32(n("wn"))}
			}
			if sym.Flip(n("wd")) {
				m.DefaultWellKnown.DefaultDuration = &durationpb.Duration{Seconds: sym.Int64(n("wds")), Nanos: sym.Int32(n("wdn"))}
			}
		}
	}
	return m
}

// CheckEqual: the default comparer and proto.Equal give the same verdict for two messages of one type.
//
// gosym: time=200s thorough.time=400s
func CheckEqual() {
	g := sym.Choice("group", 8)
	x, y := fill("x", g), fill("y", g)
	agree(x, y)
	sym.Observe("eq", proto.Equal(x, y))
}

// CheckNilAndTypes: nil, typed nil, empty messages and messages of different types.
//
// gosym: time=20s
func CheckNilAndTypes() {
	pick := func(name string) proto.Message {
		switch sym.Choice(name, 7) {
		case 0:
			return nil
		case 1:
			return (*msg)(nil)
		case 2:
			return &msg{}
		case 3:
			return (*nested)(nil)
		case 4:
			return &nested{}
		case 5:
			return &nested{A: sym.Int32(name + ".a")}
		default:
			return &testproto.ForeignMessage{C: sym.Int32(name + ".c")}
		}
	}
	agree(pick("x"), pick("y"))
}

// CheckUnknown: unknown fields, repeated or not, in any order of the different field numbers.
//
// gosym: time=20s
func CheckUnknown() {
	a, b := []byte{0xf8, 0x7f, 0x05}, []byte{0xf0, 0x7f, 0x01}
	a2 := []byte{0xf8, 0x7f, 0x06}
	cat := func(p ...[]byte) []byte {
		var r []byte
		for _, x := range p {
			r = append(r, x...)
		}
		return r
	}
	raws := [][]byte{nil, a, b, a2, cat(a, b), cat(b, a), cat(a, a2), cat(a2, a), cat(a, b, a2), cat(b, a, a2), cat(a, a2, b), cat(a2, b, a),
		cat(a, b, a), cat(b, a, a), cat(a2, b, a2)}
	pick := func(name string) *msg {
		m := &msg{DefaultInt32: int32(sym.Choice(name+".a", 2))}
		m.ProtoReflect().SetUnknown(raws[sym.Choice(name+".raw", len(raws))])
		if sym.Flip(name + ".nested") {
			return &msg{DefaultNestedMessage: &nested{Corecursive: m}}
		}
		return m
	}
	agree(pick("x"), pick("y"))
}

// CheckChangeTime: change_time is ignored inside messages called Change, and nowhere else.
//
// gosym: time=60s
func CheckChangeTime() {
	eq := cmp.Equal()
	stamp := func(name string) *timestamppb.Timestamp {
		if !sym.Flip(name) {
			return nil
		}
		return &timestamppb.Timestamp{Seconds: sym.Int64(name + ".s"), Nanos: sym.Int32(name + ".n")}
	}
	change := func(name string) *traits.PullOnOffResponse_Change {
		c := &traits.PullOnOffResponse_Change{Name: sym.String(name+".name", 1), ChangeTime: stamp(name + ".t")}
		if sym.Flip(name + ".v") {
			c.OnOff = &traits.OnOff{State: traits.OnOff_State(sym.Int32(name + ".state"))}
		}
		return c
	}
	x, y := change("x"), change("y")
	xc, yc := proto.Clone(x).(*traits.PullOnOffResponse_Change), proto.Clone(y).(*traits.PullOnOffResponse_Change)
	xc.ChangeTime, yc.ChangeTime = nil, nil
	want := proto.Equal(xc, yc)
	sym.Assert("change-time-ignored", eq(x, y) == want, x, y)
	sym.Assert("change-time-ignored-reversed", eq(y, x) == want, x, y)
	rx := &traits.PullOnOffResponse{Changes: []*traits.PullOnOffResponse_Change{x}}
	ry := &traits.PullOnOffResponse{Changes: []*traits.PullOnOffResponse_Change{y}}
	sym.Assert("nested-change-time-ignored", eq(rx, ry) == want, x, y)
	ry.Changes = append(ry.Changes, y)
	sym.Assert("number-of-changes-counts", !eq(rx, ry), x, y)
	// with unknown fields next to the change time
	x.ProtoReflect().SetUnknown([]byte{0xf8, 0x7f, 0x05})
	sym.Assert("unknown-still-compared", !eq(x, y), x, y)
}

// CheckOtherTimes: fields that look like a change_time elsewhere are compared.
//
// gosym: time=20s
func CheckOtherTimes() {
	stamp := func(name string) *timestamppb.Timestamp {
		if !sym.Flip(name) {
			return nil
		}
		return &timestamppb.Timestamp{Seconds: sym.Int64(name + ".s")}
	}
	agree(&traits.OpenClosePosition{OpenPercent: 1, OpenPercentTween: nil}, &traits.OpenClosePosition{OpenPercent: 1})
	agree(&traits.Occupancy{StateChangeTime: stamp("x"), PeopleCount: sym.Int32("xp")}, &traits.Occupancy{StateChangeTime: stamp("y"), PeopleCount: sym.Int32("yp")})
	agree(&traits.ElectricMode{StartTime: stamp("xm")}, &traits.ElectricMode{StartTime: stamp("ym")})
}

// ---- tolerance comparers

var (
	fields = (&msg{}).ProtoReflect().Descriptor().Fields()
	wk     = (&testproto.WellKnown{}).ProtoReflect().Descriptor().Fields()
	fdF64  = fields.ByName("default_double")
	fdF32  = fields.ByName("default_float")
	fdInt  = fields.ByName("default_int32")
	fdStr  = fields.ByName("default_string")
	fdMsg  = fields.ByName("default_nested_message")
	fdTime = wk.ByName("default_timestamp")
	fdDur  = wk.ByName("default_duration")
)

func both(label string, f cmp.Value, fd pref.FieldDescriptor, x, y pref.Value, want bool, msg ...any) {
	eq, ok := f(fd, x, y)
	sym.Assert(label+"-attempts", ok, msg...)
	sym.Assert(label+"-exact", eq == want, msg...)
	eq, ok = f(fd, y, x)
	sym.Assert(label+"-reversed", sym.And(ok, eq == want), msg...)
	eq, ok = f(fd, x, x)
	sym.Assert(label+"-reflexive", sym.And(ok, eq), msg...)
}

var tolerances = []float64{0, 0.01, 0.5, 1, 3}

// CheckFloatApprox: any two finite floats, against the definition; NaN and the infinities equal only themselves.
//
// gosym: time=40s thorough.time=300s qtime=20s
func CheckFloatApprox() {
	fraction, margin := tolerances[sym.Choice("fraction", 4)], tolerances[sym.Choice("margin", 5)]
	f := cmp.FloatValueApprox(fraction, margin)
	var x, y float64
	var fd pref.FieldDescriptor
	var vx, vy pref.Value
	if sym.Flip("single") {
		a, b := sym.Float32("x"), sym.Float32("y")
		x, y, fd, vx, vy = float64(a), float64(b), fdF32, pref.ValueOfFloat32(a), pref.ValueOfFloat32(b)
	} else {
		x, y, fd = sym.Float64("x"), sym.Float64("y"), fdF64
		vx, vy = pref.ValueOfFloat64(x), pref.ValueOfFloat64(y)
	}
	var want bool
	if x == y || (x != x && y != y) {
		want = true
	} else if x != x || y != y || math.IsInf(x, 0) || math.IsInf(y, 0) {
		want = false
	} else {
		want = math.Abs(x-y) <= math.Max(margin, fraction*math.Min(math.Abs(x), math.Abs(y)))
	}
	both("float", f, fd, vx, vy, want, x, y, fraction, margin)
}

// CheckFloatMessage: tolerances applied through a message comparer, presence included.
//
// gosym: time=100s qtime=15s
func CheckFloatMessage() {
	margin := tolerances[1+sym.Choice("margin", 3)]
	eq := cmp.Equal(cmp.FloatValueApprox(0, margin))
	x, y := sym.Float64("x"), sym.Float64("y")
	sym.Assume(x >= -100 && x <= 100 && y >= -100 && y <= 100)
	near := math.Abs(x-y) <= margin
	a, b := &msg{DefaultDouble: x, DefaultInt32: 1}, &msg{DefaultDouble: y, DefaultInt32: 1}
	sym.Assert("message-float", eq(a, b) == near, x, y, margin)
	sym.Assert("message-float-reversed", eq(b, a) == near, x, y, margin)
	b.DefaultInt32 = 2
	sym.Assert("other-fields-still-compared", !eq(a, b), x, y)
	a, b = &msg{OptionalDouble: &x}, &msg{OptionalDouble: &y}
	sym.Assert("message-optional-float", eq(a, b) == near, x, y, margin)
	sym.Assert("presence-still-compared", !eq(a, &msg{}), x)
}

// within is whether |ds seconds + dn nanoseconds| <= d, for |dn| < 2 seconds.
func within(ds int64, dn int64, d time.Duration) bool {
	for dn < 0 {
		ds, dn = ds-1, dn+1e9
	}
	for dn >= 1e9 {
		ds, dn = ds+1, dn-1e9
	}
	// now 0 <= dn < 1e9; compare with d and with -d in seconds and nanoseconds
	s, n := int64(d)/1e9, int64(d)%1e9
	if ds >= 0 {
		return ds < s || ds == s && dn <= n
	}
	// -(ds, dn) = (-ds-1, 1e9-dn)
	if dn == 0 {
		ds, dn = -ds, 0
	} else {
		ds, dn = -ds-1, 1e9-dn
	}
	return ds < s || ds == s && dn <= n
}

var timeTolerances = []time.Duration{0, 1, 1500 * time.Millisecond, time.Hour, math.MaxInt64 - 10e9}

// CheckTimeWithin: any two valid timestamps.
//
// gosym: time=30s thorough.time=300s qtime=10s
func CheckTimeWithin() {
	d := timeTolerances[sym.Choice("d", len(timeTolerances))]
	f := cmp.TimeValueWithin(d)
	stamp := func(name string) *timestamppb.Timestamp {
		t := &timestamppb.Timestamp{Seconds: sym.Int64(name + ".s"), Nanos: sym.Int32(name + ".n")}
		sym.Assume(t.Seconds >= -62135596800 && t.Seconds <= 253402300799 && t.Nanos >= 0 && t.Nanos <= 999999999)
		return t
	}
	x, y := stamp("x"), stamp("y")
	small(x.Seconds, y.Seconds, d)
	want := within(x.Seconds-y.Seconds, int64(x.Nanos)-int64(y.Nanos), d)
	both("time", f, fdTime, pref.ValueOfMessage(x.ProtoReflect()), pref.ValueOfMessage(y.ProtoReflect()), want, x, y, d)
}

// CheckDurationWithin: any two valid durations.
//
// gosym: time=60s thorough.time=300s qtime=10s
func CheckDurationWithin() {
	d := timeTolerances[sym.Choice("d", len(timeTolerances))]
	f := cmp.DurationValueWithin(d)
	x, y := symDur("x"), symDur("y")
	small(x.Seconds, y.Seconds, d)
	want := within(x.Seconds-y.Seconds, int64(x.Nanos)-int64(y.Nanos), d)
	both("duration", f, fdDur, pref.ValueOfMessage(x.ProtoReflect()), pref.ValueOfMessage(y.ProtoReflect()), want, x, y, d)
}

// small keeps the seconds small on half of the paths, so that other ways of calculating stay easy to decide.
func small(x, y int64, d time.Duration) {
	if sym.Flip("small") {
		sym.Assume(x >= -2 && x <= 3 && y >= 0 && y <= 2)
	}
}

func symDur(name string) *durationpb.Duration {
	t := &durationpb.Duration{Seconds: sym.Int64(name + ".s"), Nanos: sym.Int32(name + ".n")}
	sym.Assume(t.Seconds >= -315576000000 && t.Seconds <= 315576000000 && t.Nanos >= -999999999 && t.Nanos <= 999999999)
	sym.Assume(!(t.Seconds > 0 && t.Nanos < 0) && !(t.Seconds < 0 && t.Nanos > 0))
	return t
}

// CheckDurationPercent: durations of whole seconds within p percent of each other.
//
// gosym: time=200s qtime=60s
func CheckDurationPercent() {
	ps := []int64{0, 1, 10, 50, 100}
	p := ps[sym.Choice("p", len(ps))]
	f := cmp.DurationValueWithinP(float32(p))
	max := 12
	if sym.Thorough() {
		max = 40
	}
	xs, ys := int64(sym.Choice("x", 2*max+1)-max), int64(sym.Choice("y", 2*max+1)-max)
	x, y := &durationpb.Duration{Seconds: xs}, &durationpb.Duration{Seconds: ys}
	abs := func(a int64) int64 {
		if a < 0 {
			return -a
		}
		return a
	}
	// both are within p percent of the other
	want := abs(xs-ys)*100 <= p*min(abs(xs), abs(ys))
	both("percent", f, fdDur, pref.ValueOfMessage(x.ProtoReflect()), pref.ValueOfMessage(y.ProtoReflect()), want, xs, ys, p)
}

// CheckDurationPercentSymmetry: any two valid durations compare the same both ways, and to themselves.
//
// gosym: time=40s thorough.time=300s qtime=20s
func CheckDurationPercentSymmetry() {
	ps := []float32{5, 0, 100}
	n := 1
	if sym.Thorough() {
		n = 3
	}
	f := cmp.DurationValueWithinP(ps[sym.Choice("p", n)])
	x, y := symDur("x"), symDur("y")
	if !sym.Thorough() {
		sym.Assume(x.Seconds > -1000 && x.Seconds < 1000 && y.Seconds > -1000 && y.Seconds < 1000)
	}
	vx, vy := pref.ValueOfMessage(x.ProtoReflect()), pref.ValueOfMessage(y.ProtoReflect())
	eq1, ok := f(fdDur, vx, vx)
	sym.Assert("percent-reflexive", sym.And(ok, eq1), x)
	eq1, _ = f(fdDur, vx, vy)
	eq2, _ := f(fdDur, vy, vx)
	sym.Assert("percent-symmetric", eq1 == eq2, x, y)
}

// CheckOwnKind: tolerance comparers leave fields of other kinds alone, and treat unset messages as equal to each other only.
//
// gosym: time=60s
func CheckOwnKind() {
	fs := []cmp.Value{cmp.FloatValueApprox(0.1, 10), cmp.TimeValueWithin(time.Hour), cmp.DurationValueWithin(time.Hour), cmp.DurationValueWithinP(50)}
	own := [][]pref.FieldDescriptor{{fdF64, fdF32}, {fdTime}, {fdDur}, {fdDur}}
	i := sym.Choice("cmp", len(fs))
	type kind struct {
		fd   pref.FieldDescriptor
		x, y pref.Value
	}
	ts := func(s int64) pref.Value {
		return pref.ValueOfMessage((&timestamppb.Timestamp{Seconds: s}).ProtoReflect())
	}
	ds := func(s int64) pref.Value {
		return pref.ValueOfMessage((&durationpb.Duration{Seconds: s}).ProtoReflect())
	}
	ks := []kind{
		{fdF64, pref.ValueOfFloat64(1), pref.ValueOfFloat64(1.5)},
		{fdF32, pref.ValueOfFloat32(1), pref.ValueOfFloat32(1.5)},
		{fdInt, pref.ValueOfInt32(sym.Int32("xi")), pref.ValueOfInt32(sym.Int32("yi"))},
		{fdStr, pref.ValueOfString(sym.String("xs", 1)), pref.ValueOfString(sym.String("ys", 1))},
		{fdMsg, pref.ValueOfMessage((&nested{A: 1}).ProtoReflect()), pref.ValueOfMessage((&nested{A: 1}).ProtoReflect())},
		{fdTime, ts(10), ts(11)},
		{fdDur, ds(10), ds(11)},
	}
	k := ks[sym.Choice("kind", len(ks))]
	_, ok := fs[i](k.fd, k.x, k.y)
	want := false
	for _, fd := range own[i] {
		want = want || fd == k.fd
	}
	sym.Assert("only-own-kind", ok == want, i, k.fd.Name())
	if i > 0 && want {
		unset := pref.ValueOfMessage((*timestamppb.Timestamp)(nil).ProtoReflect())
		if k.fd == fdDur {
			unset = pref.ValueOfMessage((*durationpb.Duration)(nil).ProtoReflect())
		}
		eq, ok := fs[i](k.fd, unset, unset)
		sym.Assert("unset-equals-unset", eq && ok)
		eq, ok = fs[i](k.fd, unset, k.y)
		sym.Assert("unset-differs-from-set", !eq && ok)
		eq, ok = fs[i](k.fd, k.x, unset)
		sym.Assert("set-differs-from-unset", !eq && ok)
	}
}

// CheckCombine: And, Or, ValueAnd and ValueOr are conjunction and disjunction of the comparers that apply.
//
// gosym: time=60s
func CheckCombine() {
	n := sym.Choice("n", 4)
	var ms []cmp.Message
	var vs []cmp.Value
	all, any, some := true, false, false
	vall, vany := true, false
	for i := 0; i < n; i++ {
		eq, ok := sym.Bool("eq"), sym.Bool("ok")
		ms = append(ms, func(x, y proto.Message) bool { return eq })
		vs = append(vs, func(fd pref.FieldDescriptor, x, y pref.Value) (bool, bool) { return eq, ok })
		all, any = sym.And(all, eq), sym.Or(any, eq)
		some = sym.Or(some, ok)
		vall, vany = sym.And(vall, sym.Implies(ok, eq)), sym.Or(vany, sym.And(ok, eq))
	}
	x := &msg{}
	sym.Assert("and", cmp.And(ms...)(x, x) == all)
	sym.Assert("or", cmp.Or(ms...)(x, x) == any)
	v := pref.ValueOfInt32(1)
	eq, ok := cmp.ValueAnd(vs...)(fdInt, v, v)
	sym.Assert("value-and-applies", ok == some)
	sym.Assert("value-and", sym.Implies(ok, eq == vall))
	eq, ok = cmp.ValueOr(vs...)(fdInt, v, v)
	sym.Assert("value-or-applies", ok == some)
	sym.Assert("value-or", sym.Implies(ok, eq == vany))
	// through a message comparer
	if n > 0 {
		a, b := &msg{DefaultInt32: sym.Int32("a")}, &msg{DefaultInt32: sym.Int32("b")}
		sym.Assume(a.DefaultInt32 != 0 && b.DefaultInt32 != 0)
		got := cmp.Equal(vs...)(a, b)
		want := sym.Or(sym.And(some, vall), sym.And(sym.Not(some), a.DefaultInt32 == b.DefaultInt32))
		sym.Assert("equal-with-values", got == want)
	}
}
