// Package c18: timeline algebra matches its mathematical meaning.
package c18

import (
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"
	periods "github.com/smart-core-os/sc-api/go/types/time"

	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	timepb "github.com/smart-core-os/sc-golang/pkg/time"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb/segmentpb"
)

type seg = traits.ElectricMode_Segment

const (
	minSeconds = -62135596800
	maxSeconds = 253402300799
)

// stamp is any valid timestamp.
func stamp(name string) *timestamppb.Timestamp {
	t := &timestamppb.Timestamp{Seconds: sym.Int64(name + ".s"), Nanos: sym.Int32(name + ".n")}
	sym.Assume(sym.And(sym.And(t.Seconds >= minSeconds, t.Seconds <= maxSeconds), sym.And(t.Nanos >= 0, t.Nanos < 1e9)))
	return t
}

func before(a, b *timestamppb.Timestamp) bool {
	return sym.Or(a.Seconds < b.Seconds, sym.And(a.Seconds == b.Seconds, a.Nanos < b.Nanos))
}

func equal(a, b *timestamppb.Timestamp) bool {
	return sym.And(a.Seconds == b.Seconds, a.Nanos == b.Nanos)
}

// CheckCompare: timestamps compare chronologically, as -1, 0 and 1.
//
// gosym: time=60s
func CheckCompare() {
	a, b := stamp("a"), stamp("b")
	r := timepb.CompareAscending(a, b)
	want := sym.IfInt(before(a, b), -1, sym.IfInt(equal(a, b), 0, 1))
	sym.Assert("compare", int64(r) == want, r)
	sym.Assert("compare-reversed", int64(timepb.CompareAscending(b, a)) == -want)
	sym.Assert("compare-self", timepb.CompareAscending(a, a) == 0)
	sym.Observe("compare", r)
}

// period is a period with any of its ends missing; when both are there they are in order.
func period(name string) *periods.Period {
	p := &periods.Period{}
	if sym.Flip(name + ".from") {
		p.StartTime = stamp(name + ".start")
	}
	if sym.Flip(name + ".to") {
		p.EndTime = stamp(name + ".end")
	}
	if p.StartTime != nil && p.EndTime != nil {
		sym.Assume(sym.Not(before(p.EndTime, p.StartTime)))
	}
	return p
}

// below is whether some instant is at or after from and before to, both optional.
func lessThan(from, to *timestamppb.Timestamp) bool {
	return from == nil || to == nil || before(from, to)
}

func atMost(from, to *timestamppb.Timestamp) bool {
	return from == nil || to == nil || sym.Not(before(to, from))
}

// CheckPeriods: two periods intersect when they have an instant in common, and are connected when they overlap or touch.
//
// gosym: time=60s
func CheckPeriods() {
	p, q := period("p"), period("q")
	kp, kq := proto.Clone(p), proto.Clone(q)
	// an instant t with start <= t < end for both exists iff each start is before each end
	common := sym.And(sym.And(lessThan(p.StartTime, q.EndTime), lessThan(q.StartTime, p.EndTime)),
		sym.And(lessThan(p.StartTime, p.EndTime), lessThan(q.StartTime, q.EndTime)))
	touch := sym.And(atMost(p.StartTime, q.EndTime), atMost(q.StartTime, p.EndTime))
	sym.Assert("intersect", timepb.PeriodsIntersect(p, q) == common, p, q)
	sym.Assert("intersect-symmetric", timepb.PeriodsIntersect(q, p) == common, p, q)
	sym.Assert("connected", timepb.PeriodsConnected(p, q) == touch, p, q)
	sym.Assert("connected-symmetric", timepb.PeriodsConnected(q, p) == touch, p, q)
	hx.Same("p-kept", p, kp)
	hx.Same("q-kept", q, kq)
	sym.Assert("intersect-nil", !timepb.PeriodsIntersect(p, nil) && !timepb.PeriodsIntersect(nil, p))
	sym.Assert("connected-nil", !timepb.PeriodsConnected(p, nil) && !timepb.PeriodsConnected(nil, p))
}

// ---- segments as step functions

// length is a length below a second, so that durations stay simple terms.
func length(name string) int64 {
	return int64(sym.Int(name, 0, 1<<20-1))
}

// list is a list of segments with the lengths they have; -1 is forever.
type list struct {
	segs []*seg
	lens []int64
}

func newList(name string, max int, mags func(name string) float32) list {
	return listOf(name, max, mags, func(name string) (int64, *durationpb.Duration) {
		d := length(name)
		return d, &durationpb.Duration{Nanos: int32(d)}
	})
}

// wideList has lengths of up to three years.
func wideList(name string, max int, mags func(name string) float32) list {
	return listOf(name, max, mags, func(name string) (int64, *durationpb.Duration) {
		s, n := int64(sym.Int(name+".s", 0, 1e8)), int64(sym.Int(name+".n", 0, 999999999))
		return s*1e9 + n, &durationpb.Duration{Seconds: s, Nanos: int32(n)}
	})
}

func listOf(name string, max int, mags func(name string) float32, length func(string) (int64, *durationpb.Duration)) list {
	var l list
	n := sym.Choice(name+".n", max+1)
	inf := n > 0 && sym.Flip(name+".inf")
	for i := 0; i < n; i++ {
		s := &seg{Magnitude: mags(name + ".m")}
		d := int64(-1)
		if !(inf && i == n-1) {
			d, s.Length = length(name + ".l")
		}
		l.segs = append(l.segs, s)
		l.lens = append(l.lens, d)
	}
	return l
}

func anyMag(name string) float32 {
	f := sym.Float32(name)
	sym.Assume(f == f)
	return f
}

func (l list) clone() []*seg { return cloneSegs(l.segs) }

func cloneSegs(ss []*seg) []*seg {
	var r []*seg
	for _, s := range ss {
		r = append(r, proto.Clone(s).(*seg))
	}
	return r
}

func (l list) kept(label string, keep []*seg) {
	for i, s := range l.segs {
		hx.Same(label, s, keep[i])
	}
}

func nanos(s *seg) int64 { return s.Length.Seconds*1e9 + int64(s.Length.Nanos) }

// at is the step function of segments at t: its value and whether there is one.
func at(segs []*seg, t int64) (float32, bool) {
	v, ok := float32(0), false
	var from int64
	for _, s := range segs {
		in := sym.And(sym.Not(ok), t >= from)
		if s.Length == nil {
			v, ok = sym.IfFloat32(in, s.Magnitude, v), sym.Or(ok, in)
			break
		}
		from += nanos(s)
		in = sym.And(in, t < from)
		v, ok = sym.IfFloat32(in, s.Magnitude, v), sym.Or(ok, in)
	}
	return v, ok
}

func sameAt(label string, got []*seg, t int64, v float32, ok bool) {
	gv, gok := at(got, t)
	sym.Assert(label+"-defined", gok == ok, t)
	sym.Assert(label+"-value", sym.Implies(ok, gv == v), t, gv, v)
}

func size() int {
	if sym.Thorough() {
		return 4
	}
	return 3
}

// CheckLookup: active-at, magnitude-at, duration and max.
//
// gosym: time=100s thorough.time=600s
func CheckLookup() {
	l := wideList("s", size(), anyMag)
	keep := l.clone()
	d := int64(sym.Int("d", -1<<40, 1<<60))
	v, ok := at(l.segs, d)
	gv, gok := segmentpb.MagnitudeAt(time.Duration(d), l.segs...)
	sym.Assert("magnitude-defined", gok == ok, d)
	sym.Assert("magnitude", sym.Implies(ok, gv == v), gv, v)
	elapsed, i := segmentpb.ActiveAt(time.Duration(d), l.segs...)
	var from int64
	for _, n := range l.lens[:i] {
		sym.Assert("active-not-forever", n >= 0)
		from += n
	}
	if d < 0 {
		sym.Assert("active-before", int64(elapsed) == d && i == 0)
	} else {
		sym.Assert("active-elapsed", int64(elapsed) == from, elapsed, from)
		sym.Assert("active-from", from <= d)
		if i < len(l.segs) {
			sym.Assert("active-to", l.lens[i] < 0 || d < from+l.lens[i])
		}
	}
	total, inf := segmentpb.Duration(l.segs...)
	var sum int64
	forever := false
	for _, n := range l.lens {
		if n < 0 {
			forever = true
		} else {
			sum += n
		}
	}
	sym.Assert("duration", inf == forever && int64(total) == sum, total, inf)
	l.kept("lookup-kept", keep)
	sym.Observe("i", i)
}

// CheckMax: the maximum of the function, from the start or from some time on.
//
// gosym: time=100s thorough.time=600s
func CheckMax() {
	l := wideList("s", size(), anyMag)
	keep := l.clone()
	check := func(label string, i int, from int64) {
		n := len(l.segs)
		sym.Assert(label+"-index", 0 <= i && i <= n, i)
		// the segments with a part that's not over before from
		var end int64
		some := false
		for j, d := range l.lens {
			live := d < 0
			if !live {
				end += d
				live = sym.And(d > 0, end > from)
			}
			some = sym.Or(some, live)
			if i < n {
				sym.Assert(label, sym.Implies(live, l.segs[j].Magnitude <= l.segs[i].Magnitude), i, j)
			}
			if j == i {
				sym.Assert(label+"-live", live, i)
			}
		}
		if i == n {
			sym.Assert(label+"-none", sym.Not(some))
		}
	}
	check("max", segmentpb.Max(l.segs...), 0)
	m := segmentpb.MaxMagnitude(l.segs...)
	if i := segmentpb.Max(l.segs...); i < len(l.segs) {
		sym.Assert("max-magnitude", m == l.segs[i].Magnitude)
	} else {
		sym.Assert("max-magnitude-none", m == 0)
	}
	d := int64(sym.Int("d", -1<<40, 1<<60))
	check("max-after", segmentpb.MaxAfter(time.Duration(d), l.segs...), d)
	l.kept("max-kept", keep)
}

// CheckCut: the two parts one after the other are the segment.
//
// gosym: time=60s
func CheckCut() {
	l := wideList("s", 1, anyMag)
	if len(l.segs) == 0 {
		sym.Assume(false)
	}
	s := l.segs[0]
	shape := sym.Flip("shape")
	if shape {
		s.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: anyMag("fixed")}
	}
	keep := l.clone()
	d := int64(sym.Int("d", -1<<40, 1<<60))
	t := int64(sym.Int("t", -1<<40, 1<<60))
	b, a, outside := segmentpb.Cut(time.Duration(d), s)
	var parts []*seg
	if b != nil {
		parts = append(parts, b)
		sym.Assert("before-ends", b.Length != nil && (nanos(b) == d || (outside && nanos(b) <= d)), b, d)
	}
	if a != nil {
		parts = append(parts, a)
	}
	v, ok := at(l.segs, t)
	sameAt("cut", parts, t, v, ok)
	sym.Assert("cut-forever", (a != nil && a.Length == nil) == (s.Length == nil))
	// a cut inside is inside, a cut past the ends is outside
	sym.Assert("cut-inside", sym.Implies(sym.And(d >= 0, l.lens[0] < 0 || d < l.lens[0]), !outside), d)
	sym.Assert("cut-outside", sym.Implies(sym.Or(d < 0, sym.And(l.lens[0] >= 0, d > l.lens[0])), outside), d)
	for _, p := range parts {
		if shape {
			f, is := p.Shape.(*traits.ElectricMode_Segment_Fixed)
			sym.Assert("cut-shape", is && f.Fixed == s.GetFixed(), p)
		} else {
			sym.Assert("cut-no-shape", p.Shape == nil, p)
		}
	}
	l.kept("cut-kept", keep)
}

// CheckShift: shift is translation.
//
// gosym: time=100s thorough.time=600s
func CheckShift() {
	first := true
	l := wideList("s", size(), func(name string) float32 {
		if first {
			first = false
			return anyMag(name)
		}
		return []float32{0, -5}[sym.Choice(name, 2)]
	})
	keep := l.clone()
	d := int64(sym.Int("d", -1<<60, 1<<60))
	t := int64(sym.Int("t", 0, 1<<61))
	got := segmentpb.Shift(time.Duration(d), l.segs...)
	v, ok := at(l.segs, t-d)
	gv, gok := at(got, t)
	// nothing is the same as 0 before the start of the shifted segments
	sym.Assert("shift-value", sym.IfFloat32(ok, v, 0) == sym.IfFloat32(gok, gv, 0), d, t)
	sym.Assert("shift-defined", sym.Implies(ok, gok))
	sym.Assert("shift-end", sym.Implies(t >= d, ok == gok), d, t)
	l.kept("shift-kept", keep)
	// the result isn't changed by using it
	segmentpb.Shift(3, got...)
	l.kept("shift-again-kept", keep)
}

// CheckSum: sum is pointwise addition.
//
// gosym: time=100s thorough.time=800s
func CheckSum() {
	vals := []float32{0, 2, -3}
	if sym.Thorough() {
		vals = []float32{0, 2, -3, 10}
	}
	mags := func(name string) float32 { return vals[sym.Choice(name, len(vals))] }
	n := 1 + sym.Choice("lists", 2)
	var ls []list
	var args, keeps [][]*seg
	for i := 0; i < n; i++ {
		max := 2
		if i > 0 && !sym.Thorough() {
			max = 1
		}
		l := newList("s", max, mags)
		ls = append(ls, l)
		args = append(args, l.segs)
		keeps = append(keeps, l.clone())
	}
	sumIs(ls, args, keeps, false)
}

// CheckSumFloats: magnitudes that aren't exact in binary add up to within rounding, and exactly nothing where nothing
// is left.
//
// gosym: time=60s thorough.time=400s
func CheckSumFloats() {
	vals := []float32{0.1, 0.7, 1e6}
	mags := func(name string) float32 { return vals[sym.Choice(name, len(vals))] }
	var ls []list
	var args, keeps [][]*seg
	for i, n := 0, 2+sym.Choice("lists", 2); i < n; i++ {
		l := newList("s", 1, mags)
		ls = append(ls, l)
		args = append(args, l.segs)
		keeps = append(keeps, l.clone())
	}
	sumIs(ls, args, keeps, true)
}

func sumIs(ls []list, args, keeps [][]*seg, rounds bool) {
	got := segmentpb.Sum(args...)
	t := int64(sym.Int("t", 0, 1<<30))
	var want float32
	forever := false
	for _, l := range ls {
		v, ok := at(l.segs, t)
		want += sym.IfFloat32(ok, v, 0)
		for i, d := range l.lens {
			forever = forever || (d < 0 && l.segs[i].Magnitude != 0)
		}
	}
	gv, gok := at(got, t)
	gv = sym.IfFloat32(gok, gv, 0)
	if rounds {
		diff := gv - want
		sym.Assert("sum-near", sym.And(diff <= want*1e-5, -diff <= want*1e-5), t, gv, want)
	} else {
		sym.Assert("sum", gv == want, t, gv, want)
	}
	_, inf := segmentpb.Duration(got...)
	sym.Assert("sum-ends", !inf || forever, got)
	for i, l := range ls {
		l.kept("sum-kept", keeps[i])
	}
}

// CheckLong: lengths that don't fit in a time.Duration, alone or added up, count as longer than any time.
//
// gosym: time=60s
func CheckLong() {
	var segs []*seg
	n := 1 + sym.Choice("n", 3)
	for i := 0; i < n; i++ {
		l := &durationpb.Duration{Seconds: []int64{0, 1, 4e9, 9e9, 9223372036, 9223372037, 315576000000}[sym.Choice("l", 7)]}
		segs = append(segs, &seg{Magnitude: float32(i + 1), Length: l})
	}
	keep := cloneSegs(segs)
	d := int64(sym.Int("d", 0, 1<<62))
	want := len(segs)
	var sum int64 // in seconds
	found := false
	for i, s := range segs {
		sum += s.Length.Seconds
		if !found && sum > d/1e9 {
			want, found = i, true
		}
	}
	_, i := segmentpb.ActiveAt(time.Duration(d), segs...)
	sym.Assert("long-active", i == want, i, want)
	got := segmentpb.Shift(-time.Duration(d), segs...)
	if d > 0 {
		sym.Assert("long-shift", len(got) == len(segs)-want, got)
	}
	for i, s := range segs {
		hx.Same("long-kept", s, keep[i])
	}
}

// ---- modes

func newMode(name string, max int, mags func(string) float32) (*traits.ElectricMode, list) {
	l := newList(name, max, mags)
	m := &traits.ElectricMode{Id: name, Title: "title", Voltage: 240, Segments: l.segs}
	return m, l
}

// CheckMode: lookups, cut and shift of modes are those of their segments, relative to the start time.
//
// gosym: time=100s thorough.time=600s
func CheckMode() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	m, l := newMode("m", max, anyMag)
	started := sym.Flip("started")
	if started {
		m.StartTime = &timestamppb.Timestamp{Seconds: 1000, Nanos: 500}
	}
	keep := proto.Clone(m).(*traits.ElectricMode)
	d := int64(sym.Int("d", -400, 1<<24)) // of t after the start
	base := time.Unix(1000, 500)
	t := base.Add(time.Duration(d))
	if !started {
		d = 0 // the mode starts whenever
	}
	switch sym.Choice("op", 4) {
	case 0:
		e1, i1 := modepb.ActiveAt(t, m)
		e2, i2 := segmentpb.ActiveAt(time.Duration(d), l.segs...)
		sym.Assert("mode-active", e1 == e2 && i1 == i2, e1, e2, i1, i2)
		sym.Assert("mode-max-after", modepb.MaxSegmentAfter(t, m) == segmentpb.MaxAfter(time.Duration(d), l.segs...))
	case 1:
		v1, ok1 := modepb.MagnitudeAt(t, m)
		v2, ok2 := at(l.segs, d)
		sym.Assert("mode-magnitude", sym.And(ok1 == ok2, sym.Implies(ok2, v1 == v2)))
	case 2:
		b, a, outside := modepb.Cut(t, m)
		at0 := int64(sym.Int("at", -400, 1<<24))
		v, ok := at(l.segs, at0)
		if len(l.segs) == 0 {
			sym.Assert("mode-cut-empty", outside)
			break
		}
		sym.Assert("mode-cut-inside", sym.Implies(ok && at0 == d, !outside))
		sym.Assert("mode-cut-something", b != nil || a != nil)
		if b != nil {
			bv, bok := at(b.Segments, at0)
			if a != nil {
				// before ends at t, but has everything until then
				sym.Assert("mode-cut-before-ends", sym.Implies(at0 >= d, sym.Not(bok)), d, at0)
				sym.Assert("mode-cut-before", sym.Implies(at0 < d, sym.And(bok == ok, sym.Implies(ok, bv == v))), d, at0)
			} else {
				sym.Assert("mode-cut-all-before", sym.And(bok == ok, sym.Implies(ok, bv == v)), d, at0)
			}
			sym.Assert("mode-cut-before-start", proto.Equal(b.StartTime, m.StartTime))
			sym.Assert("mode-cut-before-rest", b.Id == m.Id && b.Title == m.Title && b.Voltage == m.Voltage)
		}
		if a != nil {
			off := d // of the start of after
			if b == nil {
				off = 0
				sym.Assert("mode-cut-after-start", proto.Equal(a.StartTime, m.StartTime))
			} else {
				sym.Assert("mode-cut-after-start-time", a.StartTime.AsTime().Equal(t), a.StartTime)
			}
			av, aok := at(a.Segments, at0-off)
			sym.Assert("mode-cut-after", sym.Implies(at0 >= off, sym.And(aok == ok, sym.Implies(ok, av == v))), d, at0)
			sym.Assert("mode-cut-after-rest", a.Id == m.Id && a.Title == m.Title && a.Voltage == m.Voltage)
		}
	default:
		s := modepb.Shift(time.Duration(d), m)
		if d == 0 {
			hx.Same("mode-shift-0", s, keep)
			break
		}
		if started {
			sym.Assert("mode-shift-start", s.StartTime.AsTime().Equal(t), s.StartTime)
			want := proto.Clone(keep).(*traits.ElectricMode)
			want.StartTime = s.StartTime
			hx.Same("mode-shift-rest", s, want)
		}
	}
	hx.Same("mode-kept", m, keep)
}

// CheckModeShift: without a start time the segments are shifted.
//
// gosym: time=60s
func CheckModeShift() {
	first := true
	m, l := newMode("m", 2, func(name string) float32 {
		if first {
			first = false
			return anyMag(name)
		}
		return float32(sym.Choice(name, 2))
	})
	keep := proto.Clone(m).(*traits.ElectricMode)
	d := int64(sym.Int("d", -(1 << 22), 1<<22))
	got := modepb.Shift(time.Duration(d), m)
	sym.Assert("modeshift-no-start", got.StartTime == nil)
	t := int64(sym.Int("t", 0, 1<<24))
	v, ok := at(l.segs, t-d)
	gv, gok := at(got.Segments, t)
	sym.Assert("modeshift", sym.IfFloat32(ok, v, 0) == sym.IfFloat32(gok, gv, 0), d, t)
	sym.Assert("modeshift-rest", got.Id == m.Id && got.Title == m.Title)
	hx.Same("modeshift-kept", m, keep)
}

// CheckModeSum: modes are added as functions of time; those without a start time start with the last one that has one.
//
// gosym: time=100s thorough.time=800s
func CheckModeSum() {
	n := 1 + sym.Choice("modes", 2)
	if sym.Thorough() {
		n = 1 + sym.Choice("modes", 3)
	}
	var ms, keeps []*traits.ElectricMode
	var ls []list
	var starts []*timestamppb.Timestamp
	mag := float32(1)
	era := []int64{1000, minSeconds}[sym.Choice("era", 2)]
	for i := 0; i < n; i++ {
		max := 2
		if n > 2 {
			max = 1
		}
		m, l := newMode("m", max, func(name string) float32 {
			mag *= 2 // so that sums tell which segments are in them
			return mag
		})
		if sym.Flip("started") {
			o := sym.Int("start", 0, 1<<20)
			m.StartTime = &timestamppb.Timestamp{Seconds: era, Nanos: int32(o)}
			if i == 0 && sym.Flip("second") {
				m.StartTime.Seconds++
			}
		}
		ms, ls, starts = append(ms, m), append(ls, l), append(starts, m.StartTime)
		keeps = append(keeps, proto.Clone(m).(*traits.ElectricMode))
	}
	var earliest, latest int64
	any := false
	for _, s := range starts {
		if s == nil {
			continue
		}
		o := (s.Seconds-era)*1e9 + int64(s.Nanos)
		if !any {
			earliest, latest, any = o, o, true
			continue
		}
		earliest = sym.IfInt(o < earliest, o, earliest)
		latest = sym.IfInt(o > latest, o, latest)
	}
	got := modepb.Sum(ms...)
	if any {
		sym.Assert("modesum-start", got.StartTime != nil && (got.StartTime.Seconds-era)*1e9+int64(got.StartTime.Nanos) == earliest, got.StartTime, earliest)
	} else {
		sym.Assert("modesum-no-start", got.StartTime == nil)
	}
	t := int64(sym.Int("t", 0, 1<<31)) // since earliest
	var want float32
	for i, l := range ls {
		off := latest
		if starts[i] != nil {
			off = (starts[i].Seconds-era)*1e9 + int64(starts[i].Nanos)
		}
		v, ok := at(l.segs, t-(off-earliest))
		want += sym.IfFloat32(ok, v, 0)
	}
	gv, gok := at(got.Segments, t)
	sym.Assert("modesum", sym.IfFloat32(gok, gv, 0) == want, t, gv, want)
	sym.Assert("modesum-no-metadata", got.Id == "" && got.Title == "" && got.Voltage == 0)
	for i, m := range ms {
		hx.Same("modesum-kept", m, keeps[i])
	}
}

// CheckMinAt: the least magnitude of some modes at a time; modes that are not running then have none.
//
// gosym: time=60s
func CheckMinAt() {
	modes := map[string]*traits.ElectricMode{}
	n := sym.Choice("modes", 4)
	type val struct {
		v  float32
		ok bool
	}
	d := int64(sym.Int("d", -400, 1<<22))
	base := time.Unix(1000, 500)
	vals := map[string]val{}
	for i := 0; i < n; i++ {
		m, l := newMode("m", 1, anyMag)
		m.Id = string(rune('a' + i))
		at0 := d
		if sym.Flip("started") {
			m.StartTime = &timestamppb.Timestamp{Seconds: 1000, Nanos: 500}
		} else {
			at0 = 0
		}
		modes[m.Id] = m
		v, ok := at(l.segs, at0)
		vals[m.Id] = val{sym.IfFloat32(ok, v, 0), ok}
	}
	got, min := modepb.MinAt(base.Add(time.Duration(d)), modes)
	if n == 0 {
		sym.Assert("min-none", got == nil)
		return
	}
	sym.Assert("min-one", got != nil && modes[got.Id] == got)
	sym.Assert("min-magnitude", vals[got.Id].v == min, min)
	for id, v := range vals {
		sym.Assert("min", min <= v.v, id)
	}
}
