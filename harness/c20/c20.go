// Package c20: trait models keep derived state consistent with their rules.
package c20

import (
	"context"
	"math"
	"sort"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"

	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb/unitpb"
)

// safely runs f, which must not panic.
func safely(label string, f func()) bool {
	if e := hx.Catch(f); e != nil {
		sym.Fail("panics "+label, e)
		return false
	}
	return true
}

var names = []string{"a", "b", "c", "d"}

func traitsOf(c *traits.Child) (out []string) {
	for _, t := range c.GetTraits() {
		out = append(out, t.Name)
	}
	return out
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// CheckParent adds and removes traits of children.
// gosym: time=60s thorough.time=200s
func CheckParent() {
	m := parentpb.NewModel(resource.WithClock(&hx.Clock{Hold: true}))
	sets := map[string]map[string]bool{}
	words := 3
	steps := 2
	if sym.Thorough() {
		words, steps = 4, 3
	}
	// any set to begin with
	if sym.Flip("has-child") {
		first := map[string]bool{}
		var ts []*traits.Trait
		for _, n := range names[:words] {
			if sym.Flip("has-" + n) {
				first[n] = true
				ts = append(ts, &traits.Trait{Name: n})
			}
		}
		m.AddChild(&traits.Child{Name: "x", Traits: ts})
		sets["x"] = first
	}
	check := func(res *traits.Child, name string) {
		var want []string
		for n := range sets[name] {
			want = append(want, n)
		}
		sort.Strings(want)
		sym.Assert("trait-response", res.GetName() == name && equal(traitsOf(res), want), traitsOf(res), want)
		found := false
		for _, c := range m.ListChildren() {
			if c.Name == name {
				found = true
				sym.Assert("traits", equal(traitsOf(c), want), traitsOf(c), want)
			}
		}
		sym.Assert("child-listed", found == (sets[name] != nil), found)
		sym.Assert("children", len(m.ListChildren()) == len(sets), len(m.ListChildren()), len(sets))
	}
	for i := 0; i < steps; i++ {
		id := string(rune('1' + i))
		child := []string{"x", "y"}[sym.Choice(id+"child", 2)]
		n := sym.Choice(id+"n", 4)
		if i > 0 {
			sym.Assume(n < 2 || sym.Thorough())
		}
		var ts []trait.Name
		for j := 0; j < n; j++ {
			ts = append(ts, trait.Name(names[sym.Choice(id+string(rune('a'+j)), words)]))
		}
		if sym.Flip(id + "add") {
			known := sets[child] != nil
			if !known {
				sets[child] = map[string]bool{}
			}
			for _, t := range ts {
				sets[child][string(t)] = true
			}
			var res *traits.Child
			var created bool
			if !safely("AddChildTrait", func() { res, created = m.AddChildTrait(child, ts...) }) {
				return
			}
			sym.Assert("created", created == !known, created, known)
			check(res, child)
			sym.Cover("added")
		} else {
			var res *traits.Child
			if !safely("RemoveChildTrait", func() { res = m.RemoveChildTrait(child, ts...) }) {
				return
			}
			if sets[child] == nil {
				sym.Assert("remove-unknown", res == nil, res)
				continue
			}
			for _, t := range ts {
				delete(sets[child], string(t))
			}
			check(res, child)
			sym.Cover("removed")
		}
	}
}

const units = 6 // NO_UNIT and the convertible ones, see unit

var unitOf = []traits.Consumable_Unit{traits.Consumable_NO_UNIT, traits.Consumable_METER, traits.Consumable_LITER, traits.Consumable_CUBIC_METER, traits.Consumable_CUP, traits.Consumable_KILOGRAM}

// perLiter etc. are the definitions of the units: category and size.
var unitDef = map[traits.Consumable_Unit]struct {
	category int
	size     float64
}{
	traits.Consumable_METER:       {1, 1},
	traits.Consumable_LITER:       {2, 1},
	traits.Consumable_CUBIC_METER: {2, 1000},
	traits.Consumable_CUP:         {2, 0.2365882365},
	traits.Consumable_KILOGRAM:    {3, 1},
}

func convertible(a, b traits.Consumable_Unit) bool {
	x, okX := unitDef[a]
	y, okY := unitDef[b]
	return a == b || okX && okY && x.category == y.category
}

// near is relative closeness.
func near(a, b, eps float64) bool {
	d := math.Abs(a - b)
	return d <= eps*math.Max(math.Abs(a), math.Abs(b))
}

// CheckUnitErrors converts between all pairs of units, and numbers that aren't units.
// gosym: time=30s
func CheckUnitErrors() {
	from, to := traits.Consumable_Unit(sym.Int("from", -1, 9)), traits.Consumable_Unit(sym.Int("to", -1, 9))
	v := []float64{0, 1, 2.5, -3, 1e9, 1e-6}[sym.Choice("v", 6)]
	got, err := unitpb.Convert(v, from, to)
	sym.Assert("convertible", (err == nil) == convertible(from, to), from, to, err)
	got32, err32 := unitpb.Convert32(float32(v), from, to)
	sym.Assert("convertible32", (err32 == nil) == convertible(from, to), from, to, err32)
	if err != nil || err32 != nil {
		sym.Cover("not convertible")
		return
	}
	want := v
	if from != to {
		want = v * unitDef[from].size / unitDef[to].size
	}
	sym.Assert("converted", near(got, want, 1e-12), from, to, got, want)
	sym.Assert("converted32", near(float64(got32), want, 1e-6), from, to, got32, want)
	back, err := unitpb.Convert(got, to, from)
	sym.Assert("round-trip", err == nil && near(back, v, 1e-12), from, to, back, v)
	sym.Cover("converted")
}

// CheckUnitRoundTrip converts any number of a wide range there and back.
// gosym: time=60s qtime=20s thorough.time=400s
func CheckUnitRoundTrip() {
	volumes := []traits.Consumable_Unit{traits.Consumable_LITER, traits.Consumable_CUBIC_METER, traits.Consumable_CUP}
	from, to := volumes[sym.Choice("from", 3)], volumes[sym.Choice("to", 3)]
	v := float64(sym.Int("v", -127, 127))
	x, err := unitpb.Convert(v, from, to)
	if err != nil {
		sym.Fail("not-converted", from, to, err)
		return
	}
	y, err := unitpb.Convert(x, to, from)
	if err != nil {
		sym.Fail("not-converted", to, from, err)
		return
	}
	d := y - v
	sym.Assert("round-trip", sym.And(d < 1e-3, d > -1e-3), from, to)
}

func quantity(id string, n int) *traits.Consumable_Quantity {
	u := unitOf[sym.Choice(id+"unit", n)]
	return &traits.Consumable_Quantity{Unit: u, Amount: []float32{0, 1, 2.5, 1000}[sym.Choice(id+"amount", 4)]}
}

// amounts tells that got is base plus delta of one unit converted to another.
func sum(base *traits.Consumable_Quantity, delta *traits.Consumable_Quantity, sign float64) float64 {
	d := float64(delta.GetAmount())
	if delta.GetUnit() != base.GetUnit() {
		d = d * unitDef[delta.GetUnit()].size / unitDef[base.GetUnit()].size
	}
	return float64(base.GetAmount()) + sign*d
}

// CheckDispense dispenses any quantity from any stock.
// gosym: time=60s thorough.time=200s
func CheckDispense() {
	n := 4
	if sym.Thorough() {
		n = units
	}
	stock := &traits.Consumable_Stock{Consumable: "c"}
	if sym.Flip("has-used") {
		stock.Used = quantity("used", n)
	}
	if sym.Flip("has-remaining") {
		stock.Remaining = quantity("remaining", n)
	}
	if sym.Flip("dispensed") {
		stock.LastDispensed = &traits.Consumable_Quantity{Amount: 3, Unit: traits.Consumable_METER}
		stock.Dispensing = true
	}
	var q *traits.Consumable_Quantity
	if !sym.Flip("no-quantity") {
		q = quantity("quantity", n)
	}
	m := vendingpb.NewModel(resource.WithClock(&hx.Clock{Hold: true}), vendingpb.WithInitialStock(proto.Clone(stock).(*traits.Consumable_Stock)))
	before, ok := m.GetStock("c")
	sym.Assert("initial-stock", ok && proto.Equal(before, stock), before, stock)
	before = proto.Clone(before).(*traits.Consumable_Stock)
	consumable := "c"
	if sym.Flip("unknown") {
		consumable = "d"
	}
	var res *traits.Consumable_Stock
	var err error
	var given *traits.Consumable_Quantity
	if q != nil {
		given = proto.Clone(q).(*traits.Consumable_Quantity)
	}
	if !safely("dispense", func() {
		if sym.Flip("server") {
			res, err = vendingpb.NewModelServer(m).Dispense(context.Background(), &traits.DispenseRequest{Name: "n", Consumable: consumable, Quantity: given})
		} else {
			res, err = m.DispenseInstantly(consumable, given)
		}
	}) {
		return
	}
	after, _ := m.GetStock("c")
	if consumable == "d" {
		sym.Assert("unknown-consumable", hx.Code(err) == codes.NotFound, err)
		sym.Assert("unknown-unchanged", proto.Equal(before, after) && len(m.ListInventory()) == 1, after)
		return
	}
	bad := stock.Used != nil && !convertible(q.GetUnit(), stock.Used.Unit) || stock.Remaining != nil && !convertible(q.GetUnit(), stock.Remaining.Unit)
	if bad {
		sym.Assert("conversion-error", err != nil, "stock", stock, "quantity", q)
		sym.Assert("not-dispensed", proto.Equal(before, after), before, after)
		sym.Cover("not convertible")
		return
	}
	if q == nil {
		sym.Assert("refused-unchanged", err == nil || proto.Equal(before, after), before, after)
		return
	}
	sym.Assert("dispensed", err == nil, err)
	if err != nil {
		return
	}
	sym.Assert("dispense-response", proto.Equal(res, after), res, after)
	sym.Assert("tracked", (after.Used != nil) == (stock.Used != nil) && (after.Remaining != nil) == (stock.Remaining != nil), after)
	if stock.Used != nil && after.Used != nil {
		sym.Assert("used-unit", after.Used.Unit == stock.Used.Unit, after.Used, stock.Used)
		sym.Assert("used", near(float64(after.Used.Amount), sum(stock.Used, q, 1), 1e-5), after.Used, stock.Used, q)
	}
	if stock.Remaining != nil && after.Remaining != nil {
		sym.Assert("remaining-unit", after.Remaining.Unit == stock.Remaining.Unit, after.Remaining, stock.Remaining)
		want := sum(stock.Remaining, q, -1)
		if want < 0 {
			want = 0
		}
		d := math.Abs(float64(after.Remaining.Amount) - want)
		sym.Assert("remaining", after.Remaining.Amount >= 0 && d <= 1e-5*(float64(stock.Remaining.Amount)+float64(q.Amount)), after.Remaining, stock.Remaining, q)
	}
	sym.Assert("last-dispensed", proto.Equal(after.LastDispensed, q) && !after.Dispensing, after)
	sym.Assert("consumable", after.Consumable == "c", after)
	sym.Cover("dispensed")
}

// CheckDispenseAmounts dispenses any amount in the unit of the stock.
// gosym: time=60s qtime=20s
func CheckDispenseAmounts() {
	u := unitOf[sym.Choice("unit", 3)]
	used, remaining, q := sym.Int("used", 0, 127), sym.Int("remaining", 0, 127), sym.Int("q", 0, 127)
	m := vendingpb.NewModel(vendingpb.WithInitialStock(&traits.Consumable_Stock{Consumable: "c",
		Used:      &traits.Consumable_Quantity{Unit: u, Amount: float32(used)},
		Remaining: &traits.Consumable_Quantity{Unit: u, Amount: float32(remaining)}}))
	res, err := m.DispenseInstantly("c", &traits.Consumable_Quantity{Unit: u, Amount: float32(q)})
	if err != nil {
		sym.Fail("dispensed", err)
		return
	}
	left := sym.IfInt(remaining > q, int64(remaining-q), 0)
	sym.Assert("used", res.Used.Amount == float32(used+q))
	sym.Assert("remaining", res.Remaining.Amount == float32(left))
}

// CheckStockOptions configures initial stock and consumables.
// gosym: time=20s
func CheckStockOptions() {
	var opts []resource.Option
	stock, consumables := map[string]bool{}, map[string]bool{}
	for _, n := range names[:2] {
		if sym.Flip("stock-" + n) {
			stock[n] = true
			opts = append(opts, vendingpb.WithInitialStock(&traits.Consumable_Stock{Consumable: n}))
		}
		if sym.Flip("consumable-" + n) {
			consumables[n] = true
			opts = append(opts, vendingpb.WithInitialConsumable(&traits.Consumable{Name: n, DisplayName: "the " + n}))
		}
	}
	if sym.Flip("clock") {
		opts = append(opts, resource.WithClock(&hx.Clock{Hold: true}))
	}
	var m *vendingpb.Model
	if !safely("NewModel", func() { m = vendingpb.NewModel(opts...) }) {
		return
	}
	sym.Assert("inventory", len(m.ListInventory()) == len(stock), len(m.ListInventory()))
	safely("list", func() {
		sym.Assert("consumables", len(m.ListConsumables()) == len(consumables), len(m.ListConsumables()))
		for _, n := range names[:2] {
			s, ok := m.GetStock(n)
			sym.Assert("stock", ok == stock[n] && s.GetConsumable() == map[bool]string{true: n}[ok], n)
			c, ok := m.GetConsumable(n)
			sym.Assert("consumable", ok == consumables[n] && c.GetName() == map[bool]string{true: n}[ok], n)
		}
	})
}

var presetLists = [][]fanspeedpb.Preset{
	nil, // defaults
	{{Name: "p", Percentage: 10}},
	{{Name: "p", Percentage: 10}, {Name: "q", Percentage: 40}},
	{{Name: "p", Percentage: 0}, {Name: "q", Percentage: 40}, {Name: "r", Percentage: 40}},
	{},
}

// CheckFanSpeed updates the fan speed in any way.
// gosym: time=60s thorough.time=300s
func CheckFanSpeed() {
	k := sym.Choice("presets", len(presetLists))
	presets := presetLists[k]
	opts := []resource.Option{resource.WithClock(&hx.Clock{Hold: true})}
	if k > 0 {
		opts = append(opts, fanspeedpb.WithPresets(presets...))
	} else {
		presets = fanspeedpb.DefaultPresets
		sym.Assert("default-presets", len(presets) > 0)
	}
	m := fanspeedpb.NewModel(opts...)
	s := fanspeedpb.NewModelServer(m)

	consistent := func(v *traits.FanSpeed) {
		if v.Preset == "" {
			sym.Assert("no-preset-index", v.PresetIndex == -1, v)
			for _, p := range presets {
				sym.Assert("preset-for-percentage", p.Percentage != v.Percentage, v, p.Name)
			}
			return
		}
		if v.PresetIndex < 0 || int(v.PresetIndex) >= len(presets) {
			sym.Fail("preset-index", v)
			return
		}
		p := presets[v.PresetIndex]
		sym.Assert("preset-of-index", p.Name == v.Preset, v, p.Name)
		sym.Assert("percentage-of-preset", p.Percentage == v.Percentage, v, p.Percentage)
	}
	values := func(id string) *traits.FanSpeed {
		v := &traits.FanSpeed{}
		switch c := sym.Choice(id+"preset", 2+len(presets)); {
		case c == 1:
			v.Preset = "unknown"
		case c > 1:
			v.Preset = presets[c-2].Name
		}
		v.PresetIndex = []int32{0, 1, 2, -1, 100, -100}[sym.Choice(id+"index", 6)]
		v.Percentage = []float32{0, 10, 33, 40, -10}[sym.Choice(id+"percentage", 5)]
		if sym.Flip(id + "direction") {
			v.Direction = traits.FanSpeed_BACKWARD
		}
		return v
	}
	known := func(v *traits.FanSpeed) bool {
		if v.Preset == "" {
			return true
		}
		for _, p := range presets {
			if p.Name == v.Preset {
				return true
			}
		}
		return false
	}

	// any consistent state first
	switch c := sym.Choice("first", len(presets)+2); {
	case c < len(presets):
		res, err := s.UpdateFanSpeed(context.Background(), &traits.UpdateFanSpeedRequest{FanSpeed: &traits.FanSpeed{Preset: presets[c].Name, Direction: traits.FanSpeed_FORWARD}})
		sym.Assert("set-preset", err == nil && res.GetPreset() == presets[c].Name, res, err)
		consistent(res)
	default:
		p := []float32{33, 40}[c-len(presets)]
		res, err := s.UpdateFanSpeed(context.Background(), &traits.UpdateFanSpeedRequest{FanSpeed: &traits.FanSpeed{Percentage: p, Direction: traits.FanSpeed_FORWARD}})
		sym.Assert("set-percentage", err == nil && res.GetPercentage() == p, res, err)
		consistent(res)
	}
	before := proto.Clone(m.FanSpeed()).(*traits.FanSpeed)

	v := values("")
	sent := proto.Clone(v).(*traits.FanSpeed)
	var res *traits.FanSpeed
	var err error
	kind := sym.Choice("kind", 4)
	var mask *fieldmaskpb.FieldMask
	if !safely("update fan speed", func() {
		switch kind {
		case 0:
			res, err = s.UpdateFanSpeed(context.Background(), &traits.UpdateFanSpeedRequest{FanSpeed: v})
		case 1:
			res, err = s.UpdateFanSpeed(context.Background(), &traits.UpdateFanSpeedRequest{FanSpeed: v, Relative: true})
		case 2:
			mask = hx.Mask([]string{"preset", "preset_index", "percentage", "direction"}[sym.Choice("path", 4)])
			res, err = m.UpdateFanSpeed(v, resource.WithUpdateMask(mask))
		case 3:
			sym.Assume(v.Preset == "" && v.PresetIndex == 0 && v.Percentage == 0)
			res, err = s.ReverseFanSpeedDirection(context.Background(), &traits.ReverseFanSpeedDirectionRequest{})
		}
	}) {
		return
	}
	after := m.FanSpeed()
	if kind != 3 {
		sym.Assert("preset-known", (err == nil) == known(sent), err, sent)
	}
	if err != nil {
		sym.Assert("refused-unchanged", proto.Equal(before, after), before, after)
		return
	}
	sym.Assert("response", proto.Equal(res, after), res, after)
	consistent(after)
	switch kind {
	case 0:
		switch {
		case sent.Preset != "" && (sent.Preset != before.Preset || sent.PresetIndex == 0 && sent.Percentage == 0):
			sym.Assert("preset-set", after.Preset == sent.Preset, after, sent)
		case sent.Preset == "" && sent.PresetIndex == 0:
			sym.Assert("percentage-set", after.Percentage == sent.Percentage, after, sent)
		case sent.Preset == "" && sent.Percentage == 0 && int(sent.PresetIndex) < len(presets) && sent.PresetIndex > 0:
			sym.Assert("index-set", after.PresetIndex == sent.PresetIndex, after, sent)
		}
		sym.Assert("direction-set", after.Direction == sent.Direction, after, sent)
	case 3:
		sym.Assert("reversed", after.Direction == traits.FanSpeed_BACKWARD, after)
		sym.Assert("others-unchanged", after.Preset == before.Preset && after.PresetIndex == before.PresetIndex && after.Percentage == before.Percentage, before, after)
	case 1:
		if sent.Preset != "" && (sent.Preset != before.Preset || sent.PresetIndex == 0 && sent.Percentage == 0) {
			sym.Assert("relative-preset-set", after.Preset == sent.Preset, before, sent, after)
		}
		if sent.Direction == 0 {
			sym.Assert("relative-direction-kept", after.Direction == before.Direction, before, after)
		}
		if sent.Preset == "" && sent.Percentage == 0 && before.Preset != "" && len(presets) > 0 {
			want := before.PresetIndex + sent.PresetIndex
			if want < 0 {
				want = 0
			}
			if want >= int32(len(presets)) {
				want = int32(len(presets)) - 1
			}
			if sent.PresetIndex != 0 {
				sym.Assert("relative-index", after.PresetIndex == want, before, sent, after)
			}
		}
		if sent.Preset == "" && sent.PresetIndex == 0 {
			sym.Assert("relative-percentage", after.Percentage == before.Percentage+sent.Percentage, before, sent, after)
		}
	case 2:
		switch mask.Paths[0] {
		case "preset":
			if sent.Preset != "" {
				sym.Assert("preset-set", after.Preset == sent.Preset, after, sent)
			}
		case "percentage":
			sym.Assert("percentage-set", after.Percentage == sent.Percentage, after, sent)
		case "preset_index":
			if sent.PresetIndex >= 0 && int(sent.PresetIndex) < len(presets) {
				sym.Assert("index-set", after.PresetIndex == sent.PresetIndex, after, sent)
			}
		case "direction":
			sym.Assert("others-unchanged", after.Preset == before.Preset && after.PresetIndex == before.PresetIndex && after.Percentage == before.Percentage, before, after)
		}
	}
	sym.Cover("updated")
}

// CheckModes makes relative and absolute changes of modes.
// gosym: time=60s thorough.time=200s
func CheckModes() {
	configured := sym.Choice("modes", 3)
	modes := modepb.DefaultModes
	var m *modepb.Model
	switch configured {
	case 0:
		m = modepb.NewModel()
	case 1:
		modes = &traits.Modes{Modes: []*traits.Modes_Mode{{Name: "m", Values: []*traits.Modes_Value{{Name: "x"}}}, {Name: "n", Values: []*traits.Modes_Value{{Name: "x"}, {Name: "y"}}}}}
		m = modepb.NewModelModes(modes)
	case 2:
		modes = &traits.Modes{Modes: []*traits.Modes_Mode{{Name: "temperature", Values: []*traits.Modes_Value{{Name: "p"}, {Name: "q"}, {Name: "r"}, {Name: "s"}}}}}
		m = modepb.NewModelModes(modes)
	}
	s := modepb.NewModelServer(m)
	sym.Assert("modes-used", proto.Equal(m.Modes(), modes), m.Modes(), modes)
	want := map[string]string{}
	for _, mode := range modes.Modes {
		want[mode.Name] = mode.Values[0].Name
		sym.Assert("available", len(m.AvailableValues(mode.Name)) == len(mode.Values), mode.Name)
	}
	check := func(label string, got *traits.ModeValues) {
		ok := len(got.GetValues()) == len(want)
		for k, v := range want {
			ok = ok && got.GetValues()[k] == v
		}
		sym.Assert(label, ok, got, want)
	}
	check("initial-values", m.ModeValues())

	mode := modes.Modes[sym.Choice("mode", len(modes.Modes))]
	n := len(mode.Values)
	at := sym.Choice("at", n)
	all := map[string]string{}
	for k, v := range want {
		all[k] = v
	}
	all[mode.Name] = mode.Values[at].Name
	want[mode.Name] = mode.Values[at].Name
	res, err := s.UpdateModeValues(context.Background(), &traits.UpdateModeValuesRequest{ModeValues: &traits.ModeValues{Values: all}})
	sym.Assert("set", err == nil, err)
	check("set-values", res)

	// a relative step of any size wraps around
	step := sym.Int32("step")
	k := sym.Choice("residue", n) // of at+step
	d := (int64(at) + int64(step)) % int64(n)
	sym.Assume(sym.Or(d == int64(k), d == int64(k-n)))
	req := &traits.UpdateModeValuesRequest{Relative: &traits.ModeValuesRelative{Values: map[string]int32{mode.Name: step}}}
	switch sym.Choice("with", 3) {
	case 1: // a mode that's unknown, no effect
		req.Relative.Values["unknown"] = 1
	case 2: // an absolute value, relative changes win unless zero
		sym.Assume(step != 0)
		req.ModeValues = &traits.ModeValues{Values: map[string]string{mode.Name: mode.Values[0].Name}}
		want = map[string]string{}
	}
	if !safely("relative step", func() { res, err = s.UpdateModeValues(context.Background(), req) }) {
		return
	}
	sym.Assert("relative", err == nil, err)
	want[mode.Name] = mode.Values[k].Name
	check("relative-step", res)
	check("relative-get", m.ModeValues())
}

// CheckModeZero gives an absolute value and a relative change of zero.
// gosym: time=10s
func CheckModeZero() {
	s := modepb.NewModelServer(modepb.NewModel())
	v := modepb.DefaultModes.Modes[0].Values[sym.Choice("value", 3)].Name
	step := int32(sym.Int("step", -1, 1))
	res, err := s.UpdateModeValues(context.Background(), &traits.UpdateModeValuesRequest{
		ModeValues: &traits.ModeValues{Values: map[string]string{"temperature": v, "spin": "slow"}},
		Relative:   &traits.ModeValuesRelative{Values: map[string]int32{"temperature": step}},
	})
	want := map[int32]string{-1: "whites", 0: v, 1: "medium"}[step]
	sym.Assert("zero-step", err == nil && res.Values["temperature"] == want && res.Values["spin"] == "slow", res, want)
}

// CheckModeUnknown steps a mode whose current value is none of its values,
// or which has no value: the first of its values is chosen.
// gosym: time=10s
func CheckModeUnknown() {
	modes := &traits.Modes{Modes: []*traits.Modes_Mode{
		{Name: "m", Values: []*traits.Modes_Value{{Name: "x"}, {Name: "y"}, {Name: "z"}}},
		{Name: "n", Values: []*traits.Modes_Value{{Name: "p"}, {Name: "q"}}},
	}}
	m := modepb.NewModelModes(modes)
	s := modepb.NewModelServer(m)
	cur := map[string]string{"n": "q"}
	switch sym.Choice("current", 4) {
	case 0: // none
	case 1:
		cur["m"] = "bogus"
	case 2:
		cur["m"] = ""
	case 3: // another mode's
		cur["m"] = "p"
	}
	set := &traits.ModeValues{Values: map[string]string{}}
	for k, v := range cur {
		set.Values[k] = v
	}
	_, err := m.UpdateModeValues(set)
	sym.Assert("set", err == nil, err)
	got := m.ModeValues()
	sym.Assert("stored", proto.Equal(got, &traits.ModeValues{Values: cur}), got, cur)

	step := sym.Int32("step")
	req := &traits.UpdateModeValuesRequest{Relative: &traits.ModeValuesRelative{Values: map[string]int32{"m": step}}}
	if sym.Flip("absolute") {
		req.ModeValues = &traits.ModeValues{Values: map[string]string{"n": "p"}}
		cur["n"] = "p"
	}
	var res *traits.ModeValues
	if !safely("unknown step", func() { res, err = s.UpdateModeValues(context.Background(), req) }) {
		return
	}
	cur["m"] = "x"
	got = m.ModeValues()
	sym.Assert("unknown-step", err == nil && res.GetValues()["m"] == "x", res, err)
	sym.Assert("unknown-get", got.GetValues()["m"] == "x" && got.GetValues()["n"] == cur["n"], got, cur)
}

func totals(e *traits.EnterLeaveEvent) (int32, int32) { return e.GetEnterTotal(), e.GetLeaveTotal() }

// CheckEnterLeave counts any events.
// gosym: time=60s
func CheckEnterLeave() {
	var opts []resource.Option
	opts = append(opts, resource.WithClock(&hx.Clock{Hold: true}))
	var enter, leave int32
	if sym.Flip("initial") {
		enter, leave = int32(sym.Int("enter", 0, 1000000)), int32(sym.Int("leave", 0, 1000000))
		e, l := enter, leave
		opts = append(opts, resource.WithInitialValue(&traits.EnterLeaveEvent{EnterTotal: &e, LeaveTotal: &l}))
	}
	m := enterleavesensorpb.NewModel(opts...)
	first, err := m.GetEnterLeaveEvent()
	sym.Assert("initial", err == nil)
	a, b := totals(first)
	sym.Assert("initial-totals", sym.And(a == enter, b == leave), a, b)
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		id := string(rune('1' + i))
		event := &traits.EnterLeaveEvent{Direction: traits.EnterLeaveEvent_Direction(sym.Choice(id+"direction", 3))}
		if sym.Flip(id + "occupant") {
			event.Occupant = &traits.EnterLeaveEvent_Occupant{Name: "o"}
		}
		total := func(name string, cur int32, inc bool) (*int32, int32) {
			next := cur
			if inc {
				next++
			}
			switch sym.Choice(id+name, 3) {
			case 1: // the current total, which is still counted
				v := cur
				return &v, next
			case 2: // another total is used
				v := int32(sym.Int(id+name+"total", 0, 1000000))
				sym.Assume(v != cur)
				w := v
				return &v, w
			}
			return nil, next
		}
		switch sym.Choice(id+"op", 2) {
		case 0:
			event.EnterTotal, enter = total("enter", enter, event.Direction == traits.EnterLeaveEvent_ENTER)
			event.LeaveTotal, leave = total("leave", leave, event.Direction == traits.EnterLeaveEvent_LEAVE)
			sym.Assert("create", m.CreateEnterLeaveEvent(event) == nil)
		case 1:
			sym.Assert("reset", m.ResetTotals() == nil)
			enter, leave = 0, 0
		}
		got, err := m.GetEnterLeaveEvent()
		sym.Assert("get", err == nil)
		a, b := totals(got)
		sym.Assert("enter-total", a == enter, a, enter)
		sym.Assert("leave-total", b == leave, b, leave)
	}
}

// CheckMeter records readings and resets.
// gosym: time=60s
func CheckMeter() {
	clk := &hx.Clock{Hold: true, N: int64(sym.Int("now", 0, 1000000))}
	opts := []resource.Option{resource.WithClock(clk)}
	var usage float32
	start, end := timestamppb.New(clk.Peek()), timestamppb.New(clk.Peek())
	if sym.Flip("initial") {
		usage = []float32{5, 0}[sym.Choice("usage", 2)]
		r := &traits.MeterReading{Usage: usage}
		if sym.Flip("start") {
			start = &timestamppb.Timestamp{Seconds: 7}
			r.StartTime = &timestamppb.Timestamp{Seconds: 7}
		}
		if sym.Flip("end") {
			end = &timestamppb.Timestamp{Seconds: 9}
			r.EndTime = &timestamppb.Timestamp{Seconds: 9}
		}
		opts = append(opts, resource.WithInitialValue(r))
	}
	m := meterpb.NewModel(opts...)
	check := func(label string, res *traits.MeterReading) {
		got, err := m.GetMeterReading()
		sym.Assert(label+" get", err == nil && (res == nil || proto.Equal(res, got)), res, got)
		sym.Assert(label+" usage", got.Usage == usage, got.Usage, usage)
		sym.Assert(label+" start", sym.SameMessage(got.StartTime, start) || proto.Equal(got.StartTime, start), got, start)
		sym.Assert(label+" end", proto.Equal(got.EndTime, end), got, end)
	}
	check("initial", nil)
	for _, id := range []string{"1", "2", "3"} {
		clk.N += int64(sym.Int(id+"elapsed", 0, 1000))
		now := timestamppb.New(clk.Peek())
		switch sym.Choice(id+"op", 3) {
		case 0:
			usage = []float32{0, 1, 2.5, 7}[sym.Choice(id+"usage", 4)]
			end = now
			res, err := m.RecordReading(usage)
			sym.Assert("record", err == nil, err)
			check("record", res)
		case 1:
			usage, start, end = 0, now, now
			res, err := m.Reset()
			sym.Assert("reset", err == nil, err)
			check("reset", res)
		case 2:
			usage = 3
			res, err := m.UpdateMeterReading(&traits.MeterReading{Usage: usage}, resource.WithUpdatePaths("usage"))
			sym.Assert("update", err == nil, err)
			check("update", res)
		}
	}
}

// content is what a version stands for.
func content(p *traits.Publication) string {
	return p.GetId() + "|" + string(p.GetBody()) + "|" + p.GetMediaType() + "|" + p.GetAudience().GetName()
}

// CheckPublication creates, updates and acknowledges a publication.
// gosym: time=60s thorough.time=300s
func CheckPublication() {
	clk := &hx.Clock{Hold: true, N: int64(sym.Int("now", 0, 1000000))}
	m := publicationpb.NewModel(resource.WithClock(clk), resource.WithRNG(&hx.Rng{Base: 'a'}))
	s := publicationpb.NewModelServer(m)
	ctx := context.Background()
	versions := map[string]string{} // by content
	mint := func(p *traits.Publication) {
		sym.Assert("version", p.Version != "", p)
		c := content(p)
		if v, ok := versions[c]; ok {
			sym.Assert("same-version", v == p.Version, c)
		}
		for o, v := range versions {
			if o != c {
				sym.Assert("other-version", v != p.Version, o, c)
			}
		}
		versions[c] = p.Version
	}
	unacknowledged := func(p *traits.Publication) {
		a := p.Audience
		if a != nil {
			sym.Assert("not-received", a.Receipt == traits.Publication_Audience_NO_SIGNAL && a.ReceiptTime == nil && a.ReceiptRejectedReason == "", p)
		}
	}
	p := &traits.Publication{MediaType: "text"}
	if sym.Flip("body") {
		p.Body = []byte("body")
	}
	if sym.Flip("id") {
		p.Id = "p"
	}
	if sym.Flip("audience") {
		p.Audience = &traits.Publication_Audience{Name: "aud", Receipt: traits.Publication_Audience_Receipt(sym.Choice("receipt", 4)), ReceiptRejectedReason: "no"}
	}
	cur, err := s.CreatePublication(ctx, &traits.CreatePublicationRequest{Publication: p})
	if err != nil {
		sym.Fail("create", err)
		return
	}
	sym.Assert("created-id", cur.Id != "")
	sym.Assert("publish-time", proto.Equal(cur.PublishTime, timestamppb.New(clk.Peek())), cur)
	mint(cur)
	unacknowledged(cur)
	id := cur.Id
	acknowledged := false
	steps := 2
	if sym.Thorough() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		n := string(rune('1' + i))
		clk.N += int64(sym.Int(n+"elapsed", 0, 1000))
		now := timestamppb.New(clk.Peek())
		before := proto.Clone(cur).(*traits.Publication)
		version := []string{cur.Version, "", "stale"}[sym.Choice(n+"version", 3)]
		var res *traits.Publication
		var err error
		same := func(label string) {
			got, ok := m.GetPublication(id)
			sym.Assert(label, ok && proto.Equal(before, got), before, got)
		}
		switch sym.Choice(n+"op", 3) {
		case 0: // update, of all or some
			q := &traits.Publication{Id: id}
			var mask *fieldmaskpb.FieldMask
			var want func(*traits.Publication) bool
			switch sym.Choice(n+"what", 5) {
			case 0:
				q.Body, q.MediaType, q.Audience = []byte("new"), before.MediaType, before.Audience
			case 1:
				q.Body, mask = []byte("new"), hx.Mask("body")
				want = func(p *traits.Publication) bool { return string(p.Body) == "new" && p.MediaType == before.MediaType }
			case 2:
				q.MediaType, mask = "html", hx.Mask("media_type")
				want = func(p *traits.Publication) bool {
					return string(p.Body) == string(before.Body) && p.MediaType == "html"
				}
			case 3:
				q.Audience, mask = &traits.Publication_Audience{Name: "other"}, hx.Mask("audience.name")
				want = func(p *traits.Publication) bool { return p.Audience.GetName() == "other" }
			case 4: // same content
				q.Body, mask = before.Body, hx.Mask("body")
				want = func(p *traits.Publication) bool { return content(p) == content(before) }
			}
			if !safely("update", func() {
				res, err = s.UpdatePublication(ctx, &traits.UpdatePublicationRequest{Publication: q, Version: version, UpdateMask: mask})
			}) {
				return
			}
			if version == "stale" {
				sym.Assert("update-version", hx.Code(err) == codes.FailedPrecondition, err)
				same("stale-unchanged")
				continue
			}
			sym.Assert("updated", err == nil, err)
			if err != nil {
				return
			}
			cur, _ = m.GetPublication(id)
			sym.Assert("update-response", proto.Equal(res, cur), res, cur)
			sym.Assert("publish-time", proto.Equal(cur.PublishTime, now), cur)
			sym.Assert("update-content", want == nil || want(cur), cur)
			mint(cur)
			unacknowledged(cur)
			acknowledged = false
			sym.Cover("updated")
		case 1: // acknowledge
			receipt := traits.Publication_Audience_Receipt(sym.Choice(n+"receipt", 4))
			sym.Assume(receipt != traits.Publication_Audience_NO_SIGNAL)
			again := sym.Flip(n + "again")
			reason := ""
			if receipt == traits.Publication_Audience_REJECTED {
				reason = "bad"
			}
			if !safely("acknowledge", func() {
				res, err = s.AcknowledgePublication(ctx, &traits.AcknowledgePublicationRequest{Id: id, Version: version, Receipt: receipt, ReceiptRejectedReason: reason, AllowAcknowledged: again})
			}) {
				return
			}
			switch {
			case version != before.Version:
				sym.Assert("acknowledge-version", err != nil, version)
				same("acknowledge-version-unchanged")
				continue
			case acknowledged && again:
				sym.Assert("acknowledge-again", err == nil && proto.Equal(res, before), res, err)
				same("acknowledge-again-unchanged")
				continue
			case acknowledged:
				sym.Assert("already-acknowledged", hx.Code(err) == codes.FailedPrecondition, err)
				same("already-acknowledged-unchanged")
				continue
			}
			sym.Assert("acknowledge", err == nil, err)
			if err != nil {
				return
			}
			cur, _ = m.GetPublication(id)
			sym.Assert("acknowledge-response", proto.Equal(res, cur), res, cur)
			if receipt == traits.Publication_Audience_RECEIPT_UNSPECIFIED {
				receipt = traits.Publication_Audience_ACCEPTED
			}
			sym.Assert("receipt", cur.Audience.GetReceipt() == receipt && cur.Audience.GetReceiptRejectedReason() == reason, cur)
			sym.Assert("receipt-time", proto.Equal(cur.Audience.GetReceiptTime(), now), cur)
			rest := proto.Clone(cur).(*traits.Publication)
			rest.Audience = before.Audience
			sym.Assert("acknowledge-only", proto.Equal(rest, before) && cur.Audience.GetName() == before.Audience.GetName(), before, cur)
			acknowledged = true
			sym.Cover("acknowledged")
		case 2: // delete
			allow := sym.Flip(n + "allow")
			res, err = s.DeletePublication(ctx, &traits.DeletePublicationRequest{Id: id, Version: version, AllowMissing: allow})
			if version == "stale" {
				sym.Assert("delete-version", hx.Code(err) == codes.FailedPrecondition, err)
				same("delete-version-unchanged")
				continue
			}
			sym.Assert("deleted", err == nil, err)
			_, ok := m.GetPublication(id)
			sym.Assert("gone", !ok)
			_, err = s.AcknowledgePublication(ctx, &traits.AcknowledgePublicationRequest{Id: id, Version: before.Version, Receipt: traits.Publication_Audience_ACCEPTED})
			sym.Assert("acknowledge-absent", hx.Code(err) == codes.NotFound, err)
			return
		}
	}
}

// CheckInitial configures initial records.
// gosym: time=10s
func CheckInitial() {
	p := &traits.Publication{Id: "p", Body: []byte("x"), Version: "v"}
	m := publicationpb.NewModel(publicationpb.WithInitialPublication(proto.Clone(p).(*traits.Publication)))
	got, ok := m.GetPublication("p")
	sym.Assert("publication", ok && proto.Equal(got, p), got)
	f := &traits.FanSpeed{Preset: "med", PresetIndex: 2, Percentage: 40}
	sym.Assert("fan-speed", proto.Equal(fanspeedpb.NewModel(fanspeedpb.WithInitialFanSpeed(proto.Clone(f).(*traits.FanSpeed))).FanSpeed(), f))
	oc := openclosepb.NewModel(openclosepb.WithInitialPositions(&traits.OpenClosePosition{OpenPercent: 5}),
		openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "five"}, &traits.OpenClosePosition{OpenPercent: 5}))
	pos, err := oc.GetPositions()
	sym.Assert("positions", err == nil && len(pos.States) == 1 && pos.States[0].OpenPercent == 5 && pos.Preset.GetName() == "five", pos)
	sym.Assert("has-preset", oc.HasPreset("five") && !oc.HasPreset("six"))
	c := parentpb.NewModel(parentpb.WithInitialChildren(&traits.Child{Name: "x", Traits: []*traits.Trait{{Name: "a"}}}))
	sym.Assert("children", len(c.ListChildren()) == 1 && c.ListChildren()[0].Name == "x")
}
