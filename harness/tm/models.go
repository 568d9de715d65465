package tm

import (
	"context"
	"math/rand"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	typetime "github.com/smart-core-os/sc-api/go/types/time"

	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
)

// All makes the models, in a fixed order.
var All = []struct {
	Name string
	New  func() *Model
}{
	{"accesspb", Access},
	{"airqualitysensorpb", AirQuality},
	{"airtemperaturepb", AirTemperature},
	{"bookingpb", Booking},
	{"electricpb demand", ElectricDemand},
	{"electricpb modes", ElectricModes},
	{"energystoragepb", EnergyStorage},
	{"enterleavesensorpb", EnterLeave},
	{"fanspeedpb", FanSpeed},
	{"hailpb", Hail},
	{"lightpb", Light},
	{"metadatapb", Metadata},
	{"metadatapb collection", MetadataCollection},
	{"meterpb", Meter},
	{"modepb", Mode},
	{"occupancysensorpb", Occupancy},
	{"onoffpb", OnOff},
	{"openclosepb", OpenClose},
	{"parentpb", Parent},
	{"presspb", Press},
	{"publicationpb", Publication},
	{"vendingpb consumables", Consumables},
	{"vendingpb inventory", Inventory},
	{"wastepb", Waste},
}

func clock() resource.Option { return resource.WithClock(&hx.Clock{Hold: true}) }

func Access() *Model {
	m := accesspb.NewModel(clock())
	return &Model{
		Name: "accesspb",
		Writes: []Op{{"UpdateLastAccessAttempt", func(l Log, n int) {
			in := &traits.AccessAttempt{Reason: reason(n), AccessAttemptTime: stamp(n), Actor: &traits.AccessAttempt_Actor{Title: "t"}}
			res, err := m.UpdateLastAccessAttempt(in)
			out(l, "UpdateLastAccessAttempt", res, err)
			l.In("UpdateLastAccessAttempt", in, func() {
				in.Actor.Title, in.AccessAttemptTime.Seconds, in.Reason = "changed", 1, "changed"
			})
		}}},
		Backs: []Back{
			back("UpdateLastAccessAttempt", func(in *traits.AccessAttempt) (*traits.AccessAttempt, error) { return m.UpdateLastAccessAttempt(in) }),
		},
		Reads: []Op{{"GetLastAccessAttempt", func(l Log, n int) {
			res, err := m.GetLastAccessAttempt(mask(n, "reason")...)
			out(l, "GetLastAccessAttempt", res, err)
		}}},
		Pulls: []Pull{{"PullAccessAttempts", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullAccessAttempts(ctx, opts...), func(c accesspb.PullAccessAttemptsChange) []proto.Message {
				return []proto.Message{c.Value}
			})
		}}},
	}
}

func reason(n int) string { return string(rune('a' + n)) }

// mask is no option or a read mask.
func mask(n int, path string) []resource.ReadOption {
	if n == 0 {
		return nil
	}
	return []resource.ReadOption{resource.WithReadMask(hx.Mask(path))}
}

func AirQuality() *Model {
	m := airqualitysensorpb.NewModel(clock())
	return &Model{
		Name: "airqualitysensorpb",
		Writes: []Op{{"UpdateAirQuality", func(l Log, n int) {
			in := &traits.AirQuality{CarbonDioxideLevel: ptr(float32(n)), Comfort: traits.AirQuality_Comfort(n)}
			res, err := m.UpdateAirQuality(in)
			out(l, "UpdateAirQuality", res, err)
			l.In("UpdateAirQuality", in, func() { *in.CarbonDioxideLevel, in.Comfort = 99, 99 })
		}}},
		Backs: []Back{
			back("UpdateAirQuality", func(in *traits.AirQuality) (*traits.AirQuality, error) { return m.UpdateAirQuality(in) }),
		},
		Reads: []Op{{"GetAirQuality", func(l Log, n int) {
			res, err := m.GetAirQuality(mask(n, "comfort")...)
			out(l, "GetAirQuality", res, err)
		}}},
		Pulls: []Pull{{"PullAirQuality", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullAirQuality(ctx, opts...), func(c airqualitysensorpb.PullAirQualityChange) []proto.Message {
				return []proto.Message{c.Value}
			})
		}}},
	}
}

func AirTemperature() *Model {
	m := airtemperaturepb.NewModel(clock())
	return &Model{
		Name: "airtemperaturepb",
		Writes: []Op{{"UpdateAirTemperature", func(l Log, n int) {
			in := &traits.AirTemperature{Mode: traits.AirTemperature_Mode(n + 1), AmbientTemperature: &types.Temperature{ValueCelsius: float64(n)}}
			res, err := m.UpdateAirTemperature(in)
			out(l, "UpdateAirTemperature", res, err)
			l.In("UpdateAirTemperature", in, func() { in.Mode, in.AmbientTemperature.ValueCelsius = 99, 99 })
		}}},
		Backs: []Back{
			back("UpdateAirTemperature", func(in *traits.AirTemperature) (*traits.AirTemperature, error) { return m.UpdateAirTemperature(in) }),
		},
		Reads: []Op{{"GetAirTemperature", func(l Log, n int) {
			res, err := m.GetAirTemperature(mask(n, "ambient_temperature")...)
			out(l, "GetAirTemperature", res, err)
		}}},
		Pulls: []Pull{{"PullAirTemperature", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullAirTemperature(ctx, opts...), func(c airtemperaturepb.PullAirTemperatureChange) []proto.Message {
				return []proto.Message{c.Value}
			})
		}}},
	}
}

func Booking() *Model {
	m := bookingpb.NewModel(clock(), resource.WithInitialRecord("a", &traits.Booking{Id: "a", Title: "first", Booked: &typetime.Period{StartTime: stamp(1)}}))
	return &Model{
		Name: "bookingpb",
		Writes: []Op{
			{"UpdateBooking", func(l Log, n int) {
				in := &traits.Booking{Id: "a", Title: reason(n), Booked: &typetime.Period{EndTime: stamp(n)}}
				res, err := m.UpdateBooking(in)
				out(l, "UpdateBooking", res, err)
				l.In("UpdateBooking", in, func() { in.Title, in.Booked.EndTime.Seconds = "changed", 1 })
			}},
			{"CreateBooking", func(l Log, n int) {
				in := &traits.Booking{Id: reason(n), Title: "new", Booked: &typetime.Period{EndTime: stamp(n)}}
				res, err := m.CreateBooking(in)
				out(l, "CreateBooking", res, err)
				l.In("CreateBooking", in, func() { in.Title, in.Booked.EndTime.Seconds = "changed", 1 })
			}},
		},
		Backs: []Back{
			back("CreateBooking", func(in *traits.Booking) (*traits.Booking, error) { return m.CreateBooking(in) }),
			back("UpdateBooking", func(in *traits.Booking) (*traits.Booking, error) { return m.UpdateBooking(in) }),
		},
		Reads: []Op{{"ListBookings", func(l Log, n int) {
			outAll(l, "ListBookings", m.ListBookings(mask(n, "booked.start_time")...))
		}}},
		Pulls: []Pull{{"PullBookings", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullBookings(ctx, opts...), func(c bookingpb.BookingChange) []proto.Message {
				return both(c.OldValue, c.NewValue)
			})
		}}},
	}
}

func newElectric() *electricpb.Model {
	return electricpb.NewModel(electricpb.WithClock(&Clock{T: hx.Clock{Hold: true}}), electricpb.WithRNG(rand.New(&Source{})),
		electricpb.WithInitialMode(
			&traits.ElectricMode{Id: "a", Title: "a", Normal: true, Segments: []*traits.ElectricMode_Segment{{Length: &durationpb.Duration{Seconds: 10}, Magnitude: 1}}},
			&traits.ElectricMode{Id: "b", Title: "b"}))
}

func ElectricDemand() *Model {
	m := newElectric()
	return &Model{
		Name: "electricpb demand",
		Writes: []Op{{"UpdateDemand", func(l Log, n int) {
			in := &traits.ElectricDemand{Current: float32(n), Voltage: ptr(float32(n))}
			res, err := m.UpdateDemand(in)
			out(l, "UpdateDemand", res, err)
			l.In("UpdateDemand", in, func() { in.Current, *in.Voltage = 99, 99 })
		}}},
		Backs: []Back{
			back("UpdateDemand", func(in *traits.ElectricDemand) (*traits.ElectricDemand, error) { return m.UpdateDemand(in) }),
		},
		Reads: []Op{{"Demand", func(l Log, n int) { l.Out("Demand", m.Demand(mask(n, "current")...)) }}},
		Pulls: []Pull{{"PullDemand", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullDemand(ctx, opts...), func(c electricpb.PullDemandChange) []proto.Message {
				return []proto.Message{c.Value}
			})
		}}},
	}
}

func ElectricModes() *Model {
	m := newElectric()
	mode := func(id string, n int) *traits.ElectricMode {
		return &traits.ElectricMode{Id: id, Title: reason(n), Segments: []*traits.ElectricMode_Segment{{Length: &durationpb.Duration{Seconds: int64(n + 1)}, Magnitude: 2}}}
	}
	change := func(in *traits.ElectricMode) func() {
		return func() { in.Title, in.Segments[0].Magnitude, in.Segments[0].Length.Seconds = "changed", 99, 99 }
	}
	return &Model{
		Name: "electricpb modes",
		Writes: []Op{
			{"UpdateMode", func(l Log, n int) {
				in := mode("a", n)
				res, err := m.UpdateMode(in)
				out(l, "UpdateMode", res, err)
				l.In("UpdateMode", in, change(in))
			}},
			{"ChangeActiveMode", func(l Log, n int) {
				res, err := m.ChangeActiveMode(reason(n))
				out(l, "ChangeActiveMode", res, err)
			}},
			{"AddMode", func(l Log, n int) {
				in := mode(reason(n+2), n)
				m.AddMode(in)
				l.In("AddMode", in, change(in))
			}},
			{"CreateMode", func(l Log, n int) {
				in := mode("", n)
				res, err := m.CreateMode(in)
				out(l, "CreateMode", res, err)
				l.In("CreateMode", in, change(in))
			}},
			{"SetActiveMode", func(l Log, n int) {
				in := mode("b", n)
				in.StartTime = stamp(n)
				m.SetActiveMode(in)
				l.In("SetActiveMode", in, func() { in.StartTime.Seconds = 1; change(in)() })
			}},
			{"ChangeToNormalMode", func(l Log, n int) {
				res, err := m.ChangeToNormalMode()
				out(l, "ChangeToNormalMode", res, err)
			}},
			{"DeleteMode", func(l Log, n int) { m.DeleteMode(reason(n)) }},
		},
		Backs: []Back{
			back("UpdateMode", func(in *traits.ElectricMode) (*traits.ElectricMode, error) { return m.UpdateMode(in) }),
			back("AddMode", func(in *traits.ElectricMode) (*traits.ElectricMode, error) {
				if in.Id != "" {
					m.AddMode(in)
				}
				return nil, errSkip
			}),
			back("SetActiveMode", func(in *traits.ElectricMode) (*traits.ElectricMode, error) {
				m.SetActiveMode(in)
				return nil, errSkip
			}),
			back("CreateMode", func(in *traits.ElectricMode) (*traits.ElectricMode, error) {
				if in.Id != "" {
					return nil, errSkip
				}
				return m.CreateMode(in)
			}),
		},
		Reads: []Op{
			{"Modes", func(l Log, n int) { outAll(l, "Modes", m.Modes(mask(n, "segments.magnitude")...)) }},
			{"ActiveMode", func(l Log, n int) { l.Out("ActiveMode", m.ActiveMode(mask(n, "title")...)) }},
			{"FindMode", func(l Log, n int) {
				if res, ok := m.FindMode(reason(n)); ok {
					l.Out("FindMode", res)
				}
			}},
			{"NormalMode", func(l Log, n int) {
				if res, ok := m.NormalMode(); ok {
					l.Out("NormalMode", res)
				}
			}},
		},
		Pulls: []Pull{
			{"PullModes", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
				return chanOf(m.PullModes(ctx, opts...), func(c electricpb.PullModesChange) []proto.Message {
					return both(c.OldValue, c.NewValue)
				})
			}},
			{"PullActiveMode", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
				return chanOf(m.PullActiveMode(ctx, opts...), func(c electricpb.PullActiveModeChange) []proto.Message {
					return []proto.Message{c.ActiveMode}
				})
			}},
		},
	}
}

func EnergyStorage() *Model {
	m := energystoragepb.NewModel(clock())
	return &Model{
		Name: "energystoragepb",
		Writes: []Op{{"UpdateEnergyLevel", func(l Log, n int) {
			in := &traits.EnergyLevel{Quantity: &traits.EnergyLevel_Quantity{Percentage: float32(n)}, PluggedIn: true}
			res, err := m.UpdateEnergyLevel(in)
			out(l, "UpdateEnergyLevel", res, err)
			l.In("UpdateEnergyLevel", in, func() { in.Quantity.Percentage, in.PluggedIn = 99, false })
		}}},
		Backs: []Back{
			back("UpdateEnergyLevel", func(in *traits.EnergyLevel) (*traits.EnergyLevel, error) { return m.UpdateEnergyLevel(in) }),
		},
		Reads: []Op{{"GetEnergyLevel", func(l Log, n int) {
			res, err := m.GetEnergyLevel(mask(n, "quantity.percentage")...)
			out(l, "GetEnergyLevel", res, err)
		}}},
		Pulls: []Pull{{"PullEnergyLevel", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullEnergyLevel(ctx, opts...), func(c energystoragepb.PullEnergyLevelChange) []proto.Message {
				return []proto.Message{c.Value}
			})
		}}},
	}
}

func EnterLeave() *Model {
	m := enterleavesensorpb.NewModel(clock())
	return &Model{
		Name: "enterleavesensorpb",
		Writes: []Op{
			{"CreateEnterLeaveEvent", func(l Log, n int) {
				in := &traits.EnterLeaveEvent{Direction: traits.EnterLeaveEvent_Direction(n + 1), Occupant: &traits.EnterLeaveEvent_Occupant{Name: reason(n)}}
				if n == 1 {
					in.EnterTotal = ptr(int32(7))
				}
				m.CreateEnterLeaveEvent(in)
				l.In("CreateEnterLeaveEvent", in, func() {
					in.Direction, in.Occupant.Name = 99, "changed"
					if in.EnterTotal != nil {
						*in.EnterTotal = 99
					}
				})
			}},
			{"ResetTotals", func(l Log, n int) { m.ResetTotals() }},
		},
		Backs: []Back{
			back("CreateEnterLeaveEvent", func(in *traits.EnterLeaveEvent) (*traits.EnterLeaveEvent, error) {
				m.CreateEnterLeaveEvent(in)
				return nil, errSkip
			}),
		},
		Reads: []Op{{"GetEnterLeaveEvent", func(l Log, n int) {
			res, err := m.GetEnterLeaveEvent(mask(n, "occupant.name")...)
			out(l, "GetEnterLeaveEvent", res, err)
		}}},
		Pulls: []Pull{{"PullEnterLeaveEvents", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullEnterLeaveEvents(ctx, opts...), func(c enterleavesensorpb.EnterLeaveEventChange) []proto.Message {
				return []proto.Message{c.Value}
			})
		}}},
	}
}

func FanSpeed() *Model {
	m := fanspeedpb.NewModel(clock())
	return &Model{
		Name: "fanspeedpb",
		Writes: []Op{{"UpdateFanSpeed", func(l Log, n int) {
			in := &traits.FanSpeed{Percentage: float32(n * 20), Direction: traits.FanSpeed_Direction(n)}
			res, err := m.UpdateFanSpeed(in)
			out(l, "UpdateFanSpeed", res, err)
			l.In("UpdateFanSpeed", in, func() { in.Percentage, in.Preset = 99, "changed" })
		}}},
		Backs: []Back{
			back("UpdateFanSpeed", func(in *traits.FanSpeed) (*traits.FanSpeed, error) { return m.UpdateFanSpeed(in) }),
			back("UpdateFanSpeed relative", func(in *traits.FanSpeed) (*traits.FanSpeed, error) {
				return fanspeedpb.NewModelServer(m).UpdateFanSpeed(context.Background(), &traits.UpdateFanSpeedRequest{FanSpeed: in, Relative: true})
			}),
		},
		Reads: []Op{{"FanSpeed", func(l Log, n int) { l.Out("FanSpeed", m.FanSpeed(mask(n, "preset")...)) }}},
		Pulls: []Pull{{"PullFanSpeed", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullFanSpeed(ctx, opts...), func(c fanspeedpb.FanSpeedChange) []proto.Message {
				return []proto.Message{c.Value}
			})
		}}},
	}
}

func Hail() *Model {
	m := hailpb.NewModel(clock(), hailpb.WithKeepAlive(-1), resource.WithInitialRecord("a", &traits.Hail{Id: "a", Origin: &traits.Hail_Location{Name: "o"}}))
	return &Model{
		Name: "hailpb",
		Writes: []Op{
			{"UpdateHail", func(l Log, n int) {
				in := &traits.Hail{Id: "a", Destination: &traits.Hail_Location{Name: reason(n)}, State: traits.Hail_State(n + 1)}
				res, err := m.UpdateHail(in)
				out(l, "UpdateHail", res, err)
				l.In("UpdateHail", in, func() { in.Destination.Name, in.State = "changed", 99 })
			}},
			{"DeleteHail", func(l Log, n int) {
				res, err := m.DeleteHail("a")
				out(l, "DeleteHail", res, err)
			}},
			{"CreateHail", func(l Log, n int) {
				in := &traits.Hail{Destination: &traits.Hail_Location{Name: reason(n)}}
				res, err := m.CreateHail(in)
				out(l, "CreateHail", res, err)
				l.In("CreateHail", in, func() { in.Destination.Name, in.Id = "changed", "changed" })
			}},
		},
		Backs: []Back{
			back("CreateHail", func(in *traits.Hail) (*traits.Hail, error) { return m.CreateHail(in) }),
			back("UpdateHail", func(in *traits.Hail) (*traits.Hail, error) { return m.UpdateHail(in) }),
			back("server CreateHail", func(in *traits.Hail) (*traits.Hail, error) {
				return hailpb.NewModelServer(m).CreateHail(context.Background(), &traits.CreateHailRequest{Hail: in})
			}),
		},
		Reads: []Op{
			{"ListHails", func(l Log, n int) { outAll(l, "ListHails", m.ListHails(mask(n, "destination.name")...)) }},
			{"GetHail", func(l Log, n int) {
				if res, ok := m.GetHail("a", mask(n, "origin.name")...); ok {
					l.Out("GetHail", res)
				}
			}},
		},
		Pulls: []Pull{
			{"PullHails", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
				return chanOf(m.PullHails(ctx, opts...), func(c hailpb.HailsChange) []proto.Message { return both(c.OldValue, c.NewValue) })
			}},
			{"PullHail", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
				return chanOf(m.PullHail(ctx, "a", opts...), func(c hailpb.HailChange) []proto.Message { return []proto.Message{c.Value} })
			}},
		},
	}
}

func Light() *Model {
	m := lightpb.NewModel(clock(), lightpb.WithPreset(10, &traits.LightPreset{Name: "low", Title: "Low"}), lightpb.WithPreset(90, &traits.LightPreset{Name: "high", Title: "High"}))
	return &Model{
		Name: "lightpb",
		Writes: []Op{
			{"UpdateBrightness preset", func(l Log, n int) {
				in := &traits.Brightness{Preset: &traits.LightPreset{Name: []string{"low", "high"}[n]}}
				res, err := m.UpdateBrightness(in)
				out(l, "UpdateBrightness", res, err)
				l.In("UpdateBrightness", in, func() { in.Preset.Name, in.Preset.Title, in.LevelPercent = "changed", "changed", 99 })
			}},
			{"UpdateBrightness", func(l Log, n int) {
				in := &traits.Brightness{LevelPercent: float32(n + 1), BrightnessTween: &types.Tween{Progress: 3}}
				res, err := m.UpdateBrightness(in)
				out(l, "UpdateBrightness", res, err)
				l.In("UpdateBrightness", in, func() { in.BrightnessTween.Progress, in.LevelPercent = 99, 99 })
			}},
		},
		Backs: []Back{
			back("UpdateBrightness", func(in *traits.Brightness) (*traits.Brightness, error) { return m.UpdateBrightness(in) }),
		},
		Reads: []Op{
			{"GetBrightness", func(l Log, n int) {
				res, err := m.GetBrightness(mask(n, "preset.name")...)
				out(l, "GetBrightness", res, err)
			}},
			{"ListPresets", func(l Log, n int) { outAll(l, "ListPresets", m.ListPresets()) }},
		},
		Pulls: []Pull{{"PullBrightness", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullBrightness(ctx, opts...), func(c lightpb.PullBrightnessChange) []proto.Message {
				return []proto.Message{c.Value}
			})
		}}},
	}
}

func newMetadata(name string) *traits.Metadata {
	return &traits.Metadata{Name: name, Traits: []*traits.TraitMetadata{
		{Name: "a", More: map[string]string{"k": "v"}},
		{Name: "c"},
	}, More: map[string]string{"k": "v"}, Appearance: &traits.Metadata_Appearance{Title: "t"}}
}

func changeMetadata(in *traits.Metadata) func() {
	return func() {
		in.Name = "changed"
		for _, t := range in.Traits {
			t.Name = "changed"
			if t.More != nil {
				t.More["changed"] = "changed"
			}
		}
		if in.More != nil {
			in.More["changed"] = "changed"
		}
		in.Appearance.Title = "changed"
	}
}

func metadataIn(n int) *traits.Metadata {
	return &traits.Metadata{
		Traits:     []*traits.TraitMetadata{{Name: []string{"a", "b"}[n], More: map[string]string{"l": reason(n)}}},
		Appearance: &traits.Metadata_Appearance{Description: reason(n)},
		More:       map[string]string{"l": reason(n)},
	}
}

func Metadata() *Model {
	m := metadatapb.NewModel(clock(), resource.WithInitialValue(newMetadata("n")))
	return &Model{
		Name: "metadatapb",
		Writes: []Op{
			{"MergeMetadata", func(l Log, n int) {
				in := metadataIn(n)
				res, err := m.MergeMetadata(in)
				out(l, "MergeMetadata", res, err)
				l.In("MergeMetadata", in, changeMetadata(in))
			}},
			{"UpdateTraitMetadata", func(l Log, n int) {
				in := &traits.TraitMetadata{Name: []string{"a", "b"}[n], More: map[string]string{"m": reason(n)}}
				res, err := m.UpdateTraitMetadata(in)
				out(l, "UpdateTraitMetadata", res, err)
				l.In("UpdateTraitMetadata", in, func() { in.Name = "changed"; in.More["changed"] = "changed" })
			}},
			{"UpdateMetadata", func(l Log, n int) {
				in := metadataIn(n)
				res, err := m.UpdateMetadata(in)
				out(l, "UpdateMetadata", res, err)
				l.In("UpdateMetadata", in, changeMetadata(in))
			}},
		},
		Backs: []Back{
			back("MergeMetadata", func(in *traits.Metadata) (*traits.Metadata, error) { return m.MergeMetadata(in) }),
			back("UpdateMetadata", func(in *traits.Metadata) (*traits.Metadata, error) { return m.UpdateMetadata(in) }),
			back("UpdateTraitMetadata", func(in *traits.Metadata) (*traits.Metadata, error) {
				if len(in.Traits) == 0 {
					return nil, errSkip
				}
				return m.UpdateTraitMetadata(in.Traits[len(in.Traits)-1])
			}),
		},
		Reads: []Op{{"GetMetadata", func(l Log, n int) {
			res, err := m.GetMetadata(mask(n, "traits.name")...)
			out(l, "GetMetadata", res, err)
		}}},
		Pulls: []Pull{{"PullMetadata", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullMetadata(ctx, opts...), func(c *traits.PullMetadataResponse_Change) []proto.Message {
				return []proto.Message{c}
			})
		}}},
	}
}

func MetadataCollection() *Model {
	m := metadatapb.NewCollection(clock(), resource.WithInitialRecord("n", newMetadata("n")))
	return &Model{
		Name: "metadatapb collection",
		Writes: []Op{
			{"MergeMetadata", func(l Log, n int) {
				in := metadataIn(n)
				res, err := m.MergeMetadata("n", in)
				out(l, "MergeMetadata", res, err)
				l.In("MergeMetadata", in, changeMetadata(in))
			}},
			{"UpdateTraitMetadata", func(l Log, n int) {
				in := &traits.TraitMetadata{Name: []string{"a", "b"}[n], More: map[string]string{"m": reason(n)}}
				res, err := m.UpdateTraitMetadata([]string{"n", "new"}[n], in, resource.WithCreateIfAbsent())
				out(l, "UpdateTraitMetadata", res, err)
				l.In("UpdateTraitMetadata", in, func() { in.Name = "changed"; in.More["changed"] = "changed" })
			}},
			{"UpdateMetadata", func(l Log, n int) {
				in := metadataIn(n)
				res, err := m.UpdateMetadata("n", in)
				out(l, "UpdateMetadata", res, err)
				l.In("UpdateMetadata", in, changeMetadata(in))
			}},
			{"DeleteMetadata", func(l Log, n int) {
				res, err := m.DeleteMetadata("n")
				out(l, "DeleteMetadata", res, err)
			}},
		},
		Backs: []Back{
			back("MergeMetadata", func(in *traits.Metadata) (*traits.Metadata, error) { return m.MergeMetadata("n", in) }),
			back("UpdateMetadata", func(in *traits.Metadata) (*traits.Metadata, error) { return m.UpdateMetadata("n", in) }),
			back("MergeMetadata new", func(in *traits.Metadata) (*traits.Metadata, error) {
				return m.MergeMetadata("new", in, resource.WithCreateIfAbsent())
			}),
		},
		Reads: []Op{
			{"ListMetadata", func(l Log, n int) { outAll(l, "ListMetadata", m.ListMetadata(mask(n, "traits.name")...)) }},
			{"GetMetadata", func(l Log, n int) {
				res, err := m.GetMetadata("n", mask(n, "traits.name")...)
				out(l, "GetMetadata", res, err)
			}},
		},
		Pulls: []Pull{
			{"PullAllMetadata", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
				return chanOf(m.PullAllMetadata(ctx, opts...), func(c metadatapb.CollectionChange) []proto.Message {
					return both(c.OldValue, c.NewValue)
				})
			}},
			{"PullMetadata", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
				return chanOf(m.PullMetadata(ctx, "n", opts...), func(c *traits.PullMetadataResponse_Change) []proto.Message {
					return []proto.Message{c}
				})
			}},
		},
	}
}

func Meter() *Model {
	m := meterpb.NewModel(clock())
	return &Model{
		Name: "meterpb",
		Writes: []Op{
			{"UpdateMeterReading", func(l Log, n int) {
				in := &traits.MeterReading{Usage: float32(n + 1), StartTime: stamp(n)}
				res, err := m.UpdateMeterReading(in)
				out(l, "UpdateMeterReading", res, err)
				l.In("UpdateMeterReading", in, func() { in.Usage, in.StartTime.Seconds = 99, 1 })
			}},
			{"RecordReading", func(l Log, n int) {
				res, err := m.RecordReading(float32(n + 5))
				out(l, "RecordReading", res, err)
			}},
			{"Reset", func(l Log, n int) {
				res, err := m.Reset()
				out(l, "Reset", res, err)
			}},
		},
		Backs: []Back{
			back("UpdateMeterReading", func(in *traits.MeterReading) (*traits.MeterReading, error) { return m.UpdateMeterReading(in) }),
		},
		Reads: []Op{{"GetMeterReading", func(l Log, n int) {
			res, err := m.GetMeterReading(mask(n, "end_time")...)
			out(l, "GetMeterReading", res, err)
		}}},
		Pulls: []Pull{{"PullMeterReadings", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullMeterReadings(ctx, opts...), func(c meterpb.PullMeterReadingChange) []proto.Message {
				return []proto.Message{c.Value}
			})
		}}},
	}
}

func Mode() *Model {
	m := modepb.NewModel()
	return &Model{
		Name: "modepb",
		Writes: []Op{{"UpdateModeValues", func(l Log, n int) {
			in := &traits.ModeValues{Values: map[string]string{"temperature": reason(n)}}
			res, err := m.UpdateModeValues(in)
			out(l, "UpdateModeValues", res, err)
			l.In("UpdateModeValues", in, func() { in.Values["temperature"], in.Values["changed"] = "changed", "changed" })
		}}},
		Backs: []Back{
			back("UpdateModeValues", func(in *traits.ModeValues) (*traits.ModeValues, error) { return m.UpdateModeValues(in) }),
		},
		Reads: []Op{
			{"ModeValues", func(l Log, n int) { l.Out("ModeValues", m.ModeValues(mask(n, "values")...)) }},
			{"Modes", func(l Log, n int) { l.Out("Modes", m.Modes()) }},
			{"AvailableValues", func(l Log, n int) { outAll(l, "AvailableValues", m.AvailableValues("spin")) }},
		},
		Pulls: []Pull{{"PullModeValues", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullModeValues(ctx, opts...), func(c modepb.ModeValuesChange) []proto.Message {
				return []proto.Message{c.Value}
			})
		}}},
	}
}

func Occupancy() *Model {
	m := occupancysensorpb.NewModel(clock())
	return &Model{
		Name: "occupancysensorpb",
		Writes: []Op{{"SetOccupancy", func(l Log, n int) {
			in := &traits.Occupancy{PeopleCount: int32(n), Reasons: []string{reason(n)}, StateChangeTime: stamp(n)}
			res, err := m.SetOccupancy(in)
			out(l, "SetOccupancy", res, err)
			l.In("SetOccupancy", in, func() { in.Reasons[0], in.StateChangeTime.Seconds = "changed", 1 })
		}}},
		Backs: []Back{
			back("SetOccupancy", func(in *traits.Occupancy) (*traits.Occupancy, error) { return m.SetOccupancy(in) }),
		},
		Reads: []Op{{"GetOccupancy", func(l Log, n int) {
			res, err := m.GetOccupancy(mask(n, "reasons")...)
			out(l, "GetOccupancy", res, err)
		}}},
		Pulls: []Pull{{"PullOccupancy", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullOccupancy(ctx, opts...), func(c occupancysensorpb.PullOccupancyChange) []proto.Message {
				return []proto.Message{c.Value}
			})
		}}},
	}
}

func OnOff() *Model {
	m := onoffpb.NewModel(clock())
	return &Model{
		Name: "onoffpb",
		Writes: []Op{{"UpdateOnOff", func(l Log, n int) {
			in := &traits.OnOff{State: traits.OnOff_State(n + 1)}
			res, err := m.UpdateOnOff(in)
			out(l, "UpdateOnOff", res, err)
			l.In("UpdateOnOff", in, func() { in.State = 99 })
		}}},
		Backs: []Back{
			back("UpdateOnOff", func(in *traits.OnOff) (*traits.OnOff, error) { return m.UpdateOnOff(in) }),
		},
		Reads: []Op{{"GetOnOff", func(l Log, n int) {
			res, err := m.GetOnOff()
			out(l, "GetOnOff", res, err)
		}}},
		Pulls: []Pull{{"PullOnOff", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullOnOff(ctx, opts...), func(c onoffpb.PullOnOffChange) []proto.Message { return []proto.Message{c.Value} })
		}}},
	}
}

func OpenClose() *Model {
	pos := func(d traits.OpenClosePosition_Direction, p float32) *traits.OpenClosePosition {
		return &traits.OpenClosePosition{Direction: d, OpenPercent: p}
	}
	m := openclosepb.NewModel(clock(),
		openclosepb.WithInitialPositions(pos(1, 5), pos(2, 10)),
		openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "open", Title: "Open"}, pos(1, 100), pos(2, 100)),
		openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "shut", Title: "Shut"}, pos(1, 0), pos(2, 0)))
	changed := func(in *traits.OpenClosePosition) func() { return func() { in.OpenPercent = 99 } }
	return &Model{
		Name: "openclosepb",
		Writes: []Op{
			{"UpdatePositions preset", func(l Log, n int) {
				in := &traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: []string{"open", "shut"}[n]}}
				res, err := m.UpdatePositions(in)
				out(l, "UpdatePositions", res, err)
				l.In("UpdatePositions", in, func() {
					in.Preset.Name, in.Preset.Title = "changed", "changed"
					for _, s := range in.States {
						s.OpenPercent = 99
					}
				})
			}},
			{"UpdatePosition", func(l Log, n int) {
				in := pos(1, float32(n+50))
				res, err := m.UpdatePosition(in)
				out(l, "UpdatePosition", res, err)
				l.In("UpdatePosition", in, changed(in))
			}},
			{"UpdatePositionN", func(l Log, n int) {
				in := pos(1, float32(n+70))
				res, err := m.UpdatePositionN(2, in)
				out(l, "UpdatePositionN", res, err)
				l.In("UpdatePositionN", in, changed(in))
			}},
			{"UpdatePositions", func(l Log, n int) {
				in := &traits.OpenClosePositions{States: []*traits.OpenClosePosition{pos(2, float32(n+20)), pos(3, 30)}}
				res, err := m.UpdatePositions(in)
				out(l, "UpdatePositions", res, err)
				l.In("UpdatePositions", in, changed(in.States[0]))
			}},
		},
		Backs: []Back{
			back("UpdatePositions", func(in *traits.OpenClosePositions) (*traits.OpenClosePositions, error) { return m.UpdatePositions(in) }),
			back("UpdatePosition", func(in *traits.OpenClosePosition) (*traits.OpenClosePosition, error) { return m.UpdatePosition(in) }),
			back("UpdatePositionN", func(in *traits.OpenClosePosition) (*traits.OpenClosePosition, error) { return m.UpdatePositionN(2, in) }),
		},
		Reads: []Op{
			{"GetPositions", func(l Log, n int) {
				res, err := m.GetPositions(mask(n, "direction")...)
				out(l, "GetPositions", res, err)
			}},
			{"GetPosition", func(l Log, n int) {
				res, err := m.GetPosition(1, mask(n, "direction")...)
				out(l, "GetPosition", res, err)
			}},
			{"ListPresets", func(l Log, n int) { outAll(l, "ListPresets", m.ListPresets()) }},
			{"HasPreset", func(l Log, n int) { m.HasPreset([]string{"open", "none"}[n]) }},
		},
		Pulls: []Pull{
			{"PullPositions", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
				return chanOf(m.PullPositions(ctx, opts...), func(c openclosepb.PullOpenClosePositionsChange) []proto.Message {
					return []proto.Message{c.Positions}
				})
			}},
			{"PullPositions masked", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
				opts = append([]resource.ReadOption{resource.WithReadMask(hx.Mask("states.direction", "preset.name"))}, opts...)
				return chanOf(m.PullPositions(ctx, opts...), func(c openclosepb.PullOpenClosePositionsChange) []proto.Message {
					return []proto.Message{c.Positions}
				})
			}},
		},
	}
}

func Parent() *Model {
	m := parentpb.NewModel(clock(), parentpb.WithInitialChildren(
		&traits.Child{Name: "n", Traits: []*traits.Trait{{Name: "a"}, {Name: "c"}, {Name: "e"}}}))
	names := [][]trait.Name{{"b", "c"}, {"a"}}
	return &Model{
		Name: "parentpb",
		Writes: []Op{
			{"AddChildTrait", func(l Log, n int) {
				res, _ := m.AddChildTrait("n", names[n]...)
				l.Out("AddChildTrait", res)
			}},
			{"RemoveChildTrait", func(l Log, n int) {
				if res := m.RemoveChildTrait("n", names[n]...); res != nil {
					l.Out("RemoveChildTrait", res)
				}
			}},
			{"AddChild", func(l Log, n int) {
				in := &traits.Child{Name: reason(n), Traits: []*traits.Trait{{Name: "a"}}}
				m.AddChild(in)
				l.In("AddChild", in, func() { in.Name, in.Traits[0].Name = "changed", "changed" })
			}},
			{"RemoveChildByName", func(l Log, n int) {
				res, err := m.RemoveChildByName("n")
				out(l, "RemoveChildByName", res, err)
			}},
		},
		Backs: []Back{
			back("AddChild", func(in *traits.Child) (*traits.Child, error) { m.AddChild(in); return nil, errSkip }),
		},
		Reads: []Op{{"ListChildren", func(l Log, n int) { outAll(l, "ListChildren", m.ListChildren()) }}},
		Pulls: []Pull{{"PullChildren", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullChildren(ctx, opts...), func(c *traits.PullChildrenResponse_Change) []proto.Message {
				return []proto.Message{c}
			})
		}}},
	}
}

func Press() *Model {
	m := presspb.NewModel(traits.PressedState_UNPRESSED)
	return &Model{
		Name: "presspb",
		Writes: []Op{{"UpdatePressedState", func(l Log, n int) {
			in := &traits.PressedState{State: traits.PressedState_Press(n + 1), StateChangeTime: stamp(n), MostRecentGesture: &traits.PressedState_Gesture{Id: reason(n)}}
			res, err := m.UpdatePressedState(in)
			out(l, "UpdatePressedState", res, err)
			l.In("UpdatePressedState", in, func() { in.StateChangeTime.Seconds, in.MostRecentGesture.Id = 1, "changed" })
		}}},
		Backs: []Back{
			back("UpdatePressedState", func(in *traits.PressedState) (*traits.PressedState, error) { return m.UpdatePressedState(in) }),
		},
		Reads: []Op{{"GetPressedState", func(l Log, n int) {
			l.Out("GetPressedState", m.GetPressedState(mask(n, "most_recent_gesture.id")...))
		}}},
		Pulls: []Pull{{"PullPressedState", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullPressedState(ctx, opts...), func(c presspb.PullPressedStateChange) []proto.Message {
				return []proto.Message{c.Value}
			})
		}}},
	}
}

func Publication() *Model {
	m := publicationpb.NewModel(clock(), publicationpb.WithInitialPublication(
		&traits.Publication{Id: "a", Body: []byte("x"), Audience: &traits.Publication_Audience{Name: "n"}}))
	changed := func(in *traits.Publication) func() {
		return func() { in.Body[0], in.Audience.Name, in.MediaType = 'z', "changed", "changed" }
	}
	return &Model{
		Name: "publicationpb",
		Writes: []Op{
			{"UpdatePublication", func(l Log, n int) {
				in := &traits.Publication{Id: "a", Body: []byte(reason(n)), Audience: &traits.Publication_Audience{Name: "m"}}
				res, err := m.UpdatePublication("a", in)
				out(l, "UpdatePublication", res, err)
				l.In("UpdatePublication", in, changed(in))
			}},
			{"CreatePublication", func(l Log, n int) {
				in := &traits.Publication{Id: reason(n), Body: []byte(reason(n)), Audience: &traits.Publication_Audience{Name: "m"}}
				res, err := m.CreatePublication(in)
				out(l, "CreatePublication", res, err)
				l.In("CreatePublication", in, changed(in))
			}},
			{"UpdatePublication new version", func(l Log, n int) {
				in := &traits.Publication{Id: "a", Body: []byte(reason(n)), Audience: &traits.Publication_Audience{Name: "m"}}
				res, err := m.UpdatePublication("a", in, publicationpb.WithNewVersion(), publicationpb.WithResetReceipt())
				out(l, "UpdatePublication", res, err)
				l.In("UpdatePublication", in, changed(in))
			}},
			{"DeletePublication", func(l Log, n int) {
				res, err := m.DeletePublication("a")
				out(l, "DeletePublication", res, err)
			}},
		},
		Backs: []Back{
			back("UpdatePublication", func(in *traits.Publication) (*traits.Publication, error) {
				return m.UpdatePublication("a", in, publicationpb.WithNewVersion())
			}),
			back("CreatePublication", func(in *traits.Publication) (*traits.Publication, error) { return m.CreatePublication(in) }),
		},
		Reads: []Op{
			{"ListPublications", func(l Log, n int) { outAll(l, "ListPublications", m.ListPublications(mask(n, "audience.name")...)) }},
			{"GetPublication", func(l Log, n int) {
				if res, ok := m.GetPublication("a", mask(n, "body")...); ok {
					l.Out("GetPublication", res)
				}
			}},
		},
		Pulls: []Pull{
			{"PullPublications", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
				return chanOf(m.PullPublications(ctx, opts...), func(c publicationpb.PublicationsChange) []proto.Message {
					return both(c.OldValue, c.NewValue)
				})
			}},
			{"PullPublication", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
				return chanOf(m.PullPublication(ctx, "a", opts...), func(c publicationpb.PublicationChange) []proto.Message {
					return []proto.Message{c.Value}
				})
			}},
		},
	}
}

func newVending() *vendingpb.Model {
	q := func(a float32) *traits.Consumable_Quantity {
		return &traits.Consumable_Quantity{Amount: a, Unit: traits.Consumable_METER}
	}
	return vendingpb.NewModel(clock(),
		vendingpb.WithInitialConsumable(&traits.Consumable{Name: "a", DefaultPortion: q(1), Ids: map[string]string{"k": "v"}}),
		vendingpb.WithInitialStock(&traits.Consumable_Stock{Consumable: "a", Used: q(1), Remaining: q(10)}))
}

func Consumables() *Model {
	m := newVending()
	changed := func(in *traits.Consumable) func() {
		return func() { in.Title, in.Ids["k"], in.DefaultPortion.Amount = "changed", "changed", 99 }
	}
	consumable := func(name string, n int) *traits.Consumable {
		return &traits.Consumable{Name: name, Title: reason(n), Ids: map[string]string{"k": reason(n)}, DefaultPortion: &traits.Consumable_Quantity{Amount: float32(n)}}
	}
	return &Model{
		Name: "vendingpb consumables",
		Writes: []Op{
			{"UpdateConsumable", func(l Log, n int) {
				in := consumable("a", n)
				res, err := m.UpdateConsumable(in)
				out(l, "UpdateConsumable", res, err)
				l.In("UpdateConsumable", in, changed(in))
			}},
			{"DeleteConsumable", func(l Log, n int) {
				res, err := m.DeleteConsumable("a")
				out(l, "DeleteConsumable", res, err)
			}},
			{"CreateConsumable", func(l Log, n int) {
				in := consumable([]string{"a", "b"}[n], n)
				res, err := m.CreateConsumable(in)
				out(l, "CreateConsumable", res, err)
				l.In("CreateConsumable", in, changed(in))
			}},
		},
		Backs: []Back{
			back("UpdateConsumable", func(in *traits.Consumable) (*traits.Consumable, error) { return m.UpdateConsumable(in) }),
			back("CreateConsumable", func(in *traits.Consumable) (*traits.Consumable, error) { return m.CreateConsumable(in) }),
		},
		Reads: []Op{
			{"ListConsumables", func(l Log, n int) { outAll(l, "ListConsumables", m.ListConsumables(mask(n, "ids")...)) }},
			{"GetConsumable", func(l Log, n int) {
				if res, ok := m.GetConsumable("a", mask(n, "default_portion.amount")...); ok {
					l.Out("GetConsumable", res)
				}
			}},
		},
		Pulls: []Pull{
			{"PullConsumables", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
				return chanOf(m.PullConsumables(ctx, opts...), func(c vendingpb.ConsumablesChange) []proto.Message {
					return both(c.OldValue, c.NewValue)
				})
			}},
			{"PullConsumable", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
				return chanOf(m.PullConsumable(ctx, "a", opts...), func(c vendingpb.ConsumableChange) []proto.Message {
					return []proto.Message{c.Value}
				})
			}},
		},
	}
}

func Inventory() *Model {
	m := newVending()
	return &Model{
		Name: "vendingpb inventory",
		Writes: []Op{
			{"DispenseInstantly", func(l Log, n int) {
				in := &traits.Consumable_Quantity{Amount: float32(n + 1), Unit: traits.Consumable_METER}
				res, err := m.DispenseInstantly("a", in)
				out(l, "DispenseInstantly", res, err)
				l.In("DispenseInstantly", in, func() { in.Amount = 99 })
			}},
			{"UpdateStock", func(l Log, n int) {
				in := &traits.Consumable_Stock{Consumable: "a", Used: &traits.Consumable_Quantity{Amount: float32(n + 3), Unit: traits.Consumable_METER}}
				res, err := m.UpdateStock(in)
				out(l, "UpdateStock", res, err)
				l.In("UpdateStock", in, func() { in.Used.Amount, in.Consumable = 99, "changed" })
			}},
			{"DeleteStock", func(l Log, n int) {
				res, err := m.DeleteStock("a")
				out(l, "DeleteStock", res, err)
			}},
			{"CreateStock", func(l Log, n int) {
				in := &traits.Consumable_Stock{Consumable: []string{"a", "b"}[n], Used: &traits.Consumable_Quantity{Amount: 1}}
				res, err := m.CreateStock(in)
				out(l, "CreateStock", res, err)
				l.In("CreateStock", in, func() { in.Used.Amount, in.Consumable = 99, "changed" })
			}},
		},
		Backs: []Back{
			back("UpdateStock", func(in *traits.Consumable_Stock) (*traits.Consumable_Stock, error) { return m.UpdateStock(in) }),
			back("CreateStock", func(in *traits.Consumable_Stock) (*traits.Consumable_Stock, error) { return m.CreateStock(in) }),
			back("DispenseInstantly", func(in *traits.Consumable_Stock) (*traits.Consumable_Stock, error) {
				if in.Used == nil {
					return nil, errSkip
				}
				return m.DispenseInstantly("a", in.Used)
			}),
		},
		Reads: []Op{
			{"ListInventory", func(l Log, n int) { outAll(l, "ListInventory", m.ListInventory(mask(n, "used.amount")...)) }},
			{"GetStock", func(l Log, n int) {
				if res, ok := m.GetStock("a", mask(n, "remaining.amount")...); ok {
					l.Out("GetStock", res)
				}
			}},
		},
		Pulls: []Pull{
			{"PullInventory", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
				return chanOf(m.PullInventory(ctx, opts...), func(c vendingpb.InventoryChange) []proto.Message {
					return both(c.OldValue, c.NewValue)
				})
			}},
			{"PullStock", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
				return chanOf(m.PullStock(ctx, "a", opts...), func(c vendingpb.StockChange) []proto.Message { return []proto.Message{c.Value} })
			}},
		},
	}
}

func Waste() *Model {
	m := wastepb.NewModel(clock())
	return &Model{
		Name: "wastepb",
		Writes: []Op{{"AddWasteRecord", func(l Log, n int) {
			in := &traits.WasteRecord{Id: reason(n), Weight: float32(n), WasteCreateTime: stamp(n), Area: "a"}
			res, err := m.AddWasteRecord(in)
			out(l, "AddWasteRecord", res, err)
			l.In("AddWasteRecord", in, func() { in.Weight, in.WasteCreateTime.Seconds, in.Area = 99, 1, "changed" })
		}}, {"GenerateWasteRecord", func(l Log, n int) {
			in := stamp(n)
			res, err := m.GenerateWasteRecord(in)
			out(l, "GenerateWasteRecord", res, err)
		}}},
		Backs: []Back{
			back("AddWasteRecord", func(in *traits.WasteRecord) (*traits.WasteRecord, error) { return m.AddWasteRecord(in) }),
		},
		Reads: []Op{
			{"ListWasteRecords", func(l Log, n int) {
				outAll(l, "ListWasteRecords", m.ListWasteRecords(m.GetWasteRecordCount(), 2))
			}},
		},
		Pulls: []Pull{{"PullWasteRecords", func(ctx context.Context, opts ...resource.ReadOption) func() ([]proto.Message, bool) {
			return chanOf(m.PullWasteRecords(ctx, opts...), func(c *traits.PullWasteRecordsResponse_Change) []proto.Message {
				return []proto.Message{c}
			})
		}}},
	}
}
