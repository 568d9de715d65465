// Package c14: trait servers are coherent registers through the full stack.
package c14

import (
	"context"
	"strings"
	"sync"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	pref "google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"

	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/router"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/countpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/emergencypb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
)

type call struct {
	req   func() proto.Message
	res   func() proto.Message
	unary func(ctx context.Context, c any, q proto.Message) (proto.Message, error)
	open  func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error)
}

type service struct {
	name   string
	desc   *grpc.ServiceDesc
	router func(opts ...router.Option) router.Router
	wrap   func(s any) any
	add    func(r any, n string, c any) any
	calls  map[string]call
}

func iface[T any](c T) any { return c }

func msg[T proto.Message](m T, err error) (proto.Message, error) {
	if err != nil {
		return nil, err
	}
	return m, nil
}

func open[T grpc.ClientStream](s T, err error) (grpc.ClientStream, error) {
	if err != nil {
		return nil, err
	}
	return s, nil
}

// spec is a resource of a server.
type spec struct {
	name           string
	service        string // row of services
	get, upd, pull string // methods, upd is empty when only the model can change the resource
	updService     string // when Update is another service's
	server         func() (any, func(proto.Message) (proto.Message, error))
	id             map[string]string      // fields of requests and values that name the resource
	values         map[string][]string    // vocabulary of string fields
	tol            *tolerance             // changes within it need not be sent
	manySteps      bool                   // one update may be seen in steps
	shapes         func() []proto.Message // additional values to write
	nested         []string
	first          func(proto.Message) proto.Message // what Pull starts with, when not the current value
}

var shade = []string{"blue", "red"}

func clocked() resource.Option { return resource.WithClock(&hx.Clock{}) }

func publication() (any, func(proto.Message) (proto.Message, error)) {
	m := publicationpb.NewModel(clocked())
	s := publicationpb.NewModelServer(m)
	if _, err := s.CreatePublication(context.Background(), &traits.CreatePublicationRequest{Publication: &traits.Publication{Id: "p", Body: []byte("x")}}); err != nil {
		sym.Fail("setup", err)
	}
	return s, nil
}

func electric() *electricpb.Model {
	return electricpb.NewModel(electricpb.WithClock(&tm.Clock{T: hx.Clock{}}),
		electricpb.WithInitialMode(&traits.ElectricMode{Id: "a", Title: "A", Normal: true}, &traits.ElectricMode{Id: "b", Title: "B", Description: "x"}))
}

var specs = []spec{
	{name: "onoff", service: "onoffpb.ApiRouter", get: "GetOnOff", upd: "UpdateOnOff", pull: "PullOnOff", server: func() (any, func(proto.Message) (proto.Message, error)) {
		return onoffpb.NewModelServer(onoffpb.NewModel(clocked())), nil
	}},
	{name: "light model", service: "lightpb.ApiRouter", get: "GetBrightness", upd: "UpdateBrightness", pull: "PullBrightness", server: func() (any, func(proto.Message) (proto.Message, error)) {
		return lightpb.NewModelServer(lightpb.NewModel(clocked(), lightpb.WithPreset(40, &traits.LightPreset{Name: "dim", Title: "Dim"}))), nil
	}, shapes: func() []proto.Message {
		return []proto.Message{&traits.Brightness{Preset: &traits.LightPreset{Name: "dim"}}, &traits.Brightness{Preset: &traits.LightPreset{Name: "none"}}}
	}, nested: []string{"preset.name"}},
	{name: "light device", service: "lightpb.ApiRouter", get: "GetBrightness", upd: "UpdateBrightness", pull: "PullBrightness", server: func() (any, func(proto.Message) (proto.Message, error)) {
		return lightpb.NewMemoryDevice(), nil
	}, shapes: func() []proto.Message {
		return []proto.Message{&traits.Brightness{Preset: &traits.LightPreset{Name: "dim"}}, &traits.Brightness{LevelPercent: 150}, &traits.Brightness{LevelPercent: -5}}
	}},
	{name: "airtemperature model", service: "airtemperaturepb.ApiRouter", get: "GetAirTemperature", upd: "UpdateAirTemperature", pull: "PullAirTemperature", server: func() (any, func(proto.Message) (proto.Message, error)) {
		return airtemperaturepb.NewModelServer(airtemperaturepb.NewModel(clocked())), nil
	}, nested: []string{"ambient_temperature.value_celsius", "temperature_set_point.value_celsius"}},
	{name: "airtemperature device", service: "airtemperaturepb.ApiRouter", get: "GetAirTemperature", upd: "UpdateAirTemperature", pull: "PullAirTemperature", server: func() (any, func(proto.Message) (proto.Message, error)) {
		return airtemperaturepb.NewMemoryDevice(), nil
	}},
	{name: "count device", service: "countpb.ApiRouter", get: "GetCount", upd: "UpdateCount", pull: "PullCounts", server: func() (any, func(proto.Message) (proto.Message, error)) {
		return countpb.NewMemoryDevice(), nil
	}},
	{name: "emergency device", service: "emergencypb.ApiRouter", get: "GetEmergency", upd: "UpdateEmergency", pull: "PullEmergency", server: func() (any, func(proto.Message) (proto.Message, error)) {
		return emergencypb.NewMemoryDevice(), nil
	}},
	{name: "speaker device", service: "speakerpb.ApiRouter", get: "GetVolume", upd: "UpdateVolume", pull: "PullVolume", server: func() (any, func(proto.Message) (proto.Message, error)) {
		return speakerpb.NewMemoryDevice(&types.AudioLevel{Gain: 30}), nil
	}},
	{name: "fanspeed", tol: &tolerance{float: 0.01}, service: "fanspeedpb.ApiRouter", get: "GetFanSpeed", upd: "UpdateFanSpeed", pull: "PullFanSpeed", values: map[string][]string{"preset": {"low", "high", "none"}}, server: func() (any, func(proto.Message) (proto.Message, error)) {
		return fanspeedpb.NewModelServer(fanspeedpb.NewModel(clocked())), nil
	}},
	{name: "mode", service: "modepb.ApiRouter", get: "GetModeValues", upd: "UpdateModeValues", pull: "PullModeValues", values: map[string][]string{"values": {"medium", "whites"}}, server: func() (any, func(proto.Message) (proto.Message, error)) {
		return modepb.NewModelServer(modepb.NewModel()), nil
	}},
	{name: "press", service: "presspb.ApiRouter", get: "GetPressedState", upd: "UpdatePressedState", pull: "PullPressedState", server: func() (any, func(proto.Message) (proto.Message, error)) {
		return presspb.NewModelServer(presspb.NewModel(traits.PressedState_UNPRESSED)), nil
	}},
	{name: "openclose", service: "openclosepb.ApiRouter", get: "GetPositions", upd: "UpdatePositions", pull: "PullPositions", manySteps: true, server: func() (any, func(proto.Message) (proto.Message, error)) {
		return openclosepb.NewModelServer(openclosepb.NewModel(clocked(),
			openclosepb.WithInitialPositions(&traits.OpenClosePosition{Direction: 1, OpenPercent: 5}, &traits.OpenClosePosition{Direction: 2, OpenPercent: 7}),
			openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "open", Title: "Open"}, &traits.OpenClosePosition{Direction: 1, OpenPercent: 100}, &traits.OpenClosePosition{Direction: 2, OpenPercent: 100}))), nil
	}, shapes: positions, nested: []string{"states.direction", "preset.name"}},
	{name: "openclose empty", service: "openclosepb.ApiRouter", get: "GetPositions", upd: "UpdatePositions", pull: "PullPositions", manySteps: true, server: func() (any, func(proto.Message) (proto.Message, error)) {
		return openclosepb.NewModelServer(openclosepb.NewModel(clocked())), nil
	}, shapes: positions, nested: []string{"states.direction"}},
	{name: "hail", service: "hailpb.ApiRouter", get: "GetHail", upd: "UpdateHail", pull: "PullHail", id: map[string]string{"id": "h"}, server: func() (any, func(proto.Message) (proto.Message, error)) {
		return hailpb.NewModelServer(hailpb.NewModel(clocked(), resource.WithInitialRecord("h", &traits.Hail{Id: "h", State: traits.Hail_CALLED}))), nil
	}},
	{name: "publication", service: "publicationpb.ApiRouter", get: "GetPublication", upd: "UpdatePublication", pull: "PullPublication", id: map[string]string{"id": "p"}, server: publication},
	{name: "stock", service: "vendingpb.ApiRouter", get: "GetStock", upd: "UpdateStock", pull: "PullStock", id: map[string]string{"consumable": "c"}, server: func() (any, func(proto.Message) (proto.Message, error)) {
		return vendingpb.NewModelServer(vendingpb.NewModel(clocked(), vendingpb.WithInitialStock(&traits.Consumable_Stock{Consumable: "c", Used: &traits.Consumable_Quantity{Amount: 1}}))), nil
	}, nested: []string{"used.amount"}},
	{name: "electric demand", service: "electricpb.ApiRouter", get: "GetDemand", upd: "UpdateDemand", updService: "electricpb.MemorySettingsApiRouter", pull: "PullDemand", tol: &tolerance{float: 0.01}, server: func() (any, func(proto.Message) (proto.Message, error)) {
		return electricpb.NewModelServer(electric()), nil
	}},
	{name: "electric active mode", service: "electricpb.ApiRouter", get: "GetActiveMode", upd: "UpdateActiveMode", pull: "PullActiveMode", values: map[string][]string{"id": {"a", "b", "c"}}, server: func() (any, func(proto.Message) (proto.Message, error)) {
		return electricpb.NewModelServer(electric()), nil
	}},

	// changed by the model only
	{name: "access", service: "accesspb.ApiRouter", get: "GetLastAccessAttempt", pull: "PullAccessAttempts", server: func() (any, func(proto.Message) (proto.Message, error)) {
		m := accesspb.NewModel(clocked())
		return accesspb.NewModelServer(m), func(v proto.Message) (proto.Message, error) {
			return msg(m.UpdateLastAccessAttempt(v.(*traits.AccessAttempt)))
		}
	}},
	{name: "airquality", service: "airqualitysensorpb.ApiRouter", get: "GetAirQuality", pull: "PullAirQuality", server: func() (any, func(proto.Message) (proto.Message, error)) {
		m := airqualitysensorpb.NewModel(clocked())
		return airqualitysensorpb.NewModelServer(m), func(v proto.Message) (proto.Message, error) {
			return msg(m.UpdateAirQuality(v.(*traits.AirQuality)))
		}
	}},
	{name: "energystorage", tol: &tolerance{float: 0.1, secs: 1}, service: "energystoragepb.ApiRouter", get: "GetEnergyLevel", pull: "PullEnergyLevel", server: func() (any, func(proto.Message) (proto.Message, error)) {
		m := energystoragepb.NewModel(clocked())
		return energystoragepb.NewModelServer(m), func(v proto.Message) (proto.Message, error) {
			return msg(m.UpdateEnergyLevel(v.(*traits.EnergyLevel)))
		}
	}},
	{name: "meter", service: "meterpb.ApiRouter", get: "GetMeterReading", pull: "PullMeterReadings", server: func() (any, func(proto.Message) (proto.Message, error)) {
		m := meterpb.NewModel(clocked())
		return meterpb.NewModelServer(m), func(v proto.Message) (proto.Message, error) {
			return msg(m.UpdateMeterReading(v.(*traits.MeterReading)))
		}
	}},
	{name: "metadata", service: "metadatapb.ApiRouter", get: "GetMetadata", pull: "PullMetadata", server: func() (any, func(proto.Message) (proto.Message, error)) {
		m := metadatapb.NewModel(clocked())
		return metadatapb.NewModelServer(m), func(v proto.Message) (proto.Message, error) {
			if sym.Flip("merge") {
				return msg(m.MergeMetadata(v.(*traits.Metadata)))
			}
			return msg(m.UpdateMetadata(v.(*traits.Metadata)))
		}
	}, shapes: func() []proto.Message {
		return []proto.Message{
			&traits.Metadata{Traits: []*traits.TraitMetadata{{Name: "a"}, {Name: "b", More: map[string]string{"k": "v"}}}},
			&traits.Metadata{Name: "n", Traits: []*traits.TraitMetadata{{Name: "b", More: map[string]string{"l": "w"}}}},
		}
	}, nested: []string{"traits.name", "appearance.title"}},
	{name: "enterleave", service: "enterleavesensorpb.ApiRouter", get: "GetEnterLeaveEvent", pull: "PullEnterLeaveEvents", first: func(v proto.Message) proto.Message {
		e := proto.Clone(v).(*traits.EnterLeaveEvent)
		e.Occupant, e.Direction = nil, 0 // the initial message isn't an event
		return e
	}, server: func() (any, func(proto.Message) (proto.Message, error)) {
		m := enterleavesensorpb.NewModel(clocked())
		return enterleavesensorpb.NewModelServer(m), func(v proto.Message) (proto.Message, error) {
			if err := m.CreateEnterLeaveEvent(v.(*traits.EnterLeaveEvent)); err != nil {
				return nil, err
			}
			return msg(m.GetEnterLeaveEvent())
		}
	}},
	{name: "occupancy", service: "occupancysensorpb.ApiRouter", get: "GetOccupancy", pull: "PullOccupancy", server: func() (any, func(proto.Message) (proto.Message, error)) {
		m := occupancysensorpb.NewModel(clocked())
		return occupancysensorpb.NewModelServer(m), func(v proto.Message) (proto.Message, error) {
			return msg(m.SetOccupancy(v.(*traits.Occupancy)))
		}
	}},
}

func positions() []proto.Message {
	pos := func(d traits.OpenClosePosition_Direction, p float32) *traits.OpenClosePosition {
		return &traits.OpenClosePosition{Direction: d, OpenPercent: p}
	}
	return []proto.Message{
		&traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: "open"}},
		&traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: "none"}},
		&traits.OpenClosePositions{States: []*traits.OpenClosePosition{pos(2, 20)}},
		&traits.OpenClosePositions{States: []*traits.OpenClosePosition{pos(3, 30), pos(1, 10)}},
		&traits.OpenClosePositions{States: []*traits.OpenClosePosition{pos(1, 100), pos(2, 100)}},
	}
}

// tolerance is what a model takes for the same value.
type tolerance struct {
	float float64
	secs  int64 // of times and durations
}

// same tells that a and b are messages equal within the tolerance. A float32 tolerance isn't exact, so take a little more.
func (t *tolerance) same(a, b pref.Message) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	switch a.Descriptor().FullName() {
	case "google.protobuf.Timestamp", "google.protobuf.Duration":
		s := a.Descriptor().Fields().ByName("seconds")
		d := a.Get(s).Int() - b.Get(s).Int()
		return proto.Equal(a.Interface(), b.Interface()) || d <= t.secs && d >= -t.secs
	}
	fs := a.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if a.Has(f) != b.Has(f) && (f.HasPresence() || f.IsList() || f.IsMap()) {
			return false
		}
		switch x, y := a.Get(f), b.Get(f); {
		case f.IsMap() || f.IsList():
			if !a.Has(f) {
				continue
			}
			if !f.IsList() || f.Kind() != pref.MessageKind {
				if !x.Equal(y) {
					return false
				}
				continue
			}
			if x.List().Len() != y.List().Len() {
				return false
			}
			for j := 0; j < x.List().Len(); j++ {
				if !t.same(x.List().Get(j).Message(), y.List().Get(j).Message()) {
					return false
				}
			}
		case f.Kind() == pref.MessageKind:
			if a.Has(f) && !t.same(x.Message(), y.Message()) {
				return false
			}
		case f.Kind() == pref.FloatKind || f.Kind() == pref.DoubleKind:
			if d := x.Float() - y.Float(); d > t.float*1.1 || d < -t.float*1.1 {
				return false
			}
		default:
			if !x.Equal(y) {
				return false
			}
		}
	}
	return true
}

func row(name string) *service {
	for _, s := range services {
		if s.name == name {
			return s
		}
	}
	sym.Fail("no-service", name)
	return nil
}

// stack is a client of router over clients of two servers, named dev and other.
type stack struct {
	*spec
	s        *service
	client   any
	updS     *service
	updCl    any
	set      func(proto.Message) (proto.Message, error)
	template proto.Message // empty value
	lean     bool          // updates of all fields only
}

func build(sp *spec) *stack {
	st := &stack{spec: sp, s: row(sp.service)}
	server, set := sp.server()
	other, _ := sp.server()
	up := func(s *service) any {
		r := s.router()
		s.add(r, "other", s.wrap(other))
		s.add(r, "dev", s.wrap(server))
		return s.wrap(r)
	}
	st.client, st.set = up(st.s), set
	st.updS, st.updCl = st.s, st.client
	if sp.updService != "" {
		st.updS = row(sp.updService)
		st.updCl = up(st.updS)
	}
	return st
}

func field(m proto.Message, name string) pref.FieldDescriptor {
	return m.ProtoReflect().Descriptor().Fields().ByName(pref.Name(name))
}

func setStr(m proto.Message, name, v string) {
	if f := field(m, name); f != nil && f.Kind() == pref.StringKind {
		m.ProtoReflect().Set(f, pref.ValueOfString(v))
	}
}

func (st *stack) request(c call, mask *fieldmaskpb.FieldMask, maskField string) proto.Message {
	q := c.req()
	setStr(q, "name", "dev")
	for k, v := range st.id {
		setStr(q, k, v)
	}
	if mask != nil {
		f := field(q, maskField)
		if f == nil {
			sym.Fail("no-mask-field "+st.name, maskField)
		}
		q.ProtoReflect().Set(f, pref.ValueOfMessage(mask.ProtoReflect()))
	}
	return q
}

func (st *stack) read(mask *fieldmaskpb.FieldMask) (proto.Message, error) {
	c := st.s.calls[st.get]
	return c.unary(context.Background(), st.client, st.request(c, mask, "read_mask"))
}

// value is the current value, reading it must succeed.
func (st *stack) value(label string, mask *fieldmaskpb.FieldMask) proto.Message {
	m, err := st.read(mask)
	if err != nil {
		sym.Fail(label+" "+st.name, "Get", err, "mask", mask)
		sym.Assume(false)
	}
	return m
}

// update writes v; flag is the relative or delta flag of the request, if there is one.
func (st *stack) update(v proto.Message, mask *fieldmaskpb.FieldMask, flag bool) (proto.Message, error) {
	if st.upd == "" {
		return st.set(v)
	}
	c := st.updS.calls[st.upd]
	q := st.request(c, mask, "update_mask")
	fs := q.ProtoReflect().Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		switch {
		case f.Message() != nil && !f.IsList() && !f.IsMap() && f.Message().FullName() == v.ProtoReflect().Descriptor().FullName():
			q.ProtoReflect().Set(f, pref.ValueOfMessage(v.ProtoReflect()))
		case f.Name() == "delta" || f.Name() == "relative":
			if f.Kind() == pref.BoolKind && flag {
				q.ProtoReflect().Set(f, pref.ValueOfBool(true))
			}
		}
	}
	return c.unary(context.Background(), st.updCl, q)
}

type change struct {
	name  string
	value proto.Message
}

// stream is an open Pull and what was received on it.
type stream struct {
	mask        *fieldmaskpb.FieldMask
	updatesOnly bool
	cancel      context.CancelFunc

	mu  sync.Mutex
	got []change
	err error
}

func (s *stream) take() []change {
	s.mu.Lock()
	defer s.mu.Unlock()
	got := s.got
	s.got = nil
	return got
}

func (st *stack) open(mask *fieldmaskpb.FieldMask, updatesOnly bool) *stream {
	c := st.s.calls[st.pull]
	q := st.request(c, mask, "read_mask")
	if updatesOnly {
		f := field(q, "updates_only")
		if f == nil {
			sym.Fail("no-updates-only " + st.name)
		}
		q.ProtoReflect().Set(f, pref.ValueOfBool(true))
	}
	s := &stream{mask: mask, updatesOnly: updatesOnly}
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	cs, err := c.open(ctx, st.client, q)
	if err != nil {
		sym.Fail("pull-error "+st.name, err)
		sym.Assume(false)
	}
	go func() {
		for {
			res := c.res()
			err := cs.RecvMsg(res)
			s.mu.Lock()
			if err != nil {
				s.err = err
				s.mu.Unlock()
				return
			}
			r := res.ProtoReflect()
			list := r.Get(field(res, "changes")).List()
			for i := 0; i < list.Len(); i++ {
				m := list.Get(i).Message()
				ch := change{name: m.Get(m.Descriptor().Fields().ByName("name")).String()}
				fs := m.Descriptor().Fields()
				for j := 0; j < fs.Len(); j++ {
					if f := fs.Get(j); f.Message() != nil && f.Message().FullName() == st.template.ProtoReflect().Descriptor().FullName() {
						ch.value = m.Get(f).Message().Interface()
					}
				}
				s.got = append(s.got, ch)
			}
			s.mu.Unlock()
		}
	}()
	sym.Quiesce()
	return s
}

// project is the projection of m onto paths, by definition.
func project(m proto.Message, mask *fieldmaskpb.FieldMask) proto.Message {
	if mask == nil || len(mask.Paths) == 0 {
		return m
	}
	sub := map[string][]string{}
	whole := map[string]bool{}
	for _, p := range mask.Paths {
		head, rest, nested := strings.Cut(p, ".")
		if nested {
			sub[head] = append(sub[head], rest)
		} else {
			whole[head] = true
		}
	}
	src := m.ProtoReflect()
	dst := src.New()
	fs := src.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if !src.Has(f) {
			continue
		}
		name := string(f.Name())
		switch {
		case whole[name]:
			dst.Set(f, src.Get(f))
		case sub[name] != nil && f.IsList():
			l := dst.NewField(f).List()
			from := src.Get(f).List()
			for j := 0; j < from.Len(); j++ {
				l.Append(pref.ValueOfMessage(project(from.Get(j).Message().Interface(), hx.Mask(sub[name]...)).ProtoReflect()))
			}
			dst.Set(f, pref.ValueOfList(l))
		case sub[name] != nil:
			dst.Set(f, pref.ValueOfMessage(project(src.Get(f).Message().Interface(), hx.Mask(sub[name]...)).ProtoReflect()))
		}
	}
	return dst.Interface()
}

// fill gives field f of m a value. Leaves are symbolic for a numbered id, or constants made of k.
func (st *stack) fill(m pref.Message, f pref.FieldDescriptor, id string, k int, depth int) {
	one := func(f pref.FieldDescriptor) (pref.Value, bool) {
		switch f.Kind() {
		case pref.StringKind:
			if words := st.values[string(f.Name())]; words != nil && depth == 0 {
				if id != "" {
					k = sym.Choice(id+string(f.Name()), len(words))
				}
				return pref.ValueOfString(words[k%len(words)]), true
			}
			if id != "" {
				k = sym.Choice(id+string(f.Name()), 2)
			}
			return pref.ValueOfString(shade[k%2]), true
		case pref.BytesKind:
			return pref.ValueOfBytes([]byte(shade[k%2])), true
		case pref.BoolKind:
			if id != "" {
				return pref.ValueOfBool(sym.Bool(id + string(f.Name()))), true
			}
			return pref.ValueOfBool(k%2 == 0), true
		case pref.Int32Kind:
			if id != "" {
				return pref.ValueOfInt32(int32(sym.Int(id+string(f.Name()), -5, 10))), true
			}
			return pref.ValueOfInt32(int32(k + 1)), true
		case pref.Int64Kind:
			if id != "" {
				return pref.ValueOfInt64(int64(sym.Int(id+string(f.Name()), 0, 1000000))), true
			}
			return pref.ValueOfInt64(int64(k + 100)), true
		case pref.EnumKind:
			if id != "" {
				return pref.ValueOfEnum(pref.EnumNumber(sym.Int(id+string(f.Name()), 0, 4))), true
			}
			return pref.ValueOfEnum(pref.EnumNumber(k + 1)), true
		case pref.FloatKind, pref.DoubleKind:
			v := float64(k*10 + 15)
			if id != "" {
				v = []float64{0, 15, 15.001, 75, 100}[sym.Choice(id+string(f.Name()), 5)]
			}
			if f.Kind() == pref.FloatKind {
				return pref.ValueOfFloat32(float32(v)), true
			}
			return pref.ValueOfFloat64(v), true
		}
		return pref.Value{}, false
	}
	switch {
	case f.IsMap():
		mp := m.NewField(f).Map()
		if f.MapKey().Kind() != pref.StringKind || f.MapValue().Kind() != pref.StringKind {
			return
		}
		words := st.values[string(f.Name())]
		if words == nil {
			words = shade
		}
		if id != "" {
			k = sym.Choice(id+string(f.Name()), len(words))
		}
		mp.Set(pref.ValueOfString("temperature").MapKey(), pref.ValueOfString(words[k%len(words)]))
		m.Set(f, pref.ValueOfMap(mp))
	case f.IsList():
		if f.Kind() == pref.MessageKind {
			return // shapes has those
		}
		if v, ok := one(f); ok {
			l := m.NewField(f).List()
			l.Append(v)
			m.Set(f, pref.ValueOfList(l))
		}
	case f.Kind() == pref.MessageKind:
		if depth > 1 || f.Name() == "brightness_tween" {
			return // tweens change by themselves
		}
		sub := m.NewField(f).Message()
		fs := sub.Descriptor().Fields()
		for i := 0; i < fs.Len(); i++ {
			if g := fs.Get(i); g.Name() != "nanos" && (g.ContainingOneof() == nil || g.ContainingOneof().Fields().Get(0) == g) {
				sid := ""
				if id != "" && i < 2 { // leaves of the first fields are symbolic
					sid = id + string(f.Name()) + "."
				}
				st.fill(sub, g, sid, k, depth+1)
			}
		}
		m.Set(f, pref.ValueOfMessage(sub))
	default:
		if v, ok := one(f); ok {
			m.Set(f, v)
		}
	}
}

// all fills all fields of v, which of a oneof depends on n.
func (st *stack) all(v proto.Message, n int) {
	fs := v.ProtoReflect().Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		if g := fs.Get(i); g.ContainingOneof() == nil || g.HasOptionalKeyword() || g.ContainingOneof().Fields().Get(n%g.ContainingOneof().Fields().Len()) == g {
			st.fill(v.ProtoReflect(), g, "", n, 0)
		}
	}
	for k, s := range st.id {
		setStr(v, k, s)
	}
}

// written picks a value to write: nothing, all fields, one field or one of the spec's own.
func (st *stack) written(id string) (v proto.Message, f string) {
	fs := st.template.ProtoReflect().Descriptor().Fields()
	var extra []proto.Message
	if st.shapes != nil {
		extra = st.shapes()
	}
	n := sym.Choice(id+"shape", 3+fs.Len()+len(extra))
	v = proto.Clone(st.template)
	r := v.ProtoReflect()
	switch {
	case n < 3:
		for i := 0; i < fs.Len() && n > 0; i++ {
			if g := fs.Get(i); g.ContainingOneof() == nil || g.HasOptionalKeyword() || g.ContainingOneof().Fields().Get(n%g.ContainingOneof().Fields().Len()) == g {
				st.fill(r, g, "", n, 0)
			}
		}
	case n < 3+fs.Len():
		st.fill(r, fs.Get(n-3), id, 0, 0)
		f = string(fs.Get(n - 3).Name())
	default:
		v = extra[n-3-fs.Len()]
	}
	for k, s := range st.id {
		setStr(v, k, s)
	}
	return v, f
}

// mask picks no mask, the field f or any other single field, or a path that's invalid.
func (st *stack) mask(id, f string, invalid bool) *fieldmaskpb.FieldMask {
	fs := st.template.ProtoReflect().Descriptor().Fields()
	n := 3
	if invalid {
		n++
	}
	switch sym.Choice(id+"mask", n) {
	case 1:
		if f == "" {
			f = string(fs.Get(0).Name())
		}
		return hx.Mask(f)
	case 2:
		k := fs.Len() - 1
		if sym.Thorough() {
			k = sym.Choice(id+"field", fs.Len())
		}
		return hx.Mask(string(fs.Get(k).Name()))
	case 3:
		return hx.Mask("no_such_field")
	}
	return nil
}

func (st *stack) equal(a, b proto.Message) bool {
	return proto.Equal(a, b)
}

// near tells that a change from a to b need not be sent.
func (st *stack) near(a, b proto.Message) bool {
	return proto.Equal(a, b) || st.tol != nil && st.tol.same(a.ProtoReflect(), b.ProtoReflect())
}

func start() *stack {
	if sym.Thorough() {
		sym.Selects(2)
	} else {
		sym.Selects(1)
	}
	sp := &specs[sym.Choice("server", len(specs))]
	st := build(sp)
	m, err := st.read(nil)
	if err != nil {
		sym.Fail("get-error "+sp.name, err)
		sym.Assume(false)
	}
	st.template = m.ProtoReflect().New().Interface()
	return st
}

// step does an update and checks its response, the next Get and every open stream.
func (st *stack) step(id string, streams []*stream) {
	before := st.value("get-error", nil)
	v, f := st.written(id)
	var mask *fieldmaskpb.FieldMask
	flag := false
	if !st.lean {
		mask = st.mask(id, f, st.upd != "")
		flag = st.upd != "" && sym.Flip(id+"flag")
	}
	if flag {
		q := st.updS.calls[st.upd].req()
		sym.Assume(field(q, "delta") != nil || field(q, "relative") != nil && field(q, "relative").Kind() == pref.BoolKind)
	}
	sent := proto.Clone(v)
	var res proto.Message
	var err error
	if e := hx.Catch(func() { res, err = st.update(v, mask, flag) }); e != nil {
		sym.Fail("update-panics "+st.name, e, "value", sent, "mask", mask)
		sym.Assume(false)
	}
	sym.Quiesce()
	after := st.value("get-error", nil)
	if err != nil {
		sym.Cover("rejected")
		sym.Assert("rejected-unchanged "+st.name, st.equal(before, after), err, "before", before, "after", after)
		for _, s := range streams {
			got := s.take()
			sym.Assert("rejected-silent "+st.name, len(got) == 0 && s.err == nil, err, "sent", len(got))
		}
		return
	}
	sym.Assert("response-is-next-get "+st.name, st.equal(res, after), "response", res, "get", after, "written", sent, "mask", mask)
	for _, s := range streams {
		got := s.take()
		if s.err != nil {
			sym.Fail("stream-ended "+st.name, s.err)
			continue
		}
		was, want := project(before, s.mask), project(res, s.mask)
		for i, c := range got {
			sym.Assert("stream-name "+st.name, c.name == "dev", c.name)
			if c.value == nil {
				sym.Fail("stream-without-value " + st.name)
				return
			}
			if !st.manySteps || i == len(got)-1 {
				sym.Assert("stream-value "+st.name, st.equal(c.value, want), "sent", c.value, "want", want, "mask", s.mask)
			}
		}
		changed := !st.near(was, want)
		sym.Assert("change-sent "+st.name, !changed || len(got) > 0, "was", was, "want", want, "mask", s.mask)
		sym.Assert("change-sent-once "+st.name, len(got) <= 1 || st.manySteps, len(got))
	}
}

func (st *stack) pulls(n int) (streams []*stream) {
	for i := 0; i < n; i++ {
		var s *stream
		if i == 0 {
			s = st.open(nil, false)
		} else {
			s = st.open(st.mask("pull", "", false), sym.Flip("updates-only"))
		}
		got := s.take()
		if s.err != nil {
			sym.Fail("stream-ended "+st.name, s.err)
			sym.Assume(false)
		}
		if s.updatesOnly {
			sym.Assert("updates-only "+st.name, len(got) == 0, len(got))
		} else {
			now := st.value("get-error", nil)
			if st.first != nil {
				now = st.first(now)
			}
			now = project(now, s.mask)
			if len(got) != 1 || got[0].value == nil {
				sym.Fail("starts-with-value "+st.name, len(got))
				sym.Assume(false)
			}
			sym.Assert("first-name "+st.name, got[0].name == "dev", got[0].name)
			sym.Assert("first-value "+st.name, st.equal(got[0].value, now), "sent", got[0].value, "get", now, "mask", s.mask)
		}
		streams = append(streams, s)
	}
	return streams
}

func (st *stack) end(streams []*stream) {
	for _, s := range streams {
		s.cancel()
	}
	sym.Quiesce()
	for _, s := range streams {
		sym.Assert("cancelled-ends "+st.name, s.err != nil)
	}
}

// CheckUpdate does one or two updates with one open stream.
// gosym: time=120s thorough.time=400s
func CheckUpdate() {
	st := start()
	streams := st.pulls(1)
	if sym.Thorough() {
		st.step("first", streams)
	}
	st.step("second", streams)
	st.end(streams)
	sym.Cover(st.name)
}

// CheckStreams does an update of all fields and another with a second stream that has a mask or wants updates only.
// gosym: time=120s thorough.time=400s
func CheckStreams() {
	st := start()
	if !sym.Thorough() {
		sym.Selects(0)
	}
	v := proto.Clone(st.template)
	st.all(v, 1)
	if _, err := st.update(v, nil, false); err != nil {
		sym.Cover("initial write rejected")
	}
	streams := st.pulls(2)
	st.lean = !sym.Thorough()
	st.step("s", streams)
	st.end(streams)
}

// CheckMasks reads every field by itself, and some nested ones.
// gosym: time=60s
func CheckMasks() {
	st := start()
	v := proto.Clone(st.template)
	var extra []proto.Message
	if st.shapes != nil {
		extra = st.shapes()
	}
	if n := sym.Choice("shape", 2+len(extra)); n < 2 {
		st.all(v, n)
	} else {
		v = extra[n-2]
	}
	if _, err := st.update(v, nil, false); err != nil {
		sym.Cover("rejected")
		return
	}
	full := st.value("get-error", nil)
	fs := st.template.ProtoReflect().Descriptor().Fields()
	n := sym.Choice("field", fs.Len()+len(st.nested)+1)
	var mask *fieldmaskpb.FieldMask
	switch {
	case n < fs.Len():
		mask = hx.Mask(string(fs.Get(n).Name()))
	case n == fs.Len():
		mask = hx.Mask(string(fs.Get(0).Name()), string(fs.Get(fs.Len()-1).Name()))
	default:
		mask = hx.Mask(st.nested[n-fs.Len()-1])
	}
	got := st.value("masked-get", mask)
	want := project(full, mask)
	sym.Assert("masked-get "+st.name, st.equal(got, want), "got", got, "want", want, "mask", mask)
}
