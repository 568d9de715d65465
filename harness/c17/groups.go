package c17

import (
	"context"
	"errors"
	"io"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-api/go/traits"

	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/group"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
)

var names = []string{"x", "y", "z"}

// device stands in for the members of a group.
type device struct {
	traits.OnOffApiClient
	traits.LightApiClient
	fails map[string]bool
	calls map[string]int
	order []string
	onoff map[string]*traits.OnOff
	light map[string]*traits.Brightness
	req   proto.Message  // what the group was asked, its members are asked the same
	steps map[string]int // changes to send before ending
	live  int
}

func newDevice(n int) *device {
	d := &device{fails: map[string]bool{}, calls: map[string]int{}, onoff: map[string]*traits.OnOff{}, light: map[string]*traits.Brightness{}, steps: map[string]int{}}
	for i, name := range names[:n] {
		d.fails[name] = sym.Flip("fails")
		d.onoff[name] = &traits.OnOff{State: traits.OnOff_State(1 + i%2)}
		d.light[name] = &traits.Brightness{LevelPercent: float32(10 + 20*i)}
	}
	return d
}

// forwarded asserts that a member is asked what the group was asked.
func (d *device) forwarded(ctx context.Context, label string, r proto.Message) {
	want := proto.Clone(d.req).ProtoReflect()
	fd := want.Descriptor().Fields().ByName("name")
	want.Set(fd, r.ProtoReflect().Get(fd))
	hx.Same(label+"-forwarded", r, want.Interface())
	sym.Assert(label+"-values", ctx.Value(key{}) == "value")
}

func (d *device) call(name string) error {
	d.calls[name]++
	d.order = append(d.order, name)
	if d.fails[name] {
		return status.Error(codes.Unavailable, name)
	}
	return nil
}

func (d *device) GetOnOff(ctx context.Context, r *traits.GetOnOffRequest, _ ...grpc.CallOption) (*traits.OnOff, error) {
	d.forwarded(ctx, "get", r)
	if err := d.call(r.Name); err != nil {
		return nil, err
	}
	return proto.Clone(d.onoff[r.Name]).(*traits.OnOff), nil
}

func (d *device) UpdateOnOff(ctx context.Context, r *traits.UpdateOnOffRequest, _ ...grpc.CallOption) (*traits.OnOff, error) {
	d.forwarded(ctx, "update", r)
	if err := d.call(r.Name); err != nil {
		return nil, err
	}
	return proto.Clone(d.onoff[r.Name]).(*traits.OnOff), nil
}

func (d *device) GetBrightness(ctx context.Context, r *traits.GetBrightnessRequest, _ ...grpc.CallOption) (*traits.Brightness, error) {
	d.forwarded(ctx, "get", r)
	if err := d.call(r.Name); err != nil {
		return nil, err
	}
	return proto.Clone(d.light[r.Name]).(*traits.Brightness), nil
}

func (d *device) UpdateBrightness(ctx context.Context, r *traits.UpdateBrightnessRequest, _ ...grpc.CallOption) (*traits.Brightness, error) {
	d.forwarded(ctx, "update", r)
	if err := d.call(r.Name); err != nil {
		return nil, err
	}
	return proto.Clone(d.light[r.Name]).(*traits.Brightness), nil
}

// CheckGroupCalls: reads and writes of the on-off and light groups.
//
// gosym: time=60s thorough.time=200s
func CheckGroupCalls() {
	n := sym.Choice("members", 4)
	s := strategies[sym.Choice("strategy", len(strategies))]
	d := newDevice(n)
	ctx := context.WithValue(context.Background(), key{}, "value")
	var readMask, updateMask *fieldmaskpb.FieldMask
	if n > 0 && sym.Flip("masks") {
		readMask, updateMask = &fieldmaskpb.FieldMask{Paths: []string{"state"}}, &fieldmaskpb.FieldMask{Paths: []string{"*"}}
	}
	var err error
	var onoff *traits.OnOff
	var light *traits.Brightness
	isLight, write := sym.Flip("light"), sym.Flip("write")
	p := hx.Catch(func() {
		if isLight {
			g := lightpb.NewGroup(d, names[:n]...)
			if write {
				g.WriteExecution = s
				req := &traits.UpdateBrightnessRequest{Name: "group", Brightness: &traits.Brightness{LevelPercent: 7}, UpdateMask: updateMask, Delta: true}
				d.req = proto.Clone(req)
				light, err = g.UpdateBrightness(ctx, req)
				sym.Assert("request-kept", req.Name == "group")
			} else {
				g.ReadExecution = s
				req := &traits.GetBrightnessRequest{Name: "group", ReadMask: readMask}
				d.req = proto.Clone(req)
				light, err = g.GetBrightness(ctx, req)
				sym.Assert("request-kept", req.Name == "group")
			}
		} else {
			g := onoffpb.NewGroup(d, names[:n]...)
			if write {
				g.WriteExecution = s
				req := &traits.UpdateOnOffRequest{Name: "group", OnOff: &traits.OnOff{State: traits.OnOff_ON}, UpdateMask: updateMask}
				d.req = proto.Clone(req)
				onoff, err = g.UpdateOnOff(ctx, req)
				sym.Assert("request-kept", req.Name == "group")
			} else {
				g.ReadExecution = s
				req := &traits.GetOnOffRequest{Name: "group", ReadMask: readMask}
				d.req = proto.Clone(req)
				onoff, err = g.GetOnOff(ctx, req)
				sym.Assert("request-kept", req.Name == "group")
			}
		}
	})
	sym.Assert("group-no-panic", p == nil, p)
	sym.Quiesce()
	sym.Assert("group-goroutines-end", sym.Live() == 0, sym.Live())
	errs := 0
	firstOk := -1
	for i, name := range names[:n] {
		if d.fails[name] {
			errs++
		} else if firstOk < 0 {
			firstOk = i
		}
		if s == group.ExecutionStrategyOne && firstOk >= 0 && i > firstOk {
			sym.Assert("group-one-stops", d.calls[name] == 0, name)
		} else {
			sym.Assert("group-member-called", d.calls[name] == 1, name, d.calls[name])
		}
	}
	if n == 0 {
		return
	}
	var fails bool
	switch {
	case isAll(s):
		fails = errs > 0
	case s == group.ExecutionStrategyMost:
		fails = 2*errs > n
	case s == group.ExecutionStrategyRace:
		if errs > 0 && errs < n {
			return
		}
		fails = errs == n
	default:
		fails = errs == n
	}
	sym.Assert("group-fails", (err != nil) == fails, err)
	if err != nil {
		sym.Assert("group-error", hx.Code(err) == codes.Unavailable && d.fails[status.Convert(err).Message()], err)
		return
	}
	if s != group.ExecutionStrategyOne && n-errs > 1 {
		return // several members contribute
	}
	// the response is that of the only member that has contributed
	if isLight {
		sym.Assert("group-brightness", light.GetLevelPercent() == d.light[names[firstOk]].LevelPercent, light, firstOk)
	} else {
		sym.Assert("group-onoff", onoff.GetState() == d.onoff[names[firstOk]].State, onoff, firstOk)
	}
}

// stream stands in for the client side of a member's stream.
type stream struct {
	grpc.ClientStream
	ctx  context.Context
	d    *device
	name string
	left int
}

func (s *stream) next() error {
	if s.left == 0 {
		if s.d.fails[s.name] {
			return status.Error(codes.Unavailable, s.name)
		}
		<-s.ctx.Done()
		return s.ctx.Err()
	}
	s.left--
	return nil
}

type onOffStream struct{ stream }

func (s *onOffStream) Recv() (*traits.PullOnOffResponse, error) {
	if err := s.next(); err != nil {
		return nil, err
	}
	return &traits.PullOnOffResponse{Changes: []*traits.PullOnOffResponse_Change{{Name: s.name, OnOff: proto.Clone(s.d.onoff[s.name]).(*traits.OnOff)}}}, nil
}

func (d *device) PullOnOff(ctx context.Context, r *traits.PullOnOffRequest, _ ...grpc.CallOption) (grpc.ServerStreamingClient[traits.PullOnOffResponse], error) {
	d.forwarded(ctx, "pull", r)
	return &onOffStream{stream{ctx: ctx, d: d, name: r.Name, left: d.steps[r.Name]}}, nil
}

type lightStream struct{ stream }

func (s *lightStream) Recv() (*traits.PullBrightnessResponse, error) {
	if err := s.next(); err != nil {
		return nil, err
	}
	return &traits.PullBrightnessResponse{Changes: []*traits.PullBrightnessResponse_Change{{Name: s.name, Brightness: proto.Clone(s.d.light[s.name]).(*traits.Brightness)}}}, nil
}

func (d *device) PullBrightness(ctx context.Context, r *traits.PullBrightnessRequest, _ ...grpc.CallOption) (grpc.ServerStreamingClient[traits.PullBrightnessResponse], error) {
	d.forwarded(ctx, "pull", r)
	return &lightStream{stream{ctx: ctx, d: d, name: r.Name, left: d.steps[r.Name]}}, nil
}

// sink stands in for the server side of the group's stream.
type sink struct {
	grpc.ServerStream
	ctx   context.Context
	sends int
	limit int // sends that work
}

var errSend = errors.New("send failed")

func (s *sink) Context() context.Context { return s.ctx }
func (s *sink) send(name string) error {
	sym.Assert("pull-name", name == "group", name)
	if s.sends == s.limit {
		return errSend
	}
	s.sends++
	return nil
}

type onOffSink struct{ sink }

func (s *onOffSink) Send(r *traits.PullOnOffResponse) error { return s.send(r.Changes[0].Name) }

type lightSink struct{ sink }

func (s *lightSink) Send(r *traits.PullBrightnessResponse) error { return s.send(r.Changes[0].Name) }

// CheckGroupPull: a group's stream ends, and so does everything started for it, once its outcome is decided, its
// receiver is gone, or its context is cancelled, however the members and the cancel interleave.
//
// gosym: time=100s thorough.time=600s
func CheckGroupPull() {
	n := sym.Choice("members", 3)
	s := strategies[1+sym.Choice("strategy", 6)]
	d := newDevice(n)
	for _, name := range names[:n] {
		d.steps[name] = sym.Choice("steps", 2)
	}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, "value"))
	defer cancel()
	limit := 10
	if sym.Flip("sendFails") {
		limit = sym.Choice("sends", 2)
	}
	isLight := sym.Flip("light")
	updatesOnly := isLight // whatever it is, it's passed on
	var err error
	var p any
	sends := 0
	finished := make(chan struct{})
	sym.Explore(-1, 400)
	go func() {
		p = hx.Catch(func() {
			if isLight {
				g := lightpb.NewGroup(d, names[:n]...)
				g.ReadExecution = s
				k := &lightSink{sink{ctx: ctx, limit: limit}}
				req := &traits.PullBrightnessRequest{Name: "group", UpdatesOnly: updatesOnly}
				d.req = proto.Clone(req)
				err = g.PullBrightness(req, k)
				sends = k.sends
			} else {
				g := onoffpb.NewGroup(d, names[:n]...)
				g.ReadExecution = s
				k := &onOffSink{sink{ctx: ctx, limit: limit}}
				req := &traits.PullOnOffRequest{Name: "group", UpdatesOnly: updatesOnly}
				d.req = proto.Clone(req)
				err = g.PullOnOff(req, k)
				sends = k.sends
			}
		})
		close(finished)
	}()
	sym.Quiesce() // as far as it goes without the caller doing something
	returned := false
	select {
	case <-finished:
		returned = true
	default:
		cancel()
		<-finished
	}
	sym.Sequential()
	sym.Assert("pull-no-panic", p == nil, p)
	sym.Quiesce()
	sym.Assert("pull-goroutines-end", sym.Live() == 0, sym.Live())
	sym.Assert("pull-sends", sends <= limit)
	errs := 0
	for _, name := range names[:n] {
		if d.fails[name] {
			errs++
		}
	}
	if returned || n == 0 {
		decided := n == 0 || errors.Is(err, errSend)
		switch s {
		case group.ExecutionStrategyAll:
			decided = decided || errs > 0
		case group.ExecutionStrategyMost:
			decided = decided || 2*errs > n
		case group.ExecutionStrategyRace:
			decided = decided || errs > 0
		default:
			decided = decided || errs == n
		}
		sym.Assert("pull-ends-only-when-decided", decided, err)
		if n > 0 {
			sym.Assert("pull-error", err != nil && err != io.EOF, err)
		}
	}
}
