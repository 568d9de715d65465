package c08

import (
	"context"
	"sort"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	timepb "github.com/smart-core-os/sc-api/go/types/time"

	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
)

type stream struct {
	grpc.ServerStream
	ctx context.Context
	got chan *traits.PullBookingsResponse
}

func (s *stream) Context() context.Context { return s.ctx }
func (s *stream) Send(r *traits.PullBookingsResponse) error {
	s.got <- r
	return nil
}

func symPeriod(name string) *timepb.Period {
	if sym.Flip(name + ".nil") {
		return nil
	}
	p := &timepb.Period{}
	if sym.Flip(name + ".start") {
		p.StartTime = &timestamppb.Timestamp{Seconds: int64(sym.Int(name+".s", 0, 20))}
	}
	if sym.Flip(name + ".end") {
		p.EndTime = &timestamppb.Timestamp{Seconds: int64(sym.Int(name+".e", 0, 20))}
	}
	if p.StartTime != nil && p.EndTime != nil {
		sym.Assume(p.StartTime.Seconds < p.EndTime.Seconds)
	}
	return p
}

// intersects is overlap of half-open intervals; an absent period meets nothing.
func intersects(a, b *timepb.Period) bool {
	if a == nil || b == nil {
		return false
	}
	before := func(x, y *timepb.Period) bool { // x ends before y starts
		return x.EndTime != nil && y.StartTime != nil && x.EndTime.Seconds <= y.StartTime.Seconds
	}
	return !before(a, b) && !before(b, a)
}

// CheckBookings: the booking server's period filter on List and Pull.
//
// gosym: time=100s thorough.time=400s
func CheckBookings() {
	model := bookingpb.NewModel()
	srv := bookingpb.NewModelServer(model)
	items := map[string]*traits.Booking{}
	add := func() string {
		b := &traits.Booking{Title: "t", Booked: symPeriod("p")}
		r, err := srv.CreateBooking(context.Background(), &traits.CreateBookingRequest{Booking: proto.Clone(b).(*traits.Booking)})
		if err != nil {
			sym.Fail("create", err)
		}
		b.Id = r.BookingId
		items[b.Id] = b
		return b.Id
	}
	first := add()
	q := &timepb.Period{StartTime: &timestamppb.Timestamp{Seconds: int64(sym.Int("q.s", 0, 20))}}
	if sym.Flip("q.end") {
		q.EndTime = &timestamppb.Timestamp{Seconds: int64(sym.Int("q.e", 0, 20))}
		sym.Assume(q.StartTime.Seconds < q.EndTime.Seconds)
	}
	// the filter applies to what is stored, whatever the reader gets to see of it
	updatesOnly := sym.Flip("updatesOnly")
	var mask *fieldmaskpb.FieldMask
	if sym.Flip("mask") {
		mask = hx.Mask("id", "title")
	}
	seen := func(b *traits.Booking) *traits.Booking {
		if mask == nil {
			return b
		}
		return &traits.Booking{Id: b.Id, Title: b.Title}
	}
	filtered := func() map[string]*traits.Booking {
		r := map[string]*traits.Booking{}
		for id, b := range items {
			if intersects(b.Booked, q) {
				r[id] = b
			}
		}
		return r
	}
	list := func(label string) {
		r, err := srv.ListBookings(context.Background(), &traits.ListBookingsRequest{BookingIntersects: q, ReadMask: mask})
		if err != nil {
			sym.Fail("list", err)
		}
		want := filtered()
		var keys []string
		for k := range want {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		sym.Assert(label+"-len", len(r.Bookings) == len(keys), len(r.Bookings), len(keys), q)
		for i, k := range keys {
			hx.Same(label+"-item", r.Bookings[i], seen(want[k]))
		}
	}
	list("list")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s := &stream{ctx: ctx, got: make(chan *traits.PullBookingsResponse, 20)}
	go srv.PullBookings(&traits.ListBookingsRequest{Name: "n", BookingIntersects: q, UpdatesOnly: updatesOnly, ReadMask: mask}, s)
	sym.Quiesce()
	view := map[string]*traits.Booking{}
	if updatesOnly {
		for id, b := range filtered() {
			view[id] = seen(b)
		}
	}
	drain := func(max int) {
		n := 0
		for len(s.got) > 0 {
			for _, c := range (<-s.got).Changes {
				n++
				if c.Type == types.ChangeType_REMOVE {
					sym.Assert("remove-known", view[c.OldValue.Id] != nil)
					delete(view, c.OldValue.Id)
				} else {
					if c.Type == types.ChangeType_ADD {
						sym.Assert("add-new", view[c.NewValue.Id] == nil)
					} else {
						sym.Assert("update-known", view[c.NewValue.Id] != nil, c.Type)
					}
					view[c.NewValue.Id] = c.NewValue
				}
			}
		}
		sym.Assert("no-extra-events", n <= max, n, max)
		want := filtered()
		sym.Assert("view-size", len(view) == len(want), len(view), len(want))
		for id, b := range want {
			hx.Same("view-item", view[id], seen(b))
		}
	}
	if updatesOnly {
		drain(0)
	} else {
		drain(len(items))
	}
	// the booking moves
	was := intersects(items[first].Booked, q)
	up := &traits.Booking{Id: first, Title: "u", Booked: symPeriod("u")}
	if _, err := srv.UpdateBooking(context.Background(), &traits.UpdateBookingRequest{Booking: proto.Clone(up).(*traits.Booking)}); err != nil {
		sym.Fail("update", err)
	}
	items[first] = up
	sym.Quiesce()
	if !was && !intersects(up.Booked, q) {
		drain(0)
	} else {
		drain(1)
	}
	list("list-after")
	sym.Cover("bookings")
}
