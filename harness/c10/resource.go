package c10

import (
	"context"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/types"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type msg = testproto.TestAllTypes

func val(x int32) *msg { return &msg{DefaultInt32: x} }

// sub is one subscription to a resource.
type sub struct {
	cancel context.CancelFunc
	recv   func() (v int32, removed, ok bool) // ok is false when the channel is closed
	bp     bool
	only   bool
	single bool // ends with the item
	limit  int  // stop receiving after that many, -1 for never
	got    []int32
	gone   bool // the removal was received
	closed bool
}

func (s *sub) consume() {
	for s.limit < 0 || len(s.got) < s.limit {
		v, removed, ok := s.recv()
		if !ok {
			s.closed = true
			return
		}
		if removed {
			s.gone = true
			continue
		}
		s.got = append(s.got, v)
	}
}

// drained receives what's left after the context was cancelled.
func (s *sub) drained() {
	for !s.closed {
		_, _, ok := s.recv()
		s.closed = !ok
	}
}

func opts(bp, only bool) []resource.ReadOption {
	return []resource.ReadOption{resource.WithBackpressure(bp), resource.WithUpdatesOnly(only)}
}

func pullValue(r *resource.Value, bp, only bool) *sub {
	ctx, cancel := context.WithCancel(context.Background())
	ch := r.Pull(ctx, opts(bp, only)...)
	return &sub{cancel: cancel, bp: bp, only: only, limit: -1, recv: func() (int32, bool, bool) {
		c, ok := <-ch
		if !ok {
			return 0, false, false
		}
		return c.Value.(*msg).DefaultInt32, false, true
	}}
}

func pullItem(r *resource.Collection, bp, only bool) *sub {
	ctx, cancel := context.WithCancel(context.Background())
	ch := r.PullID(ctx, "a", opts(bp, only)...)
	return &sub{cancel: cancel, bp: bp, only: only, single: true, limit: -1, recv: func() (int32, bool, bool) {
		c, ok := <-ch
		if !ok {
			return 0, false, false
		}
		return c.Value.(*msg).DefaultInt32, false, true
	}}
}

func pullAll(r *resource.Collection, bp, only bool) *sub {
	ctx, cancel := context.WithCancel(context.Background())
	ch := r.Pull(ctx, opts(bp, only)...)
	return &sub{cancel: cancel, bp: bp, only: only, limit: -1, recv: func() (int32, bool, bool) {
		c, ok := <-ch
		if !ok {
			return 0, false, false
		}
		if c.ChangeType == types.ChangeType_REMOVE {
			return 0, true, true
		}
		return c.NewValue.(*msg).DefaultInt32, false, true
	}}
}

// world of a value (kind 0), an item (kind 1) or a collection (kind 2).
type store struct {
	kind int
	v    *resource.Value
	c    *resource.Collection
}

func newStore(kind int) *store {
	s := &store{kind: kind}
	if kind == 0 {
		s.v = resource.NewValue(resource.WithInitialValue(val(0)), resource.WithClock(&hx.Clock{Hold: true}))
	} else {
		s.c = resource.NewCollection(resource.WithInitialRecord("a", val(0)), resource.WithClock(&hx.Clock{Hold: true}))
	}
	return s
}

func (s *store) pull(bp, only bool) *sub {
	switch s.kind {
	case 0:
		return pullValue(s.v, bp, only)
	case 1:
		return pullItem(s.c, bp, only)
	default:
		return pullAll(s.c, bp, only)
	}
}

func (s *store) set(x int32) error {
	if s.kind == 0 {
		_, err := s.v.Set(val(x))
		return err
	}
	_, err := s.c.Update("a", val(x), resource.WithCreateIfAbsent())
	return err
}

func (s *store) get() (proto.Message, bool) {
	if s.kind == 0 {
		return s.v.Get(), true
	}
	return s.c.Get("a")
}

// whole asserts that a subscriber that was never cancelled saw everything.
func (s *sub) whole(label string, writes int) {
	want := int32(0)
	if s.only {
		want = 1
	}
	if s.bp {
		for _, x := range s.got {
			sym.Assert(label+"-order", x == want, x, want)
			want++
		}
		sym.Assert(label+"-all", want == int32(writes+1), s.got)
		return
	}
	last := want - 1
	for _, x := range s.got {
		sym.Assert(label+"-order", x > last, x, last)
		last = x
	}
	if writes > 0 {
		sym.Assert(label+"-last", last == int32(writes), s.got)
	}
}

func delays() int {
	if sym.Thorough() {
		return 4
	}
	return 3
}

// CheckCancel: a subscription is cancelled at any moment while a writer writes and another subscriber receives.
//
// gosym: time=80s thorough.time=600s
func CheckCancel() {
	sym.NoTimers(true)
	st := newStore(sym.Choice("kind", 3))
	writes := 1
	if sym.Thorough() {
		writes = 2
	}
	other := st.pull(true, true)
	go other.consume()
	s := st.pull(sym.Flip("bp"), sym.Flip("only"))
	go s.consume()
	sym.Delays(delays(), 400)
	written := 0
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 1; i <= writes; i++ {
			sym.Assert("write-ok", st.set(int32(i)) == nil)
			written = i
		}
	}()
	s.cancel()
	<-done
	sym.Quiesce()
	sym.Sequential()
	sym.Assert("written", written == writes)
	sym.Assert("closed", s.closed)
	last := int32(-1)
	for _, x := range s.got {
		sym.Assert("prefix", x > last && x <= int32(writes), s.got)
		if s.bp {
			sym.Assert("prefix-exact", x == last+1 || (s.only && last == -1 && x == 1), s.got)
		}
		last = x
	}
	other.whole("other", writes)
	// writing goes on as if nothing had happened
	sym.Assert("write-after", st.set(int32(writes+1)) == nil)
	sym.Quiesce()
	other.whole("other-after", writes+1)
	other.cancel()
	sym.Quiesce()
	sym.Assert("other-closed", other.closed)
	sym.Assert("goroutines-end", sym.Live() == 0, sym.Live())
}

// CheckSubscribe: subscribing and cancelling straight away, while a writer writes.
//
// gosym: time=60s thorough.time=600s
func CheckSubscribe() {
	sym.NoTimers(true)
	st := newStore(sym.Choice("kind", 3))
	bp, only := sym.Flip("bp"), sym.Flip("only")
	sym.Delays(delays(), 400)
	done := make(chan struct{})
	go func() {
		defer close(done)
		sym.Assert("write-ok", st.set(1) == nil)
	}()
	s := st.pull(bp, only)
	cancelled := make(chan struct{})
	go func() {
		defer close(cancelled)
		s.cancel()
	}()
	s.consume()
	<-done
	<-cancelled
	sym.Quiesce()
	sym.Sequential()
	sym.Assert("closed", s.closed)
	sym.Assert("write-after", st.set(2) == nil)
	sym.Quiesce()
	sym.Assert("goroutines-end", sym.Live() == 0, sym.Live())
}

// CheckStops: a consumer stops receiving at any point without cancelling, and later cancels; the writers and the other
// subscribers go on. With backpressure they have to wait for the cancel.
//
// gosym: time=60s thorough.time=400s
func CheckStops() {
	sym.NoTimers(true)
	st := newStore(sym.Choice("kind", 3))
	s := st.pull(sym.Flip("bp"), sym.Flip("only"))
	s.limit = sym.Choice("limit", 3)
	other := st.pull(sym.Flip("other-bp"), true)
	go s.consume()
	go other.consume()
	sym.Quiesce()
	sym.Delays(delays()-1, 400)
	const writes = 3
	written := 0
	go func() {
		for i := 1; i <= writes; i++ {
			sym.Assert("write-ok", st.set(int32(i)) == nil)
			written = i
		}
	}()
	sym.Quiesce()
	if !s.bp {
		sym.Assert("lossy-written", written == writes, written)
	} else {
		// it waits, but what it waits for was still received by the other one
		n := written
		if n < writes {
			n++
		}
		other.whole("other-before", n)
	}
	s.cancel()
	sym.Quiesce()
	sym.Sequential()
	sym.Assert("written", written == writes, written)
	other.whole("other", writes)
	s.drained()
	sym.Quiesce()
	other.cancel()
	sym.Quiesce()
	sym.Assert("other-closed", other.closed)
	sym.Assert("goroutines-end", sym.Live() == 0, sym.Live())
}

// CheckRemoved: the subscription to an item ends when the item is removed, at any moment, and with nothing left behind.
//
// gosym: time=80s thorough.time=600s
func CheckRemoved() {
	sym.NoTimers(true)
	st := newStore(1)
	s := st.pull(sym.Flip("bp"), sym.Flip("only"))
	all := pullAll(st.c, true, true)
	go s.consume()
	go all.consume()
	sym.Delays(delays()-1, 400)
	again := sym.Flip("again") // the item is created again
	errs := 0
	done := make(chan struct{})
	go func() {
		defer close(done)
		if err := st.set(1); err != nil {
			errs++
		}
		if _, err := st.c.Delete("a"); err != nil {
			errs++
		}
		if again {
			if err := st.set(2); err != nil {
				errs++
			}
		}
	}()
	late := sym.Flip("cancel")
	if late {
		s.cancel()
	}
	<-done
	sym.Quiesce()
	sym.Sequential()
	sym.Assert("writes-ok", errs == 0, errs)
	sym.Assert("ended", s.closed || (again && !s.bp), s.got)
	sym.Assert("all-removed", all.gone)
	if s.closed && s.bp && !late {
		sym.Assert("all-before", len(s.got) >= 1 && s.got[len(s.got)-1] == 1, s.got)
	}
	all.cancel()
	sym.Quiesce()
	if s.closed {
		sym.Assert("goroutines-end", sym.Live() == 0, sym.Live()) // without cancelling
	}
	s.cancel()
	sym.Quiesce()
	sym.Assert("closed", s.closed)
	sym.Assert("goroutines-end-cancelled", sym.Live() == 0, sym.Live())
}

// CheckDeleting: subscribers and readers come while an item is being deleted, none of them holds up another.
//
// gosym: time=60s thorough.time=400s
func CheckDeleting() {
	sym.NoTimers(true)
	st := newStore(1 + sym.Choice("kind", 2))
	s := st.pull(true, true)
	// a consumer that reads the collection for each change it gets
	go func() {
		for {
			v, removed, ok := s.recv()
			if !ok {
				s.closed = true
				return
			}
			st.c.List()
			st.get()
			s.got = append(s.got, v)
			s.gone = s.gone || removed
		}
	}()
	sym.Delays(delays(), 400)
	done := make(chan struct{})
	go func() {
		defer close(done)
		_, err := st.c.Delete("a")
		sym.Assert("delete-ok", err == nil)
	}()
	other := st.pull(true, false)
	go other.consume()
	c := status.Code(st.set(1))
	sym.Assert("set-ok", c == codes.OK || c == codes.Aborted)
	<-done
	sym.Quiesce()
	sym.Sequential()
	sym.Assert("told", s.closed || s.gone)
	s.cancel()
	other.cancel()
	sym.Quiesce()
	sym.Assert("closed", s.closed && other.closed)
	sym.Assert("goroutines-end", sym.Live() == 0, sym.Live())
}
