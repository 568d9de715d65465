// Package c09: lossy delivery preserves the folded view; slow readers never block writers.
package c09

import (
	"context"
	"sort"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/types"

	"github.com/smart-core-os/sc-golang/internal/minibus"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type msg = testproto.TestAllTypes

func ids(m map[string]*msg) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// view is what a reader makes of a stream.
type view struct {
	items map[string]*msg
	lossy bool
}

func (v *view) apply(e *resource.CollectionChange) {
	was := v.items[e.Id]
	switch e.ChangeType {
	case types.ChangeType_ADD:
		sym.Assert("add-absent", was == nil, e.Id)
		sym.Assert("add-no-old", e.OldValue == nil, e.OldValue)
	case types.ChangeType_UPDATE:
		sym.Assert("update-present", was != nil, e.Id)
	case types.ChangeType_REPLACE:
		sym.Assert("replace-lossy", v.lossy)
		sym.Assert("replace-present", was != nil, e.Id)
	case types.ChangeType_REMOVE:
		sym.Assert("remove-present", was != nil, e.Id)
		sym.Assert("remove-no-new", e.NewValue == nil)
	default:
		sym.Fail("kind", e.ChangeType)
	}
	if was != nil {
		hx.Same("old-chains", e.OldValue, was)
	}
	if e.ChangeType == types.ChangeType_REMOVE {
		delete(v.items, e.Id)
		return
	}
	sym.Assert("has-new", e.NewValue != nil)
	v.items[e.Id] = e.NewValue.(*msg)
}

func same(label string, got, want map[string]*msg) {
	sym.Assert(label+"-size", len(got) == len(want), ids(got), ids(want))
	for _, id := range ids(want) {
		g, ok := got[id]
		sym.Assert(label+"-has", ok, id)
		hx.Same(label+"-item", g, want[id])
	}
}

// CheckLossyCollection: a reader takes any number of events between writes; the writes never wait for it and what it
// receives folds to the contents.
//
// gosym: time=120s thorough.time=600s
func CheckLossyCollection() {
	sym.NoTimers(true)
	items := map[string]*msg{}
	nIds, steps := 2, 4
	if sym.Thorough() {
		steps = 5
	}
	opts := []resource.Option{resource.WithClock(&hx.Clock{Hold: true})}
	if sym.Flip("present") {
		items["a"] = &msg{DefaultInt32: sym.Int32("init")}
		opts = append(opts, resource.WithInitialRecord("a", proto.Clone(items["a"])))
	}
	c := resource.NewCollection(opts...)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := c.Pull(ctx)
	v := &view{items: map[string]*msg{}, lossy: true}
	recv := func(max int) (n int) {
		for n < max {
			sym.Quiesce()
			select {
			case e := <-ch:
				v.apply(e)
				n++
				continue
			default:
			}
			break
		}
		return n
	}
	recv(sym.Choice("recvSeed", 2))
	for i := 0; i < steps; i++ {
		id := string(rune('a' + sym.Choice("id", nIds)))
		if items[id] != nil && sym.Flip("del") {
			if _, err := c.Delete(id); err != nil {
				sym.Fail("delete", err)
			}
			delete(items, id)
		} else {
			items[id] = &msg{DefaultInt32: sym.Int32("w")}
			if _, err := c.Update(id, proto.Clone(items[id]), resource.WithCreateIfAbsent()); err != nil {
				sym.Fail("update", err)
			}
		}
		if i < steps-1 {
			recv(sym.Choice("recv", 3))
		}
	}
	n := recv(100)
	sym.Assert("bounded", n <= 2+nIds, n)
	same("view", v.items, items)
	same("list", v.items, list(c))
}

func list(c *resource.Collection) map[string]*msg {
	r := map[string]*msg{}
	for _, id := range []string{"a", "b"} {
		if m, ok := c.Get(id); ok {
			r[id] = m.(*msg)
		}
	}
	return r
}

// CheckLossyValue: a reader of a value takes any number of events between writes and ends with the latest value.
//
// gosym: time=60s thorough.time=300s
func CheckLossyValue() {
	sym.NoTimers(true)
	cur := &msg{DefaultInt32: sym.Int32("init")}
	r := resource.NewValue(resource.WithClock(&hx.Clock{}), resource.WithInitialValue(proto.Clone(cur)))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := r.Pull(ctx, resource.WithUpdatesOnly(sym.Flip("updatesOnly")))
	var last *resource.ValueChange
	written := []*msg{cur}
	at := 0
	recv := func(max int) (n int) {
		for n < max {
			sym.Quiesce()
			select {
			case e := <-ch:
				n++
				// values arrive in write order, each a value that was written
				found := false
				for i := at; i < len(written); i++ {
					if proto.Equal(written[i], e.Value) {
						found, at = true, i
						break
					}
				}
				sym.Assert("in-order", found, e.Value)
				last = e
				continue
			default:
			}
			break
		}
		return n
	}
	recv(sym.Choice("recvSeed", 2))
	for i := 0; i < 4; i++ {
		cur = &msg{DefaultInt32: int32(i), DefaultInt64: sym.Int64("w")}
		written = append(written, cur)
		if _, err := r.Set(proto.Clone(cur)); err != nil {
			sym.Fail("set", err)
		}
		if i < 3 {
			recv(sym.Choice("recv", 3))
		}
	}
	n := recv(100)
	sym.Assert("bounded", n <= 2, n)
	sym.Assert("received", last != nil)
	hx.Same("latest", last.Value, cur)
}

// CheckDropExcess: every interleaving of a sender, the buffer and a reader that takes some of the messages.
//
// gosym: time=60s
func CheckDropExcess() {
	in := make(chan any)
	n := 3
	take := sym.Choice("take", n+1)
	sym.Explore(-1, 1000)
	out := minibus.DropExcess(in)
	sent := make(chan bool, 1)
	go func() {
		for i := 1; i <= n; i++ {
			in <- i
		}
		sent <- true
	}()
	last := 0
	read := func(m any) {
		sym.Assert("increasing", m.(int) > last, m, last)
		last = m.(int)
	}
	for i := 0; i < take; i++ {
		if last == n {
			break
		}
		read(<-out)
	}
	<-sent // never waits for us
	sym.Sequential()
	sym.Quiesce()
	select {
	case m := <-out:
		read(m)
	default:
	}
	sym.Assert("latest", last == n, last)
	sym.Quiesce()
	select {
	case m := <-out:
		sym.Fail("extra", m)
	default:
	}
	close(in)
	_, ok := <-out
	sym.Assert("closed", !ok)
}

// CheckBackpressure: writers wait for a slow reader, which gets everything.
//
// gosym: time=60s thorough.time=200s
func CheckBackpressure() {
	sym.NoTimers(true)
	coll := sym.Flip("collection")
	n := 4
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := 0
	var recv func() (int32, bool)
	var write func(i int32) error
	if coll {
		c := resource.NewCollection(resource.WithClock(&hx.Clock{Hold: true}))
		ch := c.Pull(ctx, resource.WithBackpressure(true))
		v := &view{items: map[string]*msg{}}
		present := map[int32]bool{}
		recv = func() (int32, bool) {
			select {
			case e := <-ch:
				v.apply(e)
				if e.ChangeType == types.ChangeType_REMOVE {
					return e.OldValue.(*msg).DefaultInt32 + 1, true
				}
				return e.NewValue.(*msg).DefaultInt32, true
			default:
				return 0, false
			}
		}
		write = func(i int32) error {
			var err error
			if i > 1 && present[i-1] && sym.Flip("del") {
				_, err = c.Delete("a")
			} else {
				present[i] = true
				_, err = c.Update("a", &msg{DefaultInt32: i}, resource.WithCreateIfAbsent())
			}
			return err
		}
	} else {
		r := resource.NewValue(resource.WithClock(&hx.Clock{Hold: true}), resource.WithInitialValue(&msg{}))
		ch := r.Pull(ctx, resource.WithBackpressure(true), resource.WithUpdatesOnly(true))
		recv = func() (int32, bool) {
			select {
			case e := <-ch:
				return e.Value.(*msg).DefaultInt32, true
			default:
				return 0, false
			}
		}
		write = func(i int32) error {
			_, err := r.Set(&msg{DefaultInt32: i})
			return err
		}
	}
	go func() {
		for i := 1; i <= n; i++ {
			if err := write(int32(i)); err != nil {
				sym.Fail("write", err)
			}
			done = i
		}
	}()
	next := int32(1)
	for {
		sym.Quiesce()
		// one event may be in the hands of the stream
		sym.Assert("writers-wait", done <= int(next), done, next)
		got, ok := recv()
		if !ok {
			break
		}
		sym.Assert("in-order", got == next, got, next)
		next++
	}
	sym.Assert("all", next == int32(n)+1, next)
	sym.Assert("all-done", done == n, done)
}

// CheckSendTimeout: a value write that cannot be delivered in five seconds fails, one that can succeeds, and other
// subscribers are not affected.
//
// gosym: time=60s noreplay=1
func CheckSendTimeout() {
	r := resource.NewValue(resource.WithClock(&hx.Clock{Hold: true}), resource.WithInitialValue(&msg{}))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	nSubs := 1 + sym.Choice("subs", 3)
	stalled := sym.Choice("stalled", nSubs) // the subscriber that is slow
	type sub struct{ got []int32 }
	subs := make([]*sub, nSubs)
	delay := []time.Duration{0, time.Second, 4 * time.Second, 7 * time.Second, -1}[sym.Choice("delay", 5)]
	for i := range subs {
		s := &sub{}
		subs[i] = s
		ch := r.Pull(ctx, resource.WithBackpressure(true), resource.WithUpdatesOnly(true))
		go func() {
			if i == stalled {
				if delay < 0 {
					<-ctx.Done()
					return
				}
				time.Sleep(delay)
			}
			for e := range ch {
				s.got = append(s.got, e.Value.(*msg).DefaultInt32)
			}
		}()
	}
	sym.Sequential()
	start := sym.RealNow()
	// the first event goes to the stream's own goroutine, the second has to wait for the reader
	if _, err := r.Set(&msg{DefaultInt32: 1}); err != nil {
		sym.Fail("first", err)
	}
	_, err := r.Set(&msg{DefaultInt32: 2})
	took := time.Duration(sym.RealNow() - start)
	late := delay < 0 || delay > 5*time.Second
	if late {
		sym.Assert("fails", err != nil)
		sym.Assert("after-five-seconds", took >= 5*time.Second && took < 6*time.Second, took)
	} else {
		sym.Assert("succeeds", err == nil, err)
		sym.Assert("as-soon-as-delivered", took >= delay && took < delay+time.Second, took)
	}
	sym.Assert("stored", r.Get().(*msg).DefaultInt32 == 2)
	if delay > 0 {
		time.Sleep(8 * time.Second)
	}
	// the subscribers that kept receiving have it all
	third := false
	if delay >= 0 {
		if _, err := r.Set(&msg{DefaultInt32: 3}); err != nil {
			sym.Fail("third", err)
		}
		third = true
	}
	time.Sleep(time.Second)
	for i, s := range subs {
		if i == stalled && late {
			if delay > 0 {
				sym.Assert("stalled-continues", len(s.got) == 2 && s.got[0] == 1 && s.got[1] == 3, s.got)
			}
			continue
		}
		want := 2
		if third {
			want = 3
		}
		sym.Assert("others-complete", len(s.got) == want, i, len(s.got))
		for k, v := range s.got {
			sym.Assert("others-order", v == int32(k)+1, i, v)
		}
	}
	sym.Observe("late", late)
}
