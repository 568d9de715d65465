// Package c11: concurrent use of the public API is free of data races.
//
// Every harness picks operations, runs each of them in a goroutine of its own and explores the orders of their
// synchronisation. The executor's vector clocks report two accesses to a memory cell that aren't ordered by the
// synchronisation of the explored order, whether or not they happened to be adjacent in it.
// Messages and events are read completely by whoever is given one, see use.
package c11

import (
	"context"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

// use reads all of m.
func use(m proto.Message) {
	if m != nil {
		proto.Clone(m)
	}
}

func useAll[T proto.Message](ms []T) {
	for _, m := range ms {
		use(m)
	}
}

// crew runs operations concurrently.
type crew struct {
	ctx    context.Context
	cancel context.CancelFunc
	wg     sync.WaitGroup
}

func newCrew() *crew {
	ctx, cancel := context.WithCancel(context.Background())
	return &crew{ctx: ctx, cancel: cancel}
}

func (c *crew) do(f func()) {
	c.wg.Add(1)
	go func() {
		defer c.wg.Done()
		f()
	}()
}

// finish waits for the operations, and for the goroutines behind subscriptions.
func (c *crew) finish() {
	c.wg.Wait()
	c.cancel()
	sym.Quiesce()
}

// some picks k of n operations, in no particular order, and runs them.
func (c *crew) some(k int, ops []func()) {
	from := 0
	for i := 0; i < k; i++ {
		from += sym.Choice("op", len(ops)-from)
		c.do(ops[from])
	}
}

func explore(quick, thorough int) {
	sym.DetectRaces()
	if sym.Thorough() {
		sym.Delays(thorough, 300)
	} else {
		sym.Delays(quick, 300)
	}
}

func mode(title string) *traits.ElectricMode {
	return &traits.ElectricMode{
		Title:     title,
		StartTime: &timestamppb.Timestamp{Seconds: 5},
		Segments:  []*traits.ElectricMode_Segment{{Magnitude: 1}, {Magnitude: 2}},
	}
}

// writing is an option of everything that's called back during a write.
func writing(id *string) []resource.WriteOption {
	return []resource.WriteOption{
		resource.InterceptBefore(func(old, value proto.Message) {
			use(old)
			use(value)
			value.(*traits.ElectricMode).Voltage = 3
		}),
		resource.InterceptAfter(func(old, value proto.Message) {
			use(old)
			value.(*traits.ElectricMode).StartTime = &timestamppb.Timestamp{Seconds: 6}
		}),
		resource.WithExpectedCheck(func(m proto.Message) error { use(m); return nil }),
		resource.WithIDCallback(func(s string) { *id = s }),
		resource.WithCreatedCallback(func() { *id += "!" }),
	}
}

// drain uses the events of a subscription until it ends.
func drain[T any](ch <-chan T, use func(T)) {
	for e := range ch {
		use(e)
	}
}

func useValue(c *resource.ValueChange) { use(c.Value) }

func useChange(c *resource.CollectionChange) {
	use(c.OldValue)
	use(c.NewValue)
}

func pullOpts() []resource.ReadOption {
	opts := []resource.ReadOption{
		resource.WithBackpressure(sym.Flip("backpressure")),
		resource.WithUpdatesOnly(sym.Flip("updatesOnly")),
	}
	if sym.Flip("mask") {
		opts = append(opts, resource.WithReadMask(hx.Mask("title", "segments")))
	}
	return opts
}

// CheckCollection: operations on a collection.
//
// gosym: time=60s thorough.time=300s
func CheckCollection() {
	sym.NoTimers(true)
	opts := []resource.Option{
		resource.WithInitialRecord("a", mode("a")), resource.WithInitialRecord("b", mode("b")),
		resource.WithClock(&hx.Clock{Hold: true}),
	}
	if sym.Flip("noDuplicates") {
		opts = append(opts, resource.WithNoDuplicates())
	}
	var c *resource.Collection
	w := newCrew()
	ops := []func(){
		func() {
			var id string
			m, _ := c.Add("", mode("x"), append(writing(&id), resource.WithGenIDIfAbsent())...)
			use(m)
		},
		func() {
			var id string
			m, _ := c.Add("", mode("y"), append(writing(&id), resource.WithGenIDIfAbsent())...)
			use(m)
		},
		func() {
			var id string
			m, _ := c.Update("a", mode("u"), append(writing(&id), resource.WithCreateIfAbsent())...)
			use(m)
		},
		func() {
			in := mode("v")
			m, _ := c.Update("a", in, resource.WithUpdatePaths("title", "segments"), resource.WithResetPaths("start_time"))
			use(m)
			in.Title, in.Segments[0].Magnitude = "mine", 9
		},
		func() {
			m, _ := c.Delete("a", resource.WithExpectedCheck(func(m proto.Message) error { use(m); return nil }), resource.WithAllowMissing(true))
			use(m)
		},
		func() { c.Delete("a", resource.WithExpectedValue(mode("a"))) },
		func() { m, _ := c.Get("a"); use(m) },
		func() { m, _ := c.Get("a", resource.WithReadMask(hx.Mask("segments"))); use(m) },
		func() {
			useAll(c.List(resource.WithInclude(func(id string, m proto.Message) bool { use(m); return id == "a" })))
		},
	}
	// subscriptions are there from the start, or concurrent
	subs := []func(){
		func() {},
		func() { drain(c.Pull(w.ctx, pullOpts()...), useChange) },
		func() {
			drain(c.Pull(w.ctx, resource.WithBackpressure(true), resource.WithInclude(func(id string, m proto.Message) bool {
				use(m)
				return m.(*traits.ElectricMode).Title != "u"
			})), useChange)
		},
		func() { drain(c.PullID(w.ctx, "a", pullOpts()...), useValue) },
	}
	c = resource.NewCollection(opts...)
	sub := subs[sym.Choice("sub", len(subs))]
	done := make(chan struct{})
	explore(1, 2)
	go func() { defer close(done); sub() }()
	w.some(2+bool2int(sym.Thorough()), ops)
	w.finish()
	<-done
}

func bool2int(b bool) int {
	if b {
		return 1
	}
	return 0
}

// CheckValue: operations on a value.
//
// gosym: time=60s thorough.time=300s
func CheckValue() {
	sym.NoTimers(true)
	opts := []resource.Option{resource.WithInitialValue(mode("a")), resource.WithClock(&hx.Clock{Hold: true})}
	if sym.Flip("noDuplicates") {
		opts = append(opts, resource.WithNoDuplicates())
	}
	v := resource.NewValue(opts...)
	w := newCrew()
	ops := []func(){
		func() { var id string; m, _ := v.Set(mode("x"), writing(&id)...); use(m) },
		func() { var id string; m, _ := v.Set(mode("y"), writing(&id)...); use(m) },
		func() {
			in := mode("v")
			m, _ := v.Set(in, resource.WithUpdatePaths("title", "segments"), resource.WithResetPaths("start_time"))
			use(m)
			in.Title, in.Segments[0].Magnitude = "mine", 9
		},
		func() { m, _ := v.Set(mode("z"), resource.WithExpectedValue(mode("a"))); use(m) },
		func() { use(v.Get()) },
		func() { use(v.Get(resource.WithReadMask(hx.Mask("segments")))) },
		func() { m, _ := v.Set(mode("w"), resource.WithMoreWritablePaths("title")); use(m) },
	}
	pulls := sym.Choice("pulls", 3)
	done := make(chan struct{}, 2)
	explore(1, 2)
	for i := 0; i < pulls; i++ {
		popts := []resource.ReadOption{resource.WithBackpressure(i == 0), resource.WithUpdatesOnly(i == 1)}
		go func() {
			drain(v.Pull(w.ctx, popts...), useValue)
			done <- struct{}{}
		}()
	}
	w.some(2+bool2int(sym.Thorough()), ops)
	w.finish()
	for i := 0; i < pulls; i++ {
		<-done
	}
}

type log struct{}

func (log) In(op string, m proto.Message, change func()) { change() }
func (log) Out(op string, m proto.Message)               { use(m) }

// CheckModels: writing, reading and subscribing to each of the trait models.
//
// gosym: time=100s thorough.time=500s
func CheckModels() {
	sym.NoTimers(true)
	m := tm.All[sym.Choice("model", len(tm.All))].New()
	w := newCrew()
	var ops []func()
	for _, o := range m.Writes {
		for n := 0; n < 2; n++ {
			ops = append(ops, func() { o.Do(log{}, n) })
		}
	}
	for _, o := range m.Reads {
		for n := 0; n < 2; n++ {
			ops = append(ops, func() { o.Do(log{}, n) })
		}
	}
	pull := sym.Choice("pull", len(m.Pulls)+1)
	done := make(chan struct{})
	explore(1, 2)
	if pull < len(m.Pulls) {
		bp := sym.Flip("backpressure")
		go func() {
			defer close(done)
			next := m.Pulls[pull].Start(w.ctx, resource.WithBackpressure(bp))
			for {
				ms, ok := next()
				if !ok {
					return
				}
				useAll(ms)
			}
		}()
	} else {
		close(done)
	}
	w.some(2, ops)
	w.finish()
	<-done
}

// CheckTwoModels: models of the same kind share nothing.
//
// gosym: time=60s thorough.time=120s
func CheckTwoModels() {
	sym.NoTimers(true)
	i := sym.Choice("model", len(newDefault)+len(tm.All))
	if i >= len(newDefault) && tm.All[i-len(newDefault)].Name == "wastepb" {
		return // makes a hundred records, and as many goroutines
	}
	explore(1, 2)
	w := newCrew()
	for k := 0; k < 2; k++ {
		w.do(func() {
			if i < len(newDefault) {
				newDefault[i]()
				return
			}
			m := tm.All[i-len(newDefault)].New()
			m.Writes[k%len(m.Writes)].Do(log{}, 1)
			m.Reads[k%len(m.Reads)].Do(log{}, 0)
		})
	}
	w.finish()
}
