package c04

import (
	"context"
	"slices"
	"sync"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/types"

	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

// joined is what a subscriber received, or what the writes were.
type joined struct {
	seed bool
	kind types.ChangeType
	id   string
	old  int32
	new  int32 // 0 is absent
}

func num(m proto.Message) int32 {
	if m == nil {
		return 0
	}
	return m.(*msg).DefaultInt32
}

// CheckJoin: a subscription opened while the one writer writes. The seed is the state between two writes (or before or
// after them all) and what follows is the script from there, each write once. Every interleaving.
//
// gosym: time=60s thorough.time=400s
func CheckJoin() {
	kind := sym.Choice("kind", 3) // collection, one item of a collection, value
	updatesOnly := sym.Flip("updatesOnly")
	initial := kind == 2 || sym.Flip("initial")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	opts := []resource.ReadOption{resource.WithBackpressure(true), resource.WithUpdatesOnly(updatesOnly)}
	const n = 3
	state := int32(0)
	if initial {
		state = 100
	}
	states := []int32{state}
	var script []joined
	var dels [n]bool
	for i := range dels {
		dels[i] = kind == 0 && state != 0 && sym.Flip("del")
		e := joined{id: "a", kind: types.ChangeType_UPDATE, old: state, new: int32(i + 1)}
		switch {
		case dels[i]:
			e.kind, e.new = types.ChangeType_REMOVE, 0
		case state == 0:
			e.kind = types.ChangeType_ADD
		}
		state = e.new
		if kind != 0 {
			e = joined{new: e.new}
		}
		script, states = append(script, e), append(states, state)
	}

	var mu sync.Mutex
	lock := func() func() { // native runs only, accesses by different goroutines
		if sym.Symbolic() {
			return func() {}
		}
		mu.Lock()
		return mu.Unlock
	}
	started := 0 // writes that were started
	var got []joined
	receive := func(j joined) {
		defer lock()()
		got = append(got, j)
	}
	var write func(i int) error
	var subscribe func() (read func())
	switch kind {
	case 2:
		v := resource.NewValue(resource.WithClock(&hx.Clock{Hold: true}), resource.WithInitialValue(&msg{DefaultInt32: 100}))
		write = func(i int) error {
			_, err := v.Set(&msg{DefaultInt32: int32(i + 1)})
			return err
		}
		subscribe = func() func() {
			ch := v.Pull(ctx, opts...)
			return func() {
				for e := range ch {
					receive(joined{seed: e.SeedValue, new: num(e.Value)})
				}
			}
		}
	default:
		co := []resource.Option{resource.WithClock(&hx.Clock{Hold: true})}
		if initial {
			co = append(co, resource.WithInitialRecord("a", &msg{DefaultInt32: 100}))
		}
		c := resource.NewCollection(co...)
		write = func(i int) error {
			if dels[i] {
				_, err := c.Delete("a")
				return err
			}
			_, err := c.Update("a", &msg{DefaultInt32: int32(i + 1)}, resource.WithCreateIfAbsent())
			return err
		}
		subscribe = func() func() {
			if kind == 1 {
				ch := c.PullID(ctx, "a", opts...)
				return func() {
					for e := range ch {
						receive(joined{seed: e.SeedValue, new: num(e.Value)})
					}
				}
			}
			ch := c.Pull(ctx, opts...)
			return func() {
				for e := range ch {
					receive(joined{seed: e.SeedValue, kind: e.ChangeType, id: e.Id, old: num(e.OldValue), new: num(e.NewValue)})
				}
			}
		}
	}

	sym.Explore(-1, 800)
	before := 0 // writes started when the subscription was open
	go func() {
		read := subscribe()
		func() {
			defer lock()()
			before = started
		}()
		read()
	}()
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < n; i++ {
			func() {
				defer lock()()
				started++
			}()
			if err := write(i); err != nil {
				sym.Fail("write", err)
			}
		}
	}()
	<-done
	sym.Sequential()
	sym.Quiesce()
	defer lock()()

	ok := false
	for k := 0; k <= before && !ok; k++ {
		var want []joined
		if !updatesOnly && states[k] != 0 {
			s := joined{seed: true, new: states[k]}
			if kind == 0 {
				s.id, s.kind = "a", types.ChangeType_ADD
			}
			want = append(want, s)
		}
		want = append(want, script[k:]...)
		ok = slices.Equal(want, got)
	}
	sym.Assert("script-from-the-seed-on", ok, len(got), before)
	sym.Cover("joined")
}
