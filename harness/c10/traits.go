package c10

import (
	"context"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type noLog struct{}

func (noLog) In(op string, m proto.Message, change func()) {}
func (noLog) Out(op string, m proto.Message)               {}

// CheckModels: subscriptions to every trait model end when they're cancelled, whatever their consumer does.
//
// gosym: time=60s thorough.time=400s
func CheckModels() {
	sym.NoTimers(true)
	sym.Start()
	model := tm.All[sym.Choice("model", len(tm.All))]
	m := model.New()
	pull := m.Pulls[sym.Choice("pull", len(m.Pulls))]
	only, bp := sym.Flip("only"), sym.Flip("bp")
	limit := sym.Choice("limit", 2)
	n := 1
	if sym.Thorough() {
		n = 2
	}
	sym.Delays(n, 300)
	ctx, cancel := context.WithCancel(context.Background())
	next := pull.Start(ctx, resource.WithUpdatesOnly(only), resource.WithBackpressure(bp))
	cancelled := false
	wrote := false
	go func() {
		m.Writes[0].Do(noLog{}, 0)
		m.Writes[0].Do(noLog{}, 1)
		wrote = true
	}()
	consumed := make(chan struct{})
	go func() {
		defer close(consumed)
		for i := 0; i < limit; i++ {
			if _, ok := next(); !ok {
				sym.Assert("the channel of "+model.Name+" is closed only after cancel", cancelled)
			}
		}
	}()
	cancelled = true
	cancel()
	sym.Quiesce()
	sym.Sequential()
	sym.Assert("writers aren't stalled by a cancelled subscription to "+model.Name, wrote)
	select {
	case <-consumed:
	default:
		sym.Fail("a consumer still waits for a cancelled subscription to " + model.Name)
	}
	sym.Assert("no goroutine is left of a cancelled subscription to "+model.Name, sym.Live() == 0)
	for i := 0; ; i++ {
		if _, ok := next(); !ok {
			break
		}
		sym.Assert("the channel of "+model.Name+" is closed after cancel", i < 10)
	}
}
