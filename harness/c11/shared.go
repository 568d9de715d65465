package c11

import (
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/traits"

	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
)

// CheckSharedOptions: callers that use the same options, kept in a slice that has room for more, with the same masks.
//
// gosym: time=60s thorough.time=200s
func CheckSharedOptions() {
	sym.NoTimers(true)
	read := append(make([]resource.ReadOption, 0, 8),
		resource.WithBackpressure(sym.Flip("backpressure")), resource.WithReadMask(hx.Mask("title", "segments", "title")))
	plain := append(make([]resource.ReadOption, 0, 8), resource.WithUpdatesOnly(false))
	write := append(make([]resource.WriteOption, 0, 8),
		resource.WithUpdateMask(hx.Mask("title", "segments.magnitude", "title")), resource.WithResetMask(hx.Mask("voltage")), resource.WithMoreWritableFields(hx.Mask("title", "segments")))
	none := make([]resource.WriteOption, 0, 8)
	v := resource.NewValue(resource.WithInitialValue(mode("a")), resource.WithClock(&hx.Clock{Hold: true}))
	c := resource.NewCollection(resource.WithInitialRecord("a", mode("a")), resource.WithClock(&hx.Clock{Hold: true}), resource.WithWritableFields(hx.Mask("segments")))
	light := lightpb.NewModel(lightpb.WithPreset(50, &traits.LightPreset{Name: "p"}))
	oc := openclosepb.NewModel(openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "p"}, &traits.OpenClosePosition{OpenPercent: 5}))
	w := newCrew()
	some := func(m proto.Message, err error) {
		if err == nil {
			use(m)
		}
	}
	groups := [][]func(){
		{
			func() { use(v.Get(read...)) },
			func() { m, err := v.Set(&traits.ElectricMode{Title: "x"}, write...); some(m, err) },
			func() { ch := v.Pull(w.ctx, read...); go drain(ch, useValue) },
		},
		{
			func() { m, _ := c.Get("a", read...); use(m) },
			func() { useAll(c.List(read...)) },
			func() { m, err := c.Update("a", &traits.ElectricMode{Title: "x"}, write...); some(m, err) },
			func() { m, err := c.Add("b", &traits.ElectricMode{Title: "x"}, write...); some(m, err) },
			func() { m, err := c.Delete("a", none...); some(m, err) },
			func() { ch := c.Pull(w.ctx, read...); go drain(ch, useChange) },
			func() { ch := c.PullID(w.ctx, "a", read...); go drain(ch, useValue) },
		},
		{
			func() {
				m, err := light.UpdateBrightness(&traits.Brightness{Preset: &traits.LightPreset{Name: "p"}}, none...)
				some(m, err)
			},
			func() { m, err := light.GetBrightness(plain...); some(m, err) },
			func() {
				ch := light.PullBrightness(w.ctx, plain...)
				go drain(ch, func(e lightpb.PullBrightnessChange) { use(e.Value) })
			},
		},
		{
			func() {
				m, err := oc.UpdatePositions(&traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: "p"}}, none...)
				some(m, err)
			},
			func() {
				m, err := oc.UpdatePositions(&traits.OpenClosePositions{States: []*traits.OpenClosePosition{{OpenPercent: 3}}}, none...)
				some(m, err)
			},
			func() { m, err := oc.GetPositions(plain...); some(m, err) },
			func() {
				ch := oc.PullPositions(w.ctx, plain...)
				go drain(ch, func(e openclosepb.PullOpenClosePositionsChange) { use(e.Positions) })
			},
		},
	}
	ops := groups[sym.Choice("of", len(groups))]
	// the same twice, too
	i := sym.Choice("first", len(ops))
	j := i + sym.Choice("second", len(ops)-i)
	explore(1, 2)
	w.do(ops[i])
	w.do(ops[j])
	w.finish()
}
