package c11

import (
	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
)

// newDefault makes and uses models with nothing but their default options.
var newDefault = []func(){
	func() {
		m := electricpb.NewModel()
		m.CreateMode(mode("a"))
		m.CreateMode(mode("b"))
		m.UpdateDemand(&traits.ElectricDemand{Current: 3})
	},
	func() {
		m := hailpb.NewModel()
		m.CreateHail(&traits.Hail{})
	},
	func() {
		m := publicationpb.NewModel()
		m.CreatePublication(&traits.Publication{})
	},
}
