// Package c19: the electric model's mode invariants.
package c19

import (
	"context"
	"math/rand"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"

	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
)

// api is how operations are done, by methods of the model or RPCs.
type api interface {
	create(normal bool) (*traits.ElectricMode, error)
	update(m *traits.ElectricMode, mask *fieldmaskpb.FieldMask) (*traits.ElectricMode, error)
	delete(id string, allowMissing bool) error
	change(id string) (*traits.ElectricMode, error)
	clear() (*traits.ElectricMode, error)
}

type byModel struct{ m *electricpb.Model }

func (a byModel) create(normal bool) (*traits.ElectricMode, error) {
	return a.m.CreateMode(&traits.ElectricMode{Title: "new", Normal: normal})
}
func (a byModel) update(m *traits.ElectricMode, mask *fieldmaskpb.FieldMask) (*traits.ElectricMode, error) {
	return a.m.UpdateMode(m, resource.WithUpdateMask(mask))
}
func (a byModel) delete(id string, allowMissing bool) error {
	if !allowMissing && sym.Flip("without-option") {
		return a.m.DeleteMode(id)
	}
	return a.m.DeleteMode(id, resource.WithAllowMissing(allowMissing))
}
func (a byModel) change(id string) (*traits.ElectricMode, error) { return a.m.ChangeActiveMode(id) }
func (a byModel) clear() (*traits.ElectricMode, error)           { return a.m.ChangeToNormalMode() }

type byServer struct {
	e traits.ElectricApiClient
	s electricpb.MemorySettingsApiClient
}

func (a byServer) create(normal bool) (*traits.ElectricMode, error) {
	return a.s.CreateMode(context.Background(), &electricpb.CreateModeRequest{Name: "e", Mode: &traits.ElectricMode{Title: "new", Normal: normal}})
}
func (a byServer) update(m *traits.ElectricMode, mask *fieldmaskpb.FieldMask) (*traits.ElectricMode, error) {
	return a.s.UpdateMode(context.Background(), &electricpb.UpdateModeRequest{Name: "e", Mode: m, UpdateMask: mask})
}
func (a byServer) delete(id string, allowMissing bool) error {
	_, err := a.s.DeleteMode(context.Background(), &electricpb.DeleteModeRequest{Name: "e", Id: id, AllowMissing: allowMissing})
	return err
}
func (a byServer) change(id string) (*traits.ElectricMode, error) {
	return a.e.UpdateActiveMode(context.Background(), &traits.UpdateActiveModeRequest{Name: "e", ActiveMode: &traits.ElectricMode{Id: id}})
}
func (a byServer) clear() (*traits.ElectricMode, error) {
	return a.e.ClearActiveMode(context.Background(), &traits.ClearActiveModeRequest{Name: "e"})
}

var ids = []string{"a", "b", "c", "d"}

type world struct {
	m       *electricpb.Model
	clk     *tm.Clock
	api     api
	server  bool
	changed bool // the active mode was changed, it refers to a mode that exists from then on
}

// begin makes a model with n modes at most, any or none of them normal, and any or none of them active.
func begin(n int, server bool) *world {
	w := &world{clk: &tm.Clock{T: hx.Clock{Hold: true}}, server: server}
	w.clk.T.N = int64(sym.Int("now", 0, 1000000000))
	opts := []resource.Option{electricpb.WithClock(w.clk), electricpb.WithRNG(rand.New(&tm.Source{}))}
	normal := sym.Choice("normal", n+1)
	var have []string
	for i, id := range ids[:n] {
		if !sym.Flip("has-" + id) {
			continue
		}
		have = append(have, id)
		mode := &traits.ElectricMode{Id: id, Title: "mode " + id, Normal: i == normal}
		if i%2 == 1 { // what's stored has a start time, it isn't when the mode became active
			mode.StartTime = &timestamppb.Timestamp{Seconds: 5}
		}
		opts = append(opts, electricpb.WithInitialMode(mode))
	}
	w.m = electricpb.NewModel(opts...)
	if k := sym.Choice("active", len(have)+1); k < len(have) {
		if _, err := w.m.ChangeActiveMode(have[k]); err != nil {
			sym.Fail("change-existing", err)
		}
		w.changed = true
		w.clk.T.N += int64(sym.Int("elapsed", 1, 1000))
	}
	w.api = byModel{w.m}
	if server {
		s := electricpb.NewModelServer(w.m)
		w.api = byServer{electricpb.WrapApi(s), electricpb.WrapMemorySettingsApi(s)}
	}
	return w
}

func (w *world) modes() map[string]*traits.ElectricMode {
	all := map[string]*traits.ElectricMode{}
	for _, m := range w.m.Modes() {
		all[m.Id] = m
	}
	return all
}

// invariants hold after every operation.
func (w *world) invariants() map[string]*traits.ElectricMode {
	modes := w.modes()
	var normal []string
	for _, m := range w.m.Modes() {
		if m.Normal {
			normal = append(normal, m.Id)
		}
	}
	sym.Assert("one-normal", len(normal) <= 1, normal)
	m, ok := w.m.NormalMode()
	sym.Assert("normal-mode", ok == (len(normal) > 0), ok, normal)
	if ok && len(normal) > 0 {
		sym.Assert("normal-mode-id", m.Id == normal[0], m.Id, normal)
	}
	active := w.m.ActiveMode()
	if w.changed {
		_, ok := modes[active.Id]
		sym.Assert("active-exists", ok, active.Id)
		f, ok := w.m.FindMode(active.Id)
		sym.Assert("active-found", ok && f.Id == active.Id, active.Id)
	}
	return modes
}

const (
	create = iota
	add
	update
	del
	set
	change
	clearActive
	kinds
)

// op is an operation and its outcome.
type op struct {
	kind    int
	id      string
	normal  bool
	mask    *fieldmaskpb.FieldMask
	missing bool
	res     *traits.ElectricMode
	err     error
}

func choose(name string, kind int, n int) *op {
	o := &op{kind: kind}
	if kind != create && kind != clearActive {
		o.id = ids[sym.Choice(name+"id", n)]
	}
	switch kind {
	case create, add:
		o.normal = sym.Bool(name + "normal")
	case update:
		o.normal = sym.Bool(name + "normal")
		o.mask = []*fieldmaskpb.FieldMask{nil, hx.Mask("normal"), hx.Mask("title", "normal"), hx.Mask("title"), hx.Mask("segments"), hx.Mask("bad")}[sym.Choice(name+"mask", 6)]
	case del:
		o.missing = sym.Flip(name + "missing")
	}
	return o
}

// run does o, kinds without an RPC are done by the model.
func (w *world) run(o *op) {
	switch o.kind {
	case create:
		o.res, o.err = w.api.create(o.normal)
	case add:
		o.err = w.m.AddMode(&traits.ElectricMode{Id: o.id, Title: "added", Normal: o.normal})
	case update:
		o.res, o.err = w.api.update(&traits.ElectricMode{Id: o.id, Title: "updated", Normal: o.normal}, o.mask)
	case del:
		o.err = w.api.delete(o.id, o.missing)
	case set:
		o.err = w.m.SetActiveMode(&traits.ElectricMode{Id: o.id, Title: "set", StartTime: &timestamppb.Timestamp{Seconds: 7}})
	case change:
		o.res, o.err = w.api.change(o.id)
	case clearActive:
		o.res, o.err = w.api.clear()
	}
}

// step does o and checks what it did.
func (w *world) step(o *op) {
	before := w.modes()
	active := w.m.ActiveMode()
	normal := ""
	for id, m := range before {
		if m.Normal {
			normal = id
		}
	}
	had := before[o.id] != nil
	now := w.clk.T.Peek()
	if e := hx.Catch(func() { w.run(o) }); e != nil {
		sym.Fail("panics", o.kind, e)
		return
	}
	if o.err == nil && (o.kind == set || o.kind == change || o.kind == clearActive) {
		w.changed = true
	}
	after := w.invariants()
	nowActive := w.m.ActiveMode()

	started := func(id string) {
		sym.Assert("changed", nowActive.Id == id, nowActive.Id, id)
		sym.Assert("change-response", o.res != nil && proto.Equal(o.res, nowActive), o.res, nowActive)
		if active.Id != id {
			sym.Assert("start-time", nowActive.StartTime != nil && nowActive.StartTime.AsTime().Equal(now), nowActive.StartTime)
		}
	}
	switch o.kind {
	case del:
		switch {
		case !had:
			sym.Cover("delete absent")
			if o.missing {
				sym.Assert("delete-allow-missing", o.err == nil, o.err)
			} else {
				sym.Assert("delete-absent", hx.Code(o.err) == codes.NotFound, o.err)
			}
		case active.Id == o.id:
			sym.Cover("delete active")
			sym.Assert("delete-active", o.err != nil && after[o.id] != nil, o.err)
		default:
			sym.Assert("deleted", o.err == nil && after[o.id] == nil, o.err)
		}
		n := len(before)
		if had && o.err == nil {
			n--
		}
		sym.Assert("deletes-one", len(after) == n, len(after), n)
	case set:
		sym.Assert("set-known", (o.err == nil) == had, o.err)
		if o.err == nil {
			sym.Assert("set", nowActive.Id == o.id, nowActive.Id)
		} else {
			sym.Assert("set-unknown", hx.Code(o.err) == codes.NotFound, o.err)
		}
	case change:
		sym.Assert("change-known", (o.err == nil) == had, o.err)
		if o.err == nil {
			started(o.id)
		} else {
			sym.Assert("change-unknown", hx.Code(o.err) == codes.NotFound, o.err)
		}
	case clearActive:
		sym.Assert("clear-to-normal", (o.err == nil) == (normal != ""), o.err, normal)
		if o.err == nil {
			started(normal)
		} else {
			sym.Assert("no-normal", hx.Code(o.err) == codes.NotFound, o.err)
		}
	case create, add:
		sym.Assert("created", (o.err == nil) == (len(after) == len(before)+1), o.err, len(after), len(before))
		refused := had
		if o.normal && normal != "" {
			refused = true
		}
		sym.Assert("create-refused", (o.err != nil) == refused, o.err, refused)
		if o.err == nil && o.kind == create {
			sym.Assert("created-id", o.res.Id != "" && after[o.res.Id] != nil && before[o.res.Id] == nil, o.res)
		}
	case update:
		if o.err != nil {
			sym.Cover("update refused")
			for id, m := range after {
				sym.Assert("refused-unchanged", before[id] != nil && proto.Equal(m, before[id]), m)
			}
		} else {
			sym.Assert("updated", had && proto.Equal(o.res, after[o.id]), o.res)
		}
		sym.Assert("update-keeps-modes", len(after) == len(before), len(after))
		if had && !(o.normal && normal != "" && normal != o.id) && (o.mask == nil || o.mask.Paths[0] != "bad") {
			sym.Assert("update-accepted", o.err == nil, o.err)
		}
	}
	if o.err != nil || o.kind < set {
		sym.Assert("active-unchanged", proto.Equal(active, nowActive), active, nowActive)
	}
	if o.kind >= set {
		sym.Assert("modes-unchanged", len(after) == len(before), len(after))
		for id, m := range after {
			sym.Assert("mode-unchanged", before[id] != nil && proto.Equal(m, before[id]), m)
		}
	}
	sym.Cover("done")
}

// CheckStep does any one operation from any state with up to three modes, so by induction sequences of all lengths
// of the model's own state are covered.
// gosym: time=60s thorough.time=300s
func CheckStep() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	w := begin(n, sym.Flip("server"))
	w.invariants()
	w.step(choose("", sym.Choice("op", kinds), n+1))
}

// CheckSequences does several operations from a new model.
// gosym: time=60s thorough.time=400s
func CheckSequences() {
	n, k := 2, 3
	if sym.Thorough() {
		k = 4
	}
	w := &world{clk: &tm.Clock{T: hx.Clock{Hold: true}}}
	w.m = electricpb.NewModel(electricpb.WithClock(w.clk), electricpb.WithRNG(rand.New(&tm.Source{})))
	w.api = byModel{w.m}
	for i := 0; i < k; i++ {
		name := string(rune('1' + i))
		w.clk.T.N++
		kind := sym.Choice(name+"op", kinds)
		if i == 0 {
			sym.Assume(kind < update)
		}
		w.step(choose(name, kind, n))
	}
}

// CheckDummy deletes and changes to the mode without an id, and keeps a model's initial active mode.
// gosym: time=20s
func CheckDummy() {
	clk := &tm.Clock{T: hx.Clock{Hold: true}}
	var opts []resource.Option
	initial := sym.Flip("initial")
	if initial {
		opts = append(opts, electricpb.WithInitialActiveMode(&traits.ElectricMode{Id: "x", Title: "X"}))
	}
	opts = append(opts, electricpb.WithClock(clk), electricpb.WithInitialMode(&traits.ElectricMode{Id: "a", Normal: true}))
	m := electricpb.NewModel(opts...)
	id := []string{"", "x"}[sym.Choice("id", 2)]
	active := m.ActiveMode()
	if initial {
		sym.Assert("initial-active", active.Id == "x", active)
	} else {
		sym.Assert("no-active", active.Id == "", active)
	}
	var a api = byModel{m}
	if id != "" && sym.Flip("server") {
		s := electricpb.NewModelServer(m)
		a = byServer{electricpb.WrapApi(s), electricpb.WrapMemorySettingsApi(s)}
	}
	sym.Assert("delete-absent", hx.Code(a.delete(id, false)) == codes.NotFound, id)
	sym.Assert("delete-allow-missing", a.delete(id, true) == nil, id)
	_, err := a.change(id)
	sym.Assert("change-unknown", hx.Code(err) == codes.NotFound, err)
	sym.Assert("set-unknown", hx.Code(m.SetActiveMode(&traits.ElectricMode{Id: id})) == codes.NotFound)
	sym.Assert("active-unchanged", proto.Equal(m.ActiveMode(), active))
	now := clk.T.Peek()
	res, err := a.clear()
	sym.Assert("clear", err == nil && res.Id == "a" && res.StartTime.AsTime().Equal(now), res, err)
}

// CheckStreams follows the modes and the active mode, every change of the active mode is to one that exists.
// gosym: time=30s
func CheckStreams() {
	w := begin(2, false)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var mu sync.Mutex
	modes := map[string]bool{}
	active := ""
	normals := map[string]bool{}
	pm := w.m.PullModes(ctx)
	pa := w.m.PullActiveMode(ctx)
	go func() {
		for c := range pm {
			mu.Lock()
			if c.OldValue != nil {
				delete(modes, c.OldValue.Id)
				delete(normals, c.OldValue.Id)
			}
			if c.NewValue != nil {
				modes[c.NewValue.Id] = true
				if c.NewValue.Normal {
					normals[c.NewValue.Id] = true
				}
			}
			mu.Unlock()
		}
	}()
	go func() {
		for c := range pa {
			mu.Lock()
			active = c.ActiveMode.Id
			mu.Unlock()
		}
	}()
	sym.Quiesce()
	for _, name := range []string{"1", "2"} {
		w.clk.T.N++
		w.step(choose(name, sym.Choice(name+"op", kinds), 2))
		sym.Quiesce()
		mu.Lock()
		all := w.modes()
		sym.Assert("stream-modes", len(modes) == len(all), len(modes), len(all))
		for id := range all {
			sym.Assert("stream-mode", modes[id], id)
		}
		sym.Assert("stream-active", active == w.m.ActiveMode().Id, active)
		if w.changed {
			sym.Assert("stream-active-exists", modes[active], active)
		}
		sym.Assert("stream-one-normal", len(normals) <= 1, len(normals))
		mu.Unlock()
	}
}

// CheckConcurrent does operations in several goroutines.
// gosym: time=100s thorough.time=500s
func CheckConcurrent() {
	w := begin(2, false)
	n := 2
	if sym.Thorough() && sym.Flip("three") {
		n = 3
	}
	w.server = false
	var ops []*op
	last := 0
	for i := 0; i < n; i++ {
		name := string(rune('1' + i))
		k := last + sym.Choice(name+"op", kinds-last) // order doesn't matter
		last = k
		o := choose(name, k, 2)
		if k == update {
			sym.Assume(o.mask == nil || len(o.mask.Paths) == 1 && o.mask.Paths[0] == "normal")
		}
		ops = append(ops, o)
	}
	active := w.m.ActiveMode().Id
	now := w.clk.T.Peek()
	sym.Delays(2, 60)
	var wg sync.WaitGroup
	for _, o := range ops {
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.run(o)
		}()
	}
	wg.Wait()
	sym.Sequential()
	for _, o := range ops {
		if o.err == nil && o.kind >= set {
			w.changed = true
		}
	}
	modes := w.invariants()
	for _, o := range ops {
		switch {
		case o.err != nil:
		case o.kind == create:
			sym.Assert("created-stays", modes[o.res.Id] != nil, o.res.Id)
		case o.kind == clearActive:
			sym.Assert("cleared-to-normal", o.res.Normal, o.res)
			fallthrough
		case o.kind == change:
			if o.res.Id != active && n == 2 && ops[0].kind < set { // the only switch
				sym.Assert("start-time", o.res.StartTime.AsTime().Equal(now), o.res)
			}
		}
	}
	sym.Cover("done")
}

var _ = time.Now
