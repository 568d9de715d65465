package c01

import (
	"context"
	"sort"
	"strings"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/types"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

// model is the reference map.
type model map[string]rec

func (m model) ids() []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (m model) check(label string, c *resource.Collection) {
	ids := m.ids()
	l := c.List()
	sym.Assert(label+"-list-len", len(l) == len(ids), len(l), len(ids))
	for i, id := range ids {
		r := m[id]
		hx.Same(label+"-list-item", l[i], r.msg())
		got, ok := c.Get(id)
		sym.Assert(label+"-get-found", ok, id)
		hx.Same(label+"-get", got, r.msg())
	}
	got, ok := c.Get("zzz-absent")
	sym.Assert(label+"-absent", !ok && got == nil)
}

func (m model) clone() model {
	r := model{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func mapID(intercept bool, id string) string {
	if intercept {
		return strings.ToLower(id)
	}
	return id
}

func initial(ids ...string) (model, []resource.Option) {
	m := model{}
	var ro []resource.Option
	for _, id := range ids {
		if sym.Flip("has." + id) {
			r := symRec("init."+id, false)
			m[id] = r
			ro = append(ro, resource.WithInitialRecord(id, r.msg()))
		}
	}
	return m, ro
}

// CheckUpdateStep: one Add or Update with any options on a Collection in any state.
//
// gosym: time=100s
func CheckUpdateStep() {
	m, ro := initial("a", "b")
	rng := &hx.Rng{Mod: 7}
	intercept := sym.Flip("intercept")
	ro = append(ro, resource.WithClock(&hx.Clock{}), resource.WithRNG(rng))
	if intercept {
		ro = append(ro, resource.WithIDInterceptor(strings.ToLower))
	}
	c := resource.NewCollection(ro...)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	evs := collect(c.Pull(ctx, resource.WithBackpressure(true), resource.WithUpdatesOnly(true)))

	id := []string{"a", "A", "", "c"}[sym.Choice("id", 4)]
	in := symRec("in", false)
	o := &opts{}
	o.mask = []int{0, 2, 4}[sym.Choice("mask", 3)]
	o.expect = sym.Choice("expect", 3)
	switch o.expect {
	case 1:
		o.expected = symRec("exp", false)
	case 2:
		o.checkLimit = sym.Int32("lim")
	}
	o.before = sym.Choice("before", 2)
	if o.mask == 0 {
		o.after = sym.Choice("after", 2)
	}
	wo := o.build()
	add := sym.Flip("add")
	expectAbsent, create := add, add
	if !add {
		if sym.Flip("expectAbsent") {
			expectAbsent = true
			wo = append(wo, resource.WithExpectAbsent())
		}
		if sym.Flip("create") {
			create = true
			wo = append(wo, resource.WithCreateIfAbsent())
		}
	}
	gen := id == "" && sym.Flip("gen")
	if gen {
		wo = append(wo, resource.WithGenIDIfAbsent())
	}
	var genIDs []string
	createdCalls := 0
	wo = append(wo, resource.WithIDCallback(func(id string) { genIDs = append(genIDs, id) }))
	wo = append(wo, resource.WithCreatedCallback(func() { createdCalls++ }))

	var got proto.Message
	var err error
	if add {
		got, err = c.Add(id, in.msg(), wo...)
	} else {
		got, err = c.Update(id, in.msg(), wo...)
	}

	// reference
	before := m.clone()
	want, werr := rec{}, error(nil)
	key := mapID(intercept, id)
	if gen && len(genIDs) == 1 {
		sym.Assert("gen-nonempty", genIDs[0] != "")
		key = mapID(intercept, genIDs[0])
		_, used := m[key]
		sym.Assert("gen-unused", !used, genIDs[0])
	}
	cur, exists := m[key]
	switch {
	case o.mask == 4:
		werr = status.Error(codes.InvalidArgument, "")
	case exists && expectAbsent:
		werr = status.Error(codes.AlreadyExists, "")
	case !exists && !create:
		werr = status.Error(codes.NotFound, "")
	default:
		want, werr = o.apply(&cur, in) // an absent item reads as the zero message
	}
	sym.Observe("err", err != nil)
	if werr != nil {
		sym.Assert("update-error-expected", err != nil, "expected", werr)
		sym.Assert("update-error-code", hx.Code(err) == hx.Code(werr), "got", err, "want", werr)
		sym.Assert("update-failed-no-intercept", o.calledBefore == 0 && o.calledAfter == 0)
		before.check("update-failed", c)
		sym.Quiesce()
		sym.Assert("update-failed-emits-nothing", len(evs.got) == 0)
		return
	}
	sym.Assert("update-no-error", err == nil, err)
	if gen {
		sym.Assert("gen-once", len(genIDs) == 1, len(genIDs))
	} else {
		sym.Assert("gen-none", len(genIDs) == 0)
	}
	m[key] = want
	hx.Same("update-result", got, want.msg())
	m.check("update", c)
	sym.Assert("created-callback", (createdCalls == 1) == !exists && createdCalls <= 1, createdCalls)
	sym.Quiesce()
	sym.Assert("update-emits-one", len(evs.got) == 1, len(evs.got))
	ev := evs.got[0]
	sym.Assert("event-id", ev.Id == key, ev.Id)
	sym.Assert("event-type", ev.ChangeType == types.ChangeType_ADD == !exists)
	hx.Same("event-new", ev.NewValue, want.msg())
	if gen {
		// the reported id is usable
		g, ok := c.Get(genIDs[0])
		sym.Assert("gen-get", ok, genIDs[0])
		hx.Same("gen-get-value", g, want.msg())
		_, err := c.Update(genIDs[0], &msg{DefaultInt32: 3})
		sym.Assert("gen-update", err == nil, err)
		_, err = c.Delete(genIDs[0])
		sym.Assert("gen-delete", err == nil, err)
		before.check("gen-deleted", c)
	}
}

// CheckDeleteStep: one Delete with any options on a Collection in any state.
//
// gosym: time=60s
func CheckDeleteStep() {
	m, ro := initial("a", "b")
	intercept := sym.Flip("intercept")
	if intercept {
		ro = append(ro, resource.WithIDInterceptor(strings.ToLower))
	}
	clk := &hx.Clock{}
	ro = append(ro, resource.WithClock(clk))
	c := resource.NewCollection(ro...)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	evs := collect(c.Pull(ctx, resource.WithBackpressure(true), resource.WithUpdatesOnly(true)))
	id := []string{"a", "A", "c", ""}[sym.Choice("id", 4)]
	var wo []resource.WriteOption
	allow := sym.Choice("allow", 3)
	if allow > 0 {
		wo = append(wo, resource.WithAllowMissing(allow == 1))
	}
	expVal, check := sym.Flip("expVal"), sym.Flip("check")
	exp, lim := symRec("exp", false), sym.Int32("lim")
	if expVal {
		wo = append(wo, resource.WithExpectedValue(exp.msg()))
	}
	checked := 0
	if check {
		wo = append(wo, resource.WithExpectedCheck(func(m proto.Message) error {
			checked++
			if m.(*msg).DefaultInt32 > lim {
				return checkErr
			}
			return nil
		}))
	}
	got, err := c.Delete(id, wo...)
	key := mapID(intercept, id)
	cur, exists := m[key]
	sym.Observe("err", err != nil)
	fail := true
	switch {
	case !exists && allow == 1:
		sym.Assert("delete-missing-allowed", err == nil && got == nil, err)
		fail = false
	case !exists:
		sym.Assert("delete-missing", hx.Code(err) == codes.NotFound, err)
	case check && cur.a > lim && expVal && cur != exp:
		sym.Assert("delete-both-failed", hx.Code(err) == codes.OutOfRange || hx.Code(err) == codes.FailedPrecondition, err)
	case check && cur.a > lim:
		sym.Assert("delete-check-failed", hx.Code(err) == codes.OutOfRange, err)
	case expVal && cur != exp:
		sym.Assert("delete-expected-failed", hx.Code(err) == codes.FailedPrecondition, err)
	default:
		fail = false
		sym.Assert("delete-ok", err == nil, err)
		hx.Same("delete-result", got, cur.msg())
		delete(m, key)
		sym.Quiesce()
		sym.Assert("delete-emits-one", len(evs.got) == 1, len(evs.got))
		ev := evs.got[0]
		sym.Assert("delete-event", ev.Id == key && ev.ChangeType == types.ChangeType_REMOVE && ev.NewValue == nil)
		hx.Same("delete-event-old", ev.OldValue, cur.msg())
	}
	if fail {
		sym.Assert("delete-error", err != nil)
	}
	m.check("delete", c)
	if fail {
		sym.Quiesce()
		sym.Assert("delete-failed-emits-nothing", len(evs.got) == 0)
	}
}

// CheckSequence: any sequence of calls against the reference map.
//
// gosym: time=100s thorough.time=400s
func CheckSequence() {
	m, ro := initial("a")
	c := resource.NewCollection(append(ro, resource.WithClock(&hx.Clock{}))...)
	n := 3
	if sym.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		id := []string{"a", "b"}[sym.Choice("id", 2)]
		cur, exists := m[id]
		in := symRec("in", false)
		switch sym.Choice("op", 7) {
		case 0:
			got, err := c.Add(id, in.msg())
			if exists {
				sym.Assert("seq-add-exists", hx.Code(err) == codes.AlreadyExists, err)
			} else {
				sym.Assert("seq-add", err == nil, err)
				hx.Same("seq-add-result", got, in.msg())
				m[id] = in
			}
		case 1:
			got, err := c.Update(id, in.msg())
			if !exists {
				sym.Assert("seq-update-missing", hx.Code(err) == codes.NotFound, err)
			} else {
				sym.Assert("seq-update", err == nil, err)
				hx.Same("seq-update-result", got, in.msg())
				m[id] = in
			}
		case 2:
			got, err := c.Update(id, in.msg(), resource.WithCreateIfAbsent(), resource.WithUpdatePaths("default_int32"))
			cur.a = in.a
			sym.Assert("seq-upsert", err == nil, err)
			hx.Same("seq-upsert-result", got, cur.msg())
			m[id] = cur
		case 3:
			got, err := c.Delete(id)
			if !exists {
				sym.Assert("seq-delete-missing", hx.Code(err) == codes.NotFound, err)
			} else {
				sym.Assert("seq-delete", err == nil, err)
				hx.Same("seq-delete-result", got, cur.msg())
				delete(m, id)
			}
		case 4:
			_, err := c.Delete(id, resource.WithAllowMissing(true))
			sym.Assert("seq-delete-allowed", err == nil, err)
			delete(m, id)
		case 5:
			got, ok := c.Get(id)
			sym.Assert("seq-get-ok", ok == exists)
			if ok {
				hx.Same("seq-get", got, cur.msg())
			}
		case 6:
			got, err := c.Update(id, in.msg(), resource.WithExpectedValue((&rec{a: cur.a, b: cur.b}).msg()), resource.WithExpectedCheck(func(m proto.Message) error {
				if m.(*msg).DefaultInt32 == 5 {
					return checkErr
				}
				return nil
			}))
			switch {
			case !exists:
				sym.Assert("seq-cas-missing", hx.Code(err) == codes.NotFound, err)
			case cur.a == 5:
				sym.Assert("seq-cas-check", hx.Code(err) == codes.OutOfRange, err)
			default:
				sym.Assert("seq-cas", err == nil, err)
				hx.Same("seq-cas-result", got, in.msg())
				m[id] = in
			}
		}
	}
	m.check("seq", c)
}

// CheckListOrder: List is sorted by id for arbitrary ids.
//
// gosym: time=60s
func CheckListOrder() {
	c := resource.NewCollection()
	n := 3
	m := map[string]int32{}
	for i := 0; i < n; i++ {
		id := "x" + sym.String("id", 2)
		_, dup := m[id]
		_, err := c.Add(id, &msg{DefaultInt32: int32(i), DefaultString: id})
		sym.Assert("order-add", (err != nil) == dup, err)
		if !dup {
			m[id] = int32(i)
		}
	}
	l := c.List()
	sym.Assert("order-len", len(l) == len(m))
	for i := range l {
		x := l[i].(*msg)
		sym.Assert("order-item", m[x.DefaultString] == x.DefaultInt32)
		if i > 0 {
			sym.Assert("order-sorted", l[i-1].(*msg).DefaultString < x.DefaultString)
		}
	}
}

// CheckGenerateID: the id returned is one that did not exist, whatever exists; exhaustion is an error.
//
// gosym: time=30s
func CheckGenerateID() {
	tried := map[string]bool{}
	n := 0
	id, err := resource.GenerateUniqueId(&hx.Rng{Mod: 5, Base: 1}, func(cand string) bool {
		n++
		sym.Assert("gen-candidate", cand != "")
		e := sym.Flip("exists")
		tried[cand] = e
		return e
	})
	if err != nil {
		sym.Assert("gen-aborted", hx.Code(err) == codes.Aborted && id == "", err)
		sym.Assert("gen-tries", n == 10, n)
		return
	}
	e, ok := tried[id]
	sym.Assert("gen-free", ok && !e && id != "", id)
	sym.Cover("generated")
}

var _ = testproto.TestAllTypes{}
