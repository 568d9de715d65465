// Package c01: Value and Collection behave like a register and a map.
package c01

import (
	"context"
	"errors"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type msg = testproto.TestAllTypes

// rec is the reference content of a message: the fields the harness uses.
type rec struct {
	a int32 // default_int32
	b int64 // default_int64
	n bool  // default_nested_message is set
	c int32 // default_nested_message.a
}

func (r rec) msg() *msg {
	m := &msg{DefaultInt32: r.a, DefaultInt64: r.b}
	if r.n {
		m.DefaultNestedMessage = &testproto.TestAllTypes_NestedMessage{A: r.c}
	}
	return m
}

func symRec(name string, nested bool) rec {
	r := rec{a: sym.Int32(name + ".a"), b: sym.Int64(name + ".b")}
	if nested && sym.Flip(name+".n") {
		r.n, r.c = true, sym.Int32(name+".c")
	}
	return r
}

// opts describes the options of one write.
type opts struct {
	mask, reset, expect, before, after, wtime int
	expected                                  rec
	checkLimit                                int32
	list                                      []resource.WriteOption
	calledBefore, calledAfter                 int
	wt                                        time.Time
}

const badPath = "no_such_field"

var checkErr = status.Error(codes.OutOfRange, "check failed")

var errPlain = errors.New("plain")

func (o *opts) build() []resource.WriteOption {
	var l []resource.WriteOption
	switch o.mask {
	case 1:
		l = append(l, resource.WithUpdateMask(hx.Mask()))
	case 2:
		l = append(l, resource.WithUpdatePaths("default_int32"))
	case 3:
		l = append(l, resource.WithUpdatePaths("default_nested_message", "default_int64"))
	case 4:
		l = append(l, resource.WithUpdatePaths(badPath))
	}
	switch o.reset {
	case 1:
		l = append(l, resource.WithResetPaths("default_int64"))
	case 2:
		l = append(l, resource.WithResetPaths(badPath))
	}
	switch o.expect {
	case 1:
		l = append(l, resource.WithExpectedValue(o.expected.msg()))
	case 2:
		l = append(l, resource.WithExpectedCheck(func(m proto.Message) error {
			if m != nil && m.(*msg).GetDefaultInt32() > o.checkLimit {
				return checkErr
			}
			return nil
		}))
	}
	if o.before == 1 {
		// a delta: what is written is the sum of the old value and the given one
		l = append(l, resource.InterceptBefore(func(old, new proto.Message) {
			o.calledBefore++
			if old != nil {
				new.(*msg).DefaultInt32 += old.(*msg).GetDefaultInt32()
			}
		}))
	}
	if o.after == 1 {
		l = append(l, resource.InterceptAfter(func(old, new proto.Message) {
			o.calledAfter++
			new.(*msg).DefaultInt64 = int64(new.(*msg).DefaultInt32) + 7
		}))
	}
	if o.wtime == 1 {
		o.wt = time.Unix(50, 0)
		l = append(l, resource.WithWriteTime(o.wt))
	}
	return l
}

func symOpts(name string) *opts {
	o := &opts{}
	o.mask = sym.Choice(name+".mask", 5)
	o.reset = sym.Choice(name+".reset", 3)
	o.expect = sym.Choice(name+".expect", 3)
	switch o.expect {
	case 1:
		o.expected = symRec(name+".exp", true)
	case 2:
		o.checkLimit = sym.Int32(name + ".lim")
	}
	o.before = sym.Choice(name+".before", 2)
	o.after = sym.Choice(name+".after", 2)
	o.wtime = sym.Choice(name+".wtime", 2)
	return o
}

// apply is the reference semantics of a write on an existing (or absent: old == nil) record.
func (o *opts) apply(old *rec, in rec) (rec, error) {
	if o.mask == 4 || o.reset == 2 {
		return rec{}, status.Error(codes.InvalidArgument, "")
	}
	cur := rec{}
	if old != nil {
		cur = *old
	}
	switch o.expect {
	case 1:
		if old == nil || !proto.Equal(cur.msg(), o.expected.msg()) {
			return rec{}, status.Error(codes.FailedPrecondition, "")
		}
	case 2:
		if old != nil && cur.a > o.checkLimit {
			return rec{}, checkErr
		}
	}
	if o.before == 1 && old != nil {
		in.a += cur.a
	}
	res := cur
	switch o.mask {
	case 0:
		res = in
	case 2:
		res.a = in.a
	case 3:
		res.b = in.b
		// a message field is merged when given and cleared when absent
		if in.n {
			if in.c != 0 || !res.n { // merging leaves a zero scalar alone
				res.c = in.c
			}
			res.n = true
		} else {
			res.n, res.c = false, 0
		}
	}
	if o.reset == 1 && o.mask != 1 {
		res.b = 0
	}
	if o.after == 1 {
		res.b = int64(res.a) + 7
	}
	return res, nil
}

// collect gathers the changes of a backpressured subscription.
type collector[T any] struct{ got []T }

func collect[T any](ch <-chan T) *collector[T] {
	c := &collector[T]{}
	go func() {
		for v := range ch {
			c.got = append(c.got, v)
		}
	}()
	return c
}

// CheckValueStep: one Set with any options on a Value in any state, then Get.
//
// gosym: time=60s
func CheckValueStep() {
	clk := &hx.Clock{}
	ro := []resource.Option{resource.WithClock(clk)}
	var old *rec
	if sym.Flip("present") {
		r := symRec("init", true)
		old = &r
		ro = append(ro, resource.WithInitialValue(r.msg()))
	}
	v := resource.NewValue(ro...)
	ctx, cancel := context.WithCancel(context.Background())
	evs := collect(v.Pull(ctx, resource.WithBackpressure(true), resource.WithUpdatesOnly(true)))
	in := symRec("in", true)
	o := symOpts("o")
	got, err := v.Set(in.msg(), o.build()...)
	want, werr := o.apply(old, in)
	sym.Observe("err", err != nil)
	if werr != nil {
		sym.Assert("value-error-expected", err != nil, "expected", werr)
		// preconditions are checked before the interceptors
		sym.Assert("value-failed-no-intercept", o.mask == 4 || o.reset == 2 || o.calledBefore == 0 && o.calledAfter == 0)
		if o.mask == 4 {
			sym.Assert("value-mask-code", hx.Code(err) == codes.InvalidArgument, err)
		} else if o.reset != 2 {
			sym.Assert("value-error-code", hx.Code(err) == hx.Code(werr), err)
		}
		sym.Quiesce()
		sym.Assert("value-failed-emits-nothing", len(evs.got) == 0)
		if old == nil {
			sym.Assert("value-failed-unchanged-nil", v.Get() == nil)
		} else {
			hx.Same("value-failed-unchanged", v.Get(), old.msg())
		}
		cancel()
		return
	}
	sym.Assert("value-no-error", err == nil, err)
	hx.Same("value-set-result", got, want.msg())
	hx.Same("value-get-after", v.Get(), want.msg())
	sym.Observe("a", v.Get().(*msg).DefaultInt32)
	sym.Observe("b", v.Get().(*msg).DefaultInt64)
	sym.Assert("value-before-once", o.calledBefore == o.before)
	sym.Quiesce()
	sym.Assert("value-emits-one", len(evs.got) == 1, len(evs.got))
	hx.Same("value-event", evs.got[0].Value, want.msg())
	cancel()
}
