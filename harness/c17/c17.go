// Package c17: group execution honours each strategy's contract.
package c17

import (
	"context"
	"errors"
	"fmt"
	"io"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/group"
)

type msg = testproto.TestAllTypes

// strategies, with one that doesn't exist (which means all, like unspecified).
var strategies = []group.ExecutionStrategy{
	group.ExecutionStrategyUnspecified, group.ExecutionStrategyAll, group.ExecutionStrategyMost, group.ExecutionStrategyAny,
	group.ExecutionStrategyOne, group.ExecutionStrategyFast, group.ExecutionStrategyRace, group.ExecutionStrategyRace + 1,
}

func isAll(s group.ExecutionStrategy) bool {
	return s <= group.ExecutionStrategyAll || s > group.ExecutionStrategyRace
}

// member is one member of a group, whose completion is under control of the harness.
type member struct {
	ok       bool
	noMsg    bool // succeeds without a message
	stubborn bool // doesn't return when its context is cancelled
	msg      *msg
	err      error
	gate     chan struct{}
	ctx      context.Context
	calls    int
	returned bool
}

func (m *member) run(ctx context.Context) (proto.Message, error) {
	m.calls++
	m.ctx = ctx
	sym.Assert("callers-values", ctx.Value(key{}) == "value")
	if m.stubborn {
		<-m.gate
	} else {
		select {
		case <-m.gate:
		case <-ctx.Done():
			m.returned = true
			return nil, ctx.Err()
		}
	}
	m.returned = true
	if m.ok {
		if m.noMsg {
			return nil, nil
		}
		return m.msg, nil
	}
	return nil, m.err
}

// key is the key of a value the caller's context has.
type key struct{}

// odd are errors somebody might think of as special.
var odd = []func() error{
	func() error { return context.Canceled },
	func() error { return fmt.Errorf("member: %w", context.Canceled) },
	func() error { return context.DeadlineExceeded },
	func() error { return status.Error(codes.Canceled, "member") },
	func() error { return io.EOF },
}

// makeOdd makes one of the members unusual: it fails with a special error or succeeds without a message.
func makeOdd(ms []*member) {
	i := sym.Choice("odd", len(ms)+1) - 1
	if i < 0 {
		return
	}
	if ms[i].ok {
		ms[i].noMsg = true
	} else {
		ms[i].err = odd[sym.Choice("error", len(odd))]()
	}
}

func newMembers(n int) ([]*member, []group.Member) {
	var ms []*member
	var fs []group.Member
	for i := 0; i < n; i++ {
		m := &member{gate: make(chan struct{}), msg: &msg{DefaultInt32: int32(i + 1)}, err: fmt.Errorf("member %d failed", i)}
		m.ok = sym.Bool("ok")
		m.stubborn = sym.Flip("stubborn")
		ms = append(ms, m)
		fs = append(fs, m.run)
	}
	return ms, fs
}

// outcome is what a call to Execute returned.
type outcome struct {
	done     bool
	results  []proto.Message
	err      error
	panicked any
}

func (o *outcome) run(ctx context.Context, s group.ExecutionStrategy, fs []group.Member) {
	o.panicked = hx.Catch(func() { o.results, o.err = group.Execute(ctx, s, fs) })
	o.done = true
}

// CheckOrder: members finish one at a time, in any order, each before the next, so what the call must do is known
// after each of them: whether the outcome is decided, which contexts are cancelled, and in the end the results and the
// error.
//
// gosym: time=100s thorough.time=600s
func CheckOrder() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	n := sym.Choice("members", max+1)
	s := strategies[sym.Choice("strategy", len(strategies))]
	ms, fs := newMembers(n)
	if n <= 3 || sym.Thorough() && n <= 4 {
		makeOdd(ms)
	}
	var o outcome
	go o.run(context.WithValue(context.Background(), key{}, "value"), s, fs)
	sym.Quiesce()

	pending := make([]int, n)
	for i := range pending {
		pending[i] = i
	}
	errs, oks := 0, 0
	firstOk, first := -1, -1
	var firstErr error
	for len(pending) > 0 {
		k := 0
		if s != group.ExecutionStrategyOne {
			k = sym.Choice("next", len(pending))
		}
		i := pending[k]
		pending = append(pending[:k:k], pending[k+1:]...)
		m := ms[i]
		if s == group.ExecutionStrategyOne {
			// in order, until one succeeds
			want := 1
			if oks > 0 {
				want = 0
			}
			sym.Assert("one-calls", m.calls == want, i, m.calls)
			for _, j := range pending {
				sym.Assert("one-not-yet", ms[j].calls == 0, j)
			}
			if oks > 0 {
				continue
			}
		} else {
			sym.Assert("called-once", m.calls == 1, i, m.calls)
		}
		if m.returned {
			continue // cancelled
		}
		close(m.gate)
		sym.Quiesce()
		sym.Assert("member-returned", m.returned)
		if first < 0 {
			first = i
		}
		if m.ok {
			oks++
			if firstOk < 0 {
				firstOk = i
			}
		} else {
			errs++
			if firstErr == nil {
				firstErr = m.err
			}
		}
		var failed, early bool // known to fail, returns without waiting for the others
		open := true           // anything might still happen
		switch {
		case isAll(s):
			failed = errs > 0
		case s == group.ExecutionStrategyMost:
			failed = 2*errs > n
			open = 2*oks < n
		case s == group.ExecutionStrategyAny:
			failed = errs == n
			open = oks == 0
		case s == group.ExecutionStrategyOne:
			early = oks > 0
		case s == group.ExecutionStrategyFast:
			early = oks > 0
		case s == group.ExecutionStrategyRace:
			early = true
		}
		if early {
			sym.Assert("returns-when-decided", o.done, i)
		}
		for _, j := range pending {
			r := ms[j]
			if r.calls == 0 {
				continue
			}
			switch {
			case failed || early:
				sym.Assert("cancelled-when-decided", r.ctx.Err() != nil, j)
				sym.Assert("cancelled-returns", r.stubborn || r.returned, j)
			case open:
				sym.Assert("not-cancelled-before", r.ctx.Err() == nil, j)
				sym.Assert("not-returned-before", !o.done, j)
			}
		}
	}
	sym.Quiesce()
	sym.Assert("no-panic", o.panicked == nil, o.panicked)
	sym.Assert("returned", o.done)
	for _, m := range ms {
		if m.calls > 0 {
			sym.Assert("cancelled-at-end", m.ctx.Err() != nil || s == group.ExecutionStrategyOne)
		}
	}
	sym.Assert("goroutines-end", sym.Live() == 0, sym.Live())
	if n == 0 {
		if isAll(s) || s == group.ExecutionStrategyMost {
			sym.Assert("empty-no-error", o.err == nil, o.err)
		}
		sym.Assert("empty-no-results", len(o.results) == 0)
		sym.Cover("empty")
		return
	}
	var fails bool
	switch {
	case isAll(s):
		fails = errs > 0
	case s == group.ExecutionStrategyMost:
		fails = 2*errs > n
	case s == group.ExecutionStrategyRace:
		fails = !ms[first].ok
	default:
		fails = oks == 0
	}
	sym.Assert("fails", (o.err != nil) == fails, o.err, fails)
	if fails {
		sym.Assert("first-error", errors.Is(o.err, firstErr), o.err, firstErr)
	}
	sym.Observe("fails", o.err != nil)
	if len(o.results) > 0 || !fails {
		sym.Assert("result-each", len(o.results) == n, len(o.results))
	}
	for i, r := range o.results {
		if r == nil {
			continue
		}
		sym.Assert("own-index", ms[i].ok && ms[i].returned, i, r)
		if !ms[i].noMsg {
			hx.Same("own-result", r, ms[i].msg)
		}
	}
	if fails {
		return
	}
	for i, m := range ms {
		var want bool
		switch s {
		case group.ExecutionStrategyOne, group.ExecutionStrategyFast, group.ExecutionStrategyRace:
			want = i == firstOk
		default:
			want = m.ok
		}
		want = want && !m.noMsg
		sym.Assert("results", (o.results[i] != nil) == want, i, want)
	}
}

// CheckConcurrent: members finish concurrently, in every order and with every interleaving, with the caller's context
// cancelled at any moment.
//
// gosym: time=100s thorough.time=600s
func CheckConcurrent() {
	n := sym.Choice("members", 4)
	s := strategies[1+sym.Choice("strategy", 6)]
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	kinds := make([]int, n) // 0 succeeds, 1 fails, 2 waits for its context
	var fs []group.Member
	var done []bool
	ends := false
	for i := range kinds {
		kinds[i] = sym.Choice("kind", 3)
		ends = ends || kinds[i] == 2
		done = append(done, false)
		fs = append(fs, func(ctx context.Context) (proto.Message, error) {
			defer func() { done[i] = true }()
			switch kinds[i] {
			case 0:
				return &msg{DefaultInt32: int32(i)}, nil
			case 1:
				return nil, fmt.Errorf("member %d", i)
			}
			<-ctx.Done()
			return nil, ctx.Err()
		})
	}
	var o outcome
	finished := make(chan struct{})
	sym.Explore(-1, 200)
	go func() {
		o.run(ctx, s, fs)
		close(finished)
	}()
	cancelled := false
	if ends {
		cancelled = true
		go cancel()
	}
	<-finished
	sym.Sequential()
	sym.Assert("no-panic", o.panicked == nil, o.panicked)
	sym.Quiesce()
	sym.Assert("goroutines-end", sym.Live() == 0, sym.Live())
	if n == 0 {
		return
	}
	oks, errs := 0, 0
	for _, k := range kinds {
		if k == 0 {
			oks++
		} else {
			errs++
		}
	}
	switch s {
	case group.ExecutionStrategyAll:
		sym.Assert("all", (o.err != nil) == (errs > 0), o.err)
	case group.ExecutionStrategyMost:
		sym.Assert("most", (o.err != nil) == (2*errs > n), o.err)
	case group.ExecutionStrategyRace:
		if oks == 0 || errs == 0 {
			sym.Assert("race", (o.err != nil) == (oks == 0), o.err)
		}
	default:
		sym.Assert("any", (o.err != nil) == (oks == 0), o.err)
	}
	found := 0
	for i, r := range o.results {
		if r == nil {
			continue
		}
		found++
		sym.Assert("own", kinds[i] == 0 && r.(*msg).DefaultInt32 == int32(i), i)
	}
	if o.err == nil {
		switch s {
		case group.ExecutionStrategyAll, group.ExecutionStrategyMost, group.ExecutionStrategyAny:
			sym.Assert("all-results", found == oks, found, oks)
		default:
			sym.Assert("one-result", found == 1, found)
		}
	} else if !cancelled {
		match := false
		for i, k := range kinds {
			match = match || (k == 1 && o.err.Error() == fmt.Sprintf("member %d", i))
		}
		sym.Assert("a-members-error", match, o.err)
	}
}
