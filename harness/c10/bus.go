// Package c10: subscriptions and the event bus shut down cleanly under any timing.
package c10

import (
	"context"
	"sync"

	"github.com/smart-core-os/sc-golang/internal/minibus"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
)

type event struct{ from, k int }

type sending struct {
	event
	began, ended int // ended is 0 while it's being sent
	ok           bool
	cancelled    bool // the context of the send was cancelled at some point
}

type listening struct {
	began     int // when Listen had returned
	cancelled int // when the context was about to be cancelled, 0 if it wasn't
	got       []event
	closed    bool
	cancel    context.CancelFunc
}

type world struct {
	mu    sync.Mutex
	now   int
	sends []*sending
	subs  []*listening
}

// lock guards the bookkeeping in native runs, symbolic ones only switch at synchronisation.
func (w *world) lock() func() {
	if sym.Symbolic() {
		return func() {}
	}
	w.mu.Lock()
	return w.mu.Unlock
}

func (w *world) tick() int {
	defer w.lock()()
	w.now++
	return w.now
}

func (w *world) send(b *minibus.Bus, ctx context.Context, from, k int) *sending {
	s := &sending{event: event{from, k}, began: w.tick()}
	func() {
		defer w.lock()()
		w.sends = append(w.sends, s)
	}()
	s.ok = b.Send(ctx, s.event)
	s.ended = w.tick()
	return s
}

func (w *world) listen(b *minibus.Bus) (*listening, <-chan any) {
	ctx, cancel := context.WithCancel(context.Background())
	l := &listening{}
	ch := b.Listen(ctx)
	l.began = w.tick()
	l.cancel = func() {
		if l.cancelled == 0 {
			l.cancelled = w.tick()
		}
		cancel()
	}
	defer w.lock()()
	w.subs = append(w.subs, l)
	return l, ch
}

func (w *world) consume(l *listening, ch <-chan any) {
	for e := range ch {
		func() {
			defer w.lock()()
			l.got = append(l.got, e.(event))
		}()
	}
	l.closed = true
}

func (w *world) check() {
	for _, l := range w.subs {
		// every sender's events at most once and in order
		last := map[int]int{}
		for _, e := range l.got {
			sym.Assert("per-sender-order", e.k > last[e.from], e.from, e.k, last[e.from])
			last[e.from] = e.k
		}
		for _, s := range w.sends {
			got := false
			for _, e := range l.got {
				got = got || e == s.event
			}
			live := s.ended != 0 && l.began < s.began && (l.cancelled == 0 || l.cancelled > s.ended)
			if live && s.ok {
				sym.Assert("delivered", got, s.from, s.k)
			}
			if !s.cancelled && s.ended != 0 {
				sym.Assert("send-ok", s.ok, s.from, s.k)
			}
		}
	}
}

// finish cancels whatever is still listening and checks that nothing stays behind.
func (w *world) finish(b *minibus.Bus) {
	w.check()
	for _, l := range w.subs {
		l.cancel()
	}
	sym.Quiesce()
	for _, s := range w.sends {
		sym.Assert("send-returns", s.ended != 0, s.from, s.k)
	}
	for _, l := range w.subs {
		sym.Assert("closed", l.closed)
	}
	w.send(b, context.Background(), 99, 1) // nobody is listening
	w.check()
	sym.Quiesce()
	sym.Assert("goroutines-end", sym.Live() == 0, sym.Live())
}

// CheckBusCancel: listeners are cancelled at any moment of concurrent sends.
//
// gosym: time=60s thorough.time=400s
func CheckBusCancel() {
	sym.NoTimers(true)
	w := &world{}
	b := &minibus.Bus{}
	n, sends := 1+sym.Choice("listeners", 2), []int{1}
	if n == 1 || sym.Thorough() {
		sends = [][]int{{1, 1}, {2}, {1}}[sym.Choice("senders", 3)]
	}
	for i := 0; i < n; i++ {
		l, ch := w.listen(b)
		go w.consume(l, ch)
	}
	cancel := 1
	if n > 1 && len(sends) == 1 {
		cancel += sym.Choice("cancel", 2)
	}
	sym.Explore(-1, 400)
	var wg sync.WaitGroup
	for f, k := range sends {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 1; i <= k; i++ {
				w.send(b, context.Background(), f, i)
			}
		}()
	}
	for _, l := range w.subs[:cancel] {
		wg.Add(1)
		go func() {
			defer wg.Done()
			l.cancel()
		}()
	}
	wg.Wait()
	sym.Quiesce()
	sym.Sequential()
	w.finish(b)
}

// CheckBusMany: more senders, events and listeners, of which some are cancelled, some join late and one stops receiving.
//
// gosym: time=60s thorough.time=400s
func CheckBusMany() {
	sym.NoTimers(true)
	w := &world{}
	b := &minibus.Bus{}
	for i := 0; i < 3; i++ {
		l, ch := w.listen(b)
		go w.consume(l, ch)
	}
	l, ch := w.listen(b)
	go func() {
		e, ok := <-ch
		if ok {
			l.got = append(l.got, e.(event))
		}
		l.cancel()
		for e := range ch {
			l.got = append(l.got, e.(event))
		}
		l.closed = true
	}()
	sym.Delays(delays()-1, 400)
	var wg sync.WaitGroup
	first := 1
	if sym.Thorough() {
		first = 2
	}
	for f, k := range []int{first, 1} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 1; i <= k; i++ {
				w.send(b, context.Background(), f, i)
			}
		}()
	}
	for _, l := range w.subs[:2] {
		wg.Add(1)
		go func() {
			defer wg.Done()
			l.cancel()
		}()
	}
	late, lateCh := w.listen(b)
	go w.consume(late, lateCh)
	wg.Wait()
	sym.Quiesce()
	sym.Sequential()
	w.finish(b)
}

// CheckBusJoin: listeners come at any moment of concurrent sends, and are then cancelled.
//
// gosym: time=60s thorough.time=400s
func CheckBusJoin() {
	sym.NoTimers(true)
	w := &world{}
	b := &minibus.Bus{}
	if sym.Flip("other") {
		l, ch := w.listen(b)
		go w.consume(l, ch)
	}
	leave := sym.Flip("leave")
	sends := []int{2}
	if sym.Thorough() && sym.Flip("two") {
		sends = []int{1, 1}
	}
	sym.Explore(-1, 400)
	var wg sync.WaitGroup
	for f, k := range sends {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 1; i <= k; i++ {
				w.send(b, context.Background(), f, i)
			}
		}()
	}
	l, ch := w.listen(b)
	go w.consume(l, ch)
	if leave {
		l.cancel()
	}
	wg.Wait()
	sym.Quiesce()
	sym.Sequential()
	w.finish(b)
}

// CheckBusAbandoned: a listener stops receiving without cancelling and then cancels, or the senders give up on it; the
// other listeners get everything.
//
// gosym: time=60s thorough.time=400s
func CheckBusAbandoned() {
	sym.NoTimers(true)
	w := &world{}
	b := &minibus.Bus{}
	order := sym.Flip("abandoned-first")
	take := sym.Choice("take", 2)
	var stuck *listening
	for i := 0; i < 2; i++ {
		l, ch := w.listen(b)
		if (i == 0) == order {
			stuck = l
			go func() {
				for i := 0; i < take; i++ {
					e, ok := <-ch
					if !ok {
						break
					}
					l.got = append(l.got, e.(event))
				}
			}()
			continue
		}
		go w.consume(l, ch)
	}
	giveUp := sym.Flip("give-up") // instead of cancelling the listener
	ctx, stop := context.WithCancel(context.Background())
	sym.Explore(-1, 400)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 1; i <= 2; i++ {
			s := w.send(b, ctx, 0, i)
			s.cancelled = giveUp
		}
	}()
	if giveUp {
		stop()
	} else {
		stuck.cancel()
	}
	wg.Wait()
	sym.Quiesce()
	sym.Sequential()
	stop()
	if !giveUp {
		w.check()
	}
	for _, l := range w.subs {
		l.cancel()
	}
	sym.Quiesce()
	for _, s := range w.sends {
		sym.Assert("send-returns", s.ended != 0)
	}
	for _, l := range w.subs {
		sym.Assert("closed", l.closed || l == stuck)
	}
	sym.Assert("goroutines-end", sym.Live() == 0, sym.Live())
}
