// Package c07 checks that messages are isolated: what crossed the border of a store never changes because of later operations,
// and what the caller does to messages it handed over never changes the store.
package c07

import (
	"context"
	"fmt"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

// seen is a message that crossed the border and its copy from that time.
type seen struct {
	where string
	m     proto.Message
	copy  proto.Message
}

type log struct {
	all     []seen
	inputs  []func() // modify the messages handed over
	mute    bool
	pending []func()
}

func (l *log) In(op string, m proto.Message, change func()) {
	l.inputs = append(l.inputs, change)
}

func (l *log) Out(op string, m proto.Message) {
	l.all = append(l.all, seen{op, m, proto.Clone(m)})
}

// verify compares everything seen with its copy.
func (l *log) verify(after string) {
	for _, s := range l.all {
		sym.Assert(fmt.Sprintf("a message from %s never changes, after %s", s.where, after), proto.Equal(s.m, s.copy))
	}
}

// state collects what can be read.
type state struct{ ms []proto.Message }

func (s *state) In(op string, m proto.Message, change func()) {}
func (s *state) Out(op string, m proto.Message)               { s.ms = append(s.ms, proto.Clone(m)) }

func read(m *tm.Model) *state {
	s := &state{}
	for _, r := range m.Reads {
		r.Do(s, 0)
	}
	return s
}

func (s *state) same(label string, o *state) {
	sym.Assert(label, len(s.ms) == len(o.ms))
	for i := range s.ms {
		sym.Assert(label, proto.Equal(s.ms[i], o.ms[i]))
	}
}

// CheckModels: any sequence of operations on every trait model.
//
// gosym: time=80s thorough.time=400s
func CheckModels() {
	sym.NoTimers(true)
	model := tm.All[sym.Choice("model", len(tm.All))]
	m := model.New()
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	play(m, nil, steps)
}

// CheckHandBack: a message received from a model is handed to one of its writes. It's still the message that was read, for everyone
// who has it.
//
// gosym: time=60s thorough.time=300s
func CheckHandBack() {
	sym.NoTimers(true)
	model := tm.All[sym.Choice("model", len(tm.All))]
	m := model.New()
	if len(m.Backs) == 0 {
		sym.Assume(false)
	}
	l := &log{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for _, p := range m.Pulls {
		next := p.Start(ctx, resource.WithBackpressure(false))
		go func() {
			for {
				ms, ok := next()
				if !ok {
					return
				}
				for _, msg := range ms {
					l.Out(p.Name, msg)
				}
			}
		}()
		sym.Quiesce()
	}
	writes := 1
	if sym.Thorough() {
		writes = 2
	}
	for i := 0; i < writes; i++ {
		if k := sym.Choice("write", len(m.Writes)+1); k < len(m.Writes) {
			m.Writes[k].Do(l, sym.Choice("arg", 2))
			sym.Quiesce()
		}
	}
	for _, r := range m.Reads {
		r.Do(l, 0)
		r.Do(l, 1)
	}
	b := m.Backs[sym.Choice("back", len(m.Backs))]
	s := l.all[sym.Choice("message", len(l.all))]
	l.verify("reading")
	if !b.Do(l, s.m) {
		sym.Assume(false)
	}
	sym.Quiesce()
	l.verify("it was passed to " + b.Name)
}

// play does a sequence of operations.
func play(m *tm.Model, initial proto.Message, steps int) {
	l := &log{}
	if initial != nil {
		l.Out("the initial value", initial)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	subscribed := 0
	for i := 0; i < steps; i++ {
		k := sym.Choice("op", len(m.Writes)+len(m.Reads)+len(m.Pulls))
		before := read(m)
		switch {
		case k < len(m.Writes):
			op := m.Writes[k]
			l.inputs = nil
			op.Do(l, sym.Choice("arg", 2))
			sym.Quiesce()
			after := read(m)
			l.verify(op.Name)
			for _, change := range l.inputs {
				change()
			}
			read(m).same("changing the message passed to "+op.Name+" doesn't change "+m.Name, after)
			l.verify("changing the message passed to " + op.Name)
		case k < len(m.Writes)+len(m.Reads):
			op := m.Reads[k-len(m.Writes)]
			op.Do(l, sym.Choice("arg", 2))
			sym.Quiesce()
			l.verify(op.Name)
			read(m).same(op.Name+" doesn't change "+m.Name, before)
		default:
			if subscribed == 2 {
				sym.Assume(false)
			}
			subscribed++
			p := m.Pulls[k-len(m.Writes)-len(m.Reads)]
			next := p.Start(ctx, resource.WithUpdatesOnly(sym.Flip("only")), resource.WithBackpressure(false))
			go func() {
				for {
					ms, ok := next()
					if !ok {
						return
					}
					for _, msg := range ms {
						l.Out(p.Name, msg)
					}
				}
			}()
			sym.Quiesce()
			l.verify(p.Name)
			read(m).same(p.Name+" doesn't change "+m.Name, before)
		}
	}
}
