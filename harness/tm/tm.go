// Package tm describes the trait models of the repository to the harnesses: what can be written, read and subscribed to.
package tm

import (
	"context"
	"errors"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	timeclock "github.com/smart-core-os/sc-golang/pkg/time/clock"
)

// Clock is for the models that want a whole clock, only Now can be used.
type Clock struct {
	timeclock.Clock
	T hx.Clock
}

func (c *Clock) Now() time.Time { return c.T.Now() }

// Source is a small random source.
type Source struct{ n int64 }

func (s *Source) Int63() int64 { s.n += 0x1234567890123; return s.n & (1<<63 - 1) }
func (s *Source) Seed(n int64) { s.n = n }

// Log gets every message that crosses the border of a model.
type Log interface {
	// In is called after a write returned with a message that was handed to it, change modifies that message
	In(op string, m proto.Message, change func())
	// Out is called with every message received from a model, old values included
	Out(op string, m proto.Message)
}

// Op is a public method of a model, n selects among a few different arguments.
type Op struct {
	Name string
	Do   func(l Log, n int)
}

// Pull is a method to subscribe, next has the messages of the next event and false when there are no more.
type Pull struct {
	Name  string
	Start func(ctx context.Context, opts ...resource.ReadOption) (next func() ([]proto.Message, bool))
}

// Model is one instance of a trait model.
type Model struct {
	Name   string
	Writes []Op
	Reads  []Op // must not change anything
	Pulls  []Pull
	Backs  []Back
}

// Back is a write that is handed a message received from the model, it's false when the message doesn't have the type.
type Back struct {
	Name string
	Do   func(l Log, in proto.Message) bool
}

// back makes a Back of a method with a result.
func back[T, R proto.Message](name string, f func(in T) (R, error)) Back {
	return Back{name, func(l Log, in proto.Message) bool {
		t, ok := in.(T)
		if !ok {
			return false
		}
		res, err := f(t)
		out(l, name, res, err)
		return true
	}}
}

func stamp(n int) *timestamppb.Timestamp { return &timestamppb.Timestamp{Seconds: int64(1000 + n)} }

func ptr[T any](v T) *T { return &v }

// out reports a result, nil pointers in m are left out by the caller.
func out(l Log, op string, m proto.Message, err error) {
	if err == nil {
		l.Out(op, m)
	}
}

func chanOf[T any](ch <-chan T, f func(T) []proto.Message) func() ([]proto.Message, bool) {
	return func() ([]proto.Message, bool) {
		c, ok := <-ch
		if !ok {
			return nil, false
		}
		return f(c), true
	}
}

// both collects the values of a collection change.
func both[T interface {
	proto.Message
	comparable
}](old, new T) []proto.Message {
	var zero T
	var res []proto.Message
	if old != zero {
		res = append(res, old)
	}
	if new != zero {
		res = append(res, new)
	}
	return res
}

func outAll[T proto.Message](l Log, op string, ms []T) {
	for _, m := range ms {
		l.Out(op, m)
	}
}

// errSkip is for writes without a result.
var errSkip = errors.New("no result")
