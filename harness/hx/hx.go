// Package hx has helpers shared by the harnesses.
package hx

import (
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-golang/internal/verif/sym"
)

// Clock is a resource.Clock that ticks one second per reading, so every reading is distinguishable.
type Clock struct {
	N    int64
	Hold bool // do not tick
}

func (c *Clock) Now() time.Time {
	if !c.Hold {
		c.N++
	}
	return time.Unix(1000+c.N, 0)
}

// Peek is the last value returned by Now.
func (c *Clock) Peek() time.Time { return time.Unix(1000+c.N, 0) }

// Rng is a deterministic random source: candidate ids cycle through a few values.
type Rng struct {
	N    int
	Mod  int
	Base byte
}

func (r *Rng) Read(p []byte) (int, error) {
	v := r.N
	if r.Mod > 0 {
		v = v % r.Mod
	}
	r.N++
	for i := range p {
		p[i] = r.Base + byte(v)
	}
	return len(p), nil
}

// Code is the gRPC code of an error.
func Code(err error) codes.Code { return status.Code(err) }

// Mask builds a field mask.
func Mask(paths ...string) *fieldmaskpb.FieldMask { return &fieldmaskpb.FieldMask{Paths: paths} }

// Same asserts that two messages are equal.
func Same(label string, got, want proto.Message) {
	sym.Assert(label, proto.Equal(got, want), "got", got, "want", want)
}

// Catch runs f and returns what it panicked with.
func Catch(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}
