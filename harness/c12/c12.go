// Package c12 checks the routers, the wrappers and the default name interceptors.
package c12

import (
	"context"
	"io"
	"reflect"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/router"
)

type wrapped interface {
	Unwrap() any
	UnwrapService() (grpc.ClientConnInterface, grpc.ServiceDesc)
}

type call struct {
	req   func() proto.Message
	res   func() proto.Message
	unary func(ctx context.Context, c any, q proto.Message) (proto.Message, error)
	open  func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error)
}

type service struct {
	name     string
	desc     *grpc.ServiceDesc
	router   func(opts ...router.Option) router.Router
	factory  func(f func(string) (any, error)) router.Option
	client   func(cc grpc.ClientConnInterface) any
	wrap     func(s any) wrapped
	unwrap   func(w any) any
	register func(r any, s grpc.ServiceRegistrar)
	add      func(r any, n string, c any) any
	remove   func(r any, n string) any
	get      func(r any, n string) (any, error)
	calls    map[string]call
}

// iface gives a nil any for a nil interface value.
func iface[T any](c T) any { return c }

func as[T any](v any, err error) (T, error) {
	if v == nil {
		var zero T
		return zero, err
	}
	return v.(T), err
}

func msg[T proto.Message](m T, err error) (proto.Message, error) {
	if err != nil {
		return nil, err
	}
	return m, nil
}

func open[T grpc.ClientStream](s T, err error) (grpc.ClientStream, error) {
	if err != nil {
		return nil, err
	}
	return s, nil
}

// fill gives every scalar field of m except its name a value of its own.
func fill(m proto.Message, id string) {
	r := m.ProtoReflect()
	fs := r.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.IsList() || f.IsMap() || f.Name() == "name" || f.ContainingOneof() != nil {
			continue
		}
		n := id + "." + string(f.Name())
		switch f.Kind() {
		case protoreflect.StringKind:
			r.Set(f, protoreflect.ValueOfString(sym.String(n, 2)))
		case protoreflect.BoolKind:
			r.Set(f, protoreflect.ValueOfBool(sym.Bool(n)))
		case protoreflect.Int32Kind:
			r.Set(f, protoreflect.ValueOfInt32(sym.Int32(n)))
		case protoreflect.Int64Kind:
			r.Set(f, protoreflect.ValueOfInt64(sym.Int64(n)))
		case protoreflect.EnumKind:
			r.Set(f, protoreflect.ValueOfEnum(protoreflect.EnumNumber(sym.Int32(n))))
		}
	}
}

func setName(m proto.Message, name string) {
	r := m.ProtoReflect()
	r.Set(r.Descriptor().Fields().ByName("name"), protoreflect.ValueOfString(name))
}

// conn is the connection of one named client: it records what it's asked and replays a script.
type conn struct {
	method string
	req    proto.Message
	calls  int
	ctx    context.Context

	// unary
	res proto.Message

	// streams
	openErr   error
	headerErr error
	header    metadata.MD
	trailer   metadata.MD
	count     int
	err       error // the end of the call, nil for success
	sent      []proto.Message
	ended     bool
}

func (c *conn) Invoke(ctx context.Context, method string, args, reply any, opts ...grpc.CallOption) error {
	c.calls++
	c.method, c.req, c.ctx = method, proto.Clone(args.(proto.Message)), ctx
	if c.err != nil {
		return c.err
	}
	fill(reply.(proto.Message), "res")
	c.res = proto.Clone(reply.(proto.Message))
	return nil
}

func (c *conn) NewStream(ctx context.Context, desc *grpc.StreamDesc, method string, opts ...grpc.CallOption) (grpc.ClientStream, error) {
	c.calls++
	c.method, c.ctx = method, ctx
	if c.openErr != nil {
		return nil, c.openErr
	}
	return &clientStream{conn: c}, nil
}

type clientStream struct {
	*conn
	closed bool
}

func (s *clientStream) Header() (metadata.MD, error) { return s.header, s.headerErr }
func (s *clientStream) Trailer() metadata.MD {
	if !s.ended {
		return nil // only known once the call has ended
	}
	return s.trailer
}
func (s *clientStream) CloseSend() error         { s.closed = true; return nil }
func (s *clientStream) Context() context.Context { return s.ctx }
func (s *clientStream) SendMsg(m any) error {
	sym.Assert("a stream has one request", s.req == nil)
	s.req = proto.Clone(m.(proto.Message))
	return nil
}
func (s *clientStream) RecvMsg(m any) error {
	if s.ctx.Err() != nil {
		s.ended = true
		return status.FromContextError(s.ctx.Err()).Err()
	}
	if len(s.sent) == s.count {
		s.ended = true
		if s.err == nil {
			return io.EOF
		}
		return s.err
	}
	fill(m.(proto.Message), "msg"+string(rune('0'+len(s.sent))))
	s.sent = append(s.sent, proto.Clone(m.(proto.Message)))
	return nil
}

// serverStream is the router's caller.
type serverStream struct {
	ctx       context.Context
	req       proto.Message
	failAt    int // Send fails once this many messages were accepted, -1 for never
	sendErr   error
	headerErr error

	header  metadata.MD
	headers int
	trailer metadata.MD
	got     []proto.Message
}

func (s *serverStream) SetHeader(md metadata.MD) error {
	s.header = metadata.Join(s.header, md)
	return nil
}
func (s *serverStream) SendHeader(md metadata.MD) error {
	s.header = metadata.Join(s.header, md)
	s.headers++
	return s.headerErr
}
func (s *serverStream) SetTrailer(md metadata.MD) { s.trailer = metadata.Join(s.trailer, md) }
func (s *serverStream) Context() context.Context  { return s.ctx }
func (s *serverStream) SendMsg(m any) error {
	if len(s.got) == s.failAt {
		return s.sendErr
	}
	s.got = append(s.got, proto.Clone(m.(proto.Message)))
	return nil
}
func (s *serverStream) RecvMsg(m any) error {
	proto.Merge(m.(proto.Message), s.req)
	return nil
}

func sameMD(a, b metadata.MD) bool {
	if len(a) != len(b) {
		return false
	}
	return len(a) == 0 || reflect.DeepEqual(a, b)
}

func sameErr(label string, got, want error) {
	g, _ := status.FromError(got)
	w, _ := status.FromError(want)
	sym.Assert(label+": code", g.Code() == w.Code(), "got", got, "want", want)
	sym.Assert(label+": message", sym.EqStr(g.Message(), w.Message()), "got", got, "want", want)
}

func someErr(id string) error {
	return status.Error(codes.Code(sym.Int(id+".code", 1, 16)), sym.String(id+".message", 2))
}

// pick gives the connection with that name.
func pick(name string, ca, cb *conn) *conn {
	switch name {
	case "a":
		return ca
	case "b":
		return cb
	}
	return nil
}

// setup gives a router with clients for the names a (added) and b (made by the factory or the fallback).
func setup(s *service, ca, cb *conn) (router.Router, *int) {
	made := new(int)
	mk := func(n string) (any, error) {
		if n == "b" {
			*made++
			return s.client(cb), nil
		}
		return nil, status.Error(codes.Internal, "no such client")
	}
	var r router.Router
	if sym.Flip("fallback") {
		r = s.router(router.WithFallback(mk))
	} else {
		r = s.router(s.factory(mk))
	}
	r.Add("a", s.client(ca))
	return r, made
}

// CheckUnary: every unary method of every service.
//
// gosym: time=100s thorough.time=400s
func CheckUnary() {
	sym.Start()
	var all []func()
	for _, s := range services {
		for _, m := range s.desc.Methods {
			all = append(all, func() { unary(s, m) })
		}
	}
	all[sym.Choice("method", len(all))]()
}

func unary(s *service, m grpc.MethodDesc) {
	ca, cb := &conn{}, &conn{}
	r, made := setup(s, ca, cb)
	ctx := context.WithValue(context.Background(), ctxKey{}, 1)
	name := sym.String("name", 1)
	c := pick(name, ca, cb)
	fail := c != nil && sym.Flip("fail")
	var want error
	if fail {
		want = someErr("err")
		c.err = want
	}
	cl, ok := s.calls[m.MethodName]
	sym.Assert(s.name+": the table knows "+m.MethodName, ok)
	req := cl.req()
	fill(req, "req")
	setName(req, name)
	sent := proto.Clone(req)
	label := s.name + "." + m.MethodName

	var res proto.Message
	var err error
	if sym.Flip("wrapped") {
		res, err = cl.unary(ctx, s.wrap(r), req)
	} else {
		var got any
		got, err = m.Handler(r, ctx, func(dst any) error { proto.Merge(dst.(proto.Message), req); return nil }, nil)
		if err == nil {
			res = got.(proto.Message)
		}
	}
	sym.Sequential()
	if c == nil {
		sym.Assert(label+": an unknown name isn't found", status.Code(err) == codes.NotFound, "got", err)
		sym.Assert(label+": no client is asked about an unknown name", ca.calls+cb.calls == 0)
		return
	}
	sym.Assert(label+": the client is asked once", c.calls == 1, "calls", c.calls)
	sym.Assert(label+": no other client is asked", ca.calls+cb.calls == 1)
	sym.Assert(label+": the same method is called", c.method == "/"+s.desc.ServiceName+"/"+m.MethodName, "called", c.method)
	hx.Same(label+": the request", c.req, sent)
	sym.Assert(label+": the context is passed on", c.ctx.Value(ctxKey{}) == 1)
	if fail {
		sameErr(label+": the error", err, want)
	} else {
		sym.Assert(label+": no error", err == nil, "got", err)
		hx.Same(label+": the response", res, c.res)
	}
	if c == cb {
		sym.Assert(label+": the client is made once", *made == 1)
	}
}

// CheckStream: every server streaming method of every service.
//
// gosym: time=120s thorough.time=400s
func CheckStream() {
	sym.Start()
	var all []func()
	for _, s := range services {
		for _, m := range s.desc.Streams {
			all = append(all, func() { stream(s, m) })
		}
	}
	all[sym.Choice("method", len(all))]()
}

func stream(s *service, m grpc.StreamDesc) {
	label := s.name + "." + m.StreamName
	sym.Assert(label+": is a server stream", m.ServerStreams && !m.ClientStreams)
	ca, cb := &conn{}, &conn{}
	r, _ := setup(s, ca, cb)
	name := sym.String("name", 1)
	c := pick(name, ca, cb)
	cl, ok := s.calls[m.StreamName]
	sym.Assert(s.name+": the table knows "+m.StreamName, ok)
	req := cl.req()
	fill(req, "req")
	setName(req, name)
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, 1))
	defer cancel()
	caller := &serverStream{ctx: ctx, req: req, failAt: -1}
	if c == nil {
		err := m.Handler(r, caller)
		sym.Assert(label+": an unknown name isn't found", status.Code(err) == codes.NotFound, "got", err)
		sym.Assert(label+": no client is asked about an unknown name", ca.calls+cb.calls == 0)
		sym.Assert(label+": nothing is sent for an unknown name", len(caller.got) == 0)
		return
	}
	var want error
	outcome := sym.Choice("outcome", 5)
	c.count = sym.Choice("count", 3)
	if sym.Flip("metadata") {
		c.header = metadata.MD{"h": {sym.String("h", 1), "x"}}
		c.trailer = metadata.MD{"t": {sym.String("t", 1)}}
	}
	switch outcome {
	case 0: // success
	case 1:
		want = someErr("err")
		c.err = want
	case 2:
		want = someErr("open")
		c.openErr = want
	case 3:
		want = someErr("send")
		caller.sendErr = want
		caller.failAt = sym.Choice("failAt", c.count+1)
		if caller.failAt == c.count {
			want = nil
		}
	case 4:
		want = someErr("header")
		c.headerErr = want
		c.err = want
		c.count = 0
	}
	err := m.Handler(r, caller)
	cancelled := c.ctx.Err() != nil
	sym.Assert(label+": the client is asked once", c.calls == 1, "calls", c.calls)
	sym.Assert(label+": no other client is asked", ca.calls+cb.calls == 1)
	sym.Assert(label+": the same method is called", c.method == "/"+s.desc.ServiceName+"/"+m.StreamName, "called", c.method)
	if want == nil {
		sym.Assert(label+": no error", err == nil, "got", err)
	} else {
		sameErr(label+": the error", err, want)
	}
	if outcome == 2 {
		sym.Assert(label+": nothing is sent when the call fails", len(caller.got) == 0)
		return
	}
	sym.Assert(label+": the context is passed on", c.ctx.Value(ctxKey{}) == 1)
	cancel()
	sym.Assert(label+": the call ends with the caller's", c.ctx.Err() != nil)
	hx.Same(label+": the request", c.req, req)
	n := c.count
	if outcome == 3 && caller.failAt < n {
		n = caller.failAt
	}
	sym.Assert(label+": every message is passed on", len(caller.got) == n, "got", len(caller.got), "want", n)
	for i := range caller.got {
		hx.Same(label+": a message", caller.got[i], c.sent[i])
	}
	if outcome == 4 {
		return
	}
	sym.Assert(label+": the header is passed on", sameMD(caller.header, c.header), "got", caller.header, "want", c.header)
	sym.Assert(label+": the header is sent at most once", caller.headers <= 1)
	if outcome == 3 && want != nil {
		sym.Assert(label+": the call is cancelled when the caller can't be sent to", cancelled)
	} else {
		sym.Assert(label+": the trailer is passed on", sameMD(caller.trailer, c.trailer), "got", caller.trailer, "want", c.trailer)
	}
}
