package c11

import (
	"context"
	"errors"

	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/internal/minibus"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/group"
	"github.com/smart-core-os/sc-golang/pkg/router"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
)

// CheckBus: the event bus.
//
// gosym: time=30s thorough.time=200s
func CheckBus() {
	sym.NoTimers(true)
	b := &minibus.Bus{}
	w := newCrew()
	early := sym.Flip("early") // there is a listener already
	excess := sym.Flip("excess")
	listen := func(n int) {
		ctx, stop := context.WithCancel(w.ctx)
		ch := b.Listen(ctx)
		if excess {
			ch = minibus.DropExcess(ch)
		}
		w.do(func() {
			if n > 0 {
				stop()
			}
			for e := range ch {
				_ = *e.(*int)
			}
		})
	}
	send := func() {
		e := 3
		b.Send(w.ctx, &e)
	}
	ops := []func(){
		send, send,
		func() { listen(0) },
		func() { listen(1) },
		func() {
			ctx, stop := context.WithCancel(context.Background())
			w.do(stop)
			e := 4
			b.Send(ctx, &e)
		},
	}
	explore(2, 3)
	if early {
		listen(0)
	}
	w.some(2+bool2int(sym.Thorough()), ops)
	w.cancel()
	w.finish()
}

// CheckRouter: the router and its callbacks.
//
// gosym: time=30s thorough.time=200s
func CheckRouter() {
	sym.NoTimers(true)
	type client struct{ n int }
	used := func(c any) {
		if c != nil {
			_ = c.(*client).n
		}
	}
	var r router.Router
	opts := []router.Option{router.WithOnChange(func(c router.Change) {
		used(c.Old)
		used(c.New)
		if sym.Flip("nested") {
			r.Has(c.Name)
		}
	})}
	if sym.Flip("factory") {
		opts = append(opts, router.WithFactory(func(name string) (any, error) {
			if sym.Flip("refuse") {
				return nil, errors.New("no")
			}
			return &client{1}, nil
		}))
	}
	if sym.Flip("fallback") {
		opts = append(opts, router.WithFallback(func(name string) (any, error) {
			if sym.Flip("refuse") {
				return nil, errors.New("no")
			}
			return &client{2}, nil
		}))
	}
	r = router.NewRouter(opts...)
	if sym.Flip("present") {
		r.Add("a", &client{3})
	}
	ops := []func(){
		func() { used(r.Add("a", &client{4})) },
		func() { used(r.Remove("a")) },
		func() { c, _ := r.Get("a"); used(c) },
		func() { r.Has("a") },
		func() { r.HoldsType(&client{}) },
		func() { used(r.Add("b", &client{5})) },
	}
	w := newCrew()
	explore(2, 3)
	w.some(2+bool2int(sym.Thorough()), ops)
	w.finish()
}

// CheckGroup: group execution.
//
// gosym: time=30s thorough.time=200s
func CheckGroup() {
	sym.NoTimers(true)
	strategy := group.ExecutionStrategy(sym.Choice("strategy", 7))
	n := 1 + sym.Choice("members", 2+bool2int(sym.Thorough()))
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	var members []group.Member
	shared := mode("shared")
	for i := 0; i < n; i++ {
		how := sym.Choice("how", 3)
		members = append(members, func(ctx context.Context) (proto.Message, error) {
			use(shared)
			switch how {
			case 1:
				return nil, errors.New("failed")
			case 2:
				<-ctx.Done()
				return mode("late"), ctx.Err()
			}
			m := mode("new")
			m.Title = "changed"
			return m, nil
		})
	}
	explore(2, 3)
	go stop()
	ms, err := group.Execute(ctx, strategy, members)
	for _, m := range ms {
		if m != nil {
			use(m)
			m.(interface{ Reset() }).Reset() // the caller's
		}
	}
	members[0] = nil // the caller's
	if err != nil {
		_ = err.Error()
	}
	sym.Quiesce()
}

// chatty answers everything, from several goroutines where it may.
type chatty struct {
	testproto.UnimplementedTestApiServer
	n int // messages to send
}

func (s *chatty) md(ss grpc.ServerStream) {
	md := metadata.MD{"k": {"v"}}
	ss.SetHeader(md)
	md["k"][0] = "mine"
	ss.SetTrailer(metadata.MD{"t": {"v"}})
}

func (s *chatty) Unary(ctx context.Context, req *testproto.UnaryRequest) (*testproto.UnaryResponse, error) {
	md, _ := metadata.FromIncomingContext(ctx)
	for _, v := range md["k"] {
		_ = v
	}
	grpc.SetHeader(ctx, metadata.MD{"k": {"v"}})
	use(req)
	req.Msg = "server"
	res := &testproto.UnaryResponse{Msg: "res"}
	if s.n == 0 {
		<-ctx.Done()
		return nil, ctx.Err()
	}
	defer grpc.SetTrailer(ctx, metadata.MD{"k": {"v"}})
	return res, nil
}

func (s *chatty) ServerStream(req *testproto.ServerStreamRequest, ss testproto.TestApi_ServerStreamServer) error {
	s.md(ss)
	use(req)
	req.NumRes = 7
	res := &testproto.ServerStreamResponse{}
	for i := 0; i < s.n; i++ {
		res.Counter = int32(i)
		if err := ss.Send(res); err != nil {
			return err
		}
	}
	s.md(ss)
	return errors.New("failed")
}

func (s *chatty) ClientStream(ss testproto.TestApi_ClientStreamServer) error {
	s.md(ss)
	for {
		m, err := ss.Recv()
		if err != nil {
			break
		}
		use(m)
		m.Msg = "server"
	}
	return ss.SendAndClose(&testproto.ClientStreamResponse{Msg: "done"})
}

func (s *chatty) BidiStream(ss testproto.TestApi_BidiStreamServer) error {
	s.md(ss)
	done := make(chan struct{})
	go func() {
		defer close(done)
		for {
			m, err := ss.Recv()
			if err != nil {
				return
			}
			use(m)
			m.Msg = "server"
		}
	}()
	res := &testproto.BidiStreamResponse{}
	for i := 0; i < s.n; i++ {
		res.Msg = string(rune('a' + i))
		if err := ss.Send(res); err != nil {
			break
		}
	}
	s.md(ss)
	if s.n > 0 {
		<-done
	}
	return nil
}

// CheckWrap: wrapped calls, whose client cancels at any time, and sends, receives and half closes concurrently.
//
// gosym: time=60s thorough.time=300s
func CheckWrap() {
	sym.NoTimers(true)
	c := testproto.NewTestApiClient(wrap.ServerToClient(testproto.TestApi_ServiceDesc, &chatty{n: sym.Choice("n", 3)}))
	w := newCrew()
	kind := sym.Choice("kind", 4)
	cancels := sym.Flip("cancels")
	out := metadata.MD{"k": {"v"}}
	ctx, stop := context.WithCancel(metadata.NewOutgoingContext(w.ctx, out))
	defer stop()
	mayBlock := false
	explore(2, 3)
	var cs grpc.ClientStream
	switch kind {
	case 0:
		w.do(func() {
			req, res := &testproto.UnaryRequest{Msg: "req"}, (*testproto.UnaryResponse)(nil)
			var header, trailer metadata.MD
			res, _ = c.Unary(ctx, req, grpc.Header(&header), grpc.Trailer(&trailer))
			req.Msg = "client"
			if res != nil {
				use(res)
				res.Msg = "client"
			}
			for _, md := range []metadata.MD{header, trailer, out} {
				for _, v := range md {
					v[0] = "client"
				}
			}
		})
		mayBlock = true
	case 1:
		req := &testproto.ServerStreamRequest{}
		s, err := c.ServerStream(ctx, req)
		if err != nil {
			break
		}
		req.NumRes = 3
		cs = s
	case 2:
		s, err := c.ClientStream(ctx)
		if err != nil {
			break
		}
		w.do(func() {
			m := &testproto.ClientStreamRequest{Msg: "a"}
			for s.Send(m) == nil && m.Msg != "c" {
				m.Msg += "x"
				if m.Msg == "axx" {
					m.Msg = "c"
				}
			}
			s.CloseSend()
			m.Msg = "client"
		})
		cs = s
	case 3:
		s, err := c.BidiStream(ctx)
		if err != nil {
			break
		}
		w.do(func() {
			m := &testproto.BidiStreamRequest{Msg: "a"}
			s.Send(m)
			m.Msg = "b"
			s.Send(m)
			s.CloseSend()
			m.Msg = "client"
		})
		cs = s
	}
	if cs != nil {
		w.do(func() {
			md, _ := cs.Header()
			for _, v := range md {
				_ = v[0]
			}
		})
		w.do(func() {
			var m proto.Message = &testproto.BidiStreamResponse{}
			switch kind {
			case 1:
				m = &testproto.ServerStreamResponse{}
			case 2:
				m = &testproto.ClientStreamResponse{}
			}
			n := 1 // a single response has no end after it
			if kind != 2 {
				n = 10
			}
			for i := 0; i < n; i++ {
				if cs.RecvMsg(m) != nil {
					break
				}
				use(m)
			}
			for _, v := range cs.Trailer() {
				_ = v[0]
			}
		})
	}
	if cancels || mayBlock {
		w.do(stop)
	}
	w.finish()
}
