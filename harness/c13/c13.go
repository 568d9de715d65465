// Package c13 checks that a wrapped server is to its client as one at the other end of a gRPC connection.
//
// A script is a sequence of events that both sides follow, so that every send meets a receiver; the end of the call,
// its header and its trailer are compared with what gRPC specifies for that script. Dial is the connection under test:
// replacing it by a real one checks the specification itself (see oracle/).
package c13

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
)

// Dial connects to srv.
var Dial = func(srv testproto.TestApiServer) grpc.ClientConnInterface {
	return wrap.ServerToClient(testproto.TestApi_ServiceDesc, srv)
}

// Real is set when Dial makes real connections.
var Real bool

const (
	clientSend = iota
	serverSend
	halfClose
	setHeader
	sendHeader
	setTrailer
	finish // the server returns
	cancel // the client cancels
)

type event struct {
	kind int
	text string // of the message
	md   metadata.MD
}

type script struct {
	events []event
	end    int // what the server returns, see result
	msg    string
	code   codes.Code
	reuse  bool // messages are reused and changed by their owner between uses

	gone   chan struct{} // the client has cancelled
	closed bool          // half closed
}

// result is what the server returns at the end.
func (s *script) result() error {
	switch s.end {
	case 0:
		return nil
	case 1:
		return status.Error(s.code, s.msg)
	case 2:
		return errors.New("plain " + s.msg)
	case 3:
		return io.EOF
	case 4:
		return context.Canceled
	case 5:
		return fmt.Errorf("wrapped: %w", status.Error(s.code, s.msg))
	}
	return context.DeadlineExceeded
}

const results = 7

// want is the end the client sees.
func (s *script) want() *status.Status {
	err := s.result()
	if err == nil {
		return nil
	}
	switch s.end {
	case 1:
		return status.New(s.code, s.msg)
	case 2:
		return status.New(codes.Unknown, "plain "+s.msg)
	case 3:
		return status.New(codes.Unknown, "EOF")
	case 4:
		return status.New(codes.Canceled, "context canceled")
	case 5:
		return status.New(s.code, err.Error())
	}
	return status.New(codes.DeadlineExceeded, "context deadline exceeded")
}

func (s *script) cancelled() bool {
	n := len(s.events)
	return n > 0 && s.events[n-1].kind == cancel
}

// metadata the client sees.
func (s *script) header() metadata.MD {
	var md metadata.MD
	for _, e := range s.events {
		switch e.kind {
		case setHeader:
			md = metadata.Join(md, e.md)
		case sendHeader:
			return metadata.Join(md, e.md)
		case serverSend:
			return md
		}
	}
	return md
}

func (s *script) trailer() metadata.MD {
	var md metadata.MD
	for _, e := range s.events {
		if e.kind == setTrailer {
			md = metadata.Join(md, e.md)
		}
	}
	return md
}

func sameMD(label string, got, want metadata.MD) {
	n := 0
	for k, vs := range got {
		if k == "content-type" {
			continue // a real connection's
		}
		n++
		ws := want[k]
		sym.Assert(label, len(vs) == len(ws), "got", got, "want", want)
		for i := range vs {
			sym.Assert(label, sym.EqStr(vs[i], ws[i]), "got", got, "want", want)
		}
	}
	sym.Assert(label, n == len(want), "got", got, "want", want)
}

func isCancel(err error) bool {
	return errors.Is(err, context.Canceled) || status.Code(err) == codes.Canceled
}

func isDeadline(err error) bool {
	return errors.Is(err, context.DeadlineExceeded) || status.Code(err) == codes.DeadlineExceeded
}

// ended compares the end of the call with the script's.
func (s *script) ended(err error) {
	if s.cancelled() {
		sym.Assert("a cancelled call ends as cancelled", isCancel(err), "got", err)
		return
	}
	s.sameEnd(err)
}

func (s *script) sameEnd(err error) {
	want := s.want()
	if want == nil {
		sym.Assert("a successful call ends without error", err == nil || err == io.EOF, "got", err)
		return
	}
	got, ok := status.FromError(err)
	sym.Assert("a failed call fails", err != nil && err != io.EOF, "got", err)
	sym.Assert("the status code is the server's", ok && got.Code() == want.Code(), "got", err, "want", want)
	sym.Assert("the status message is the server's", sym.EqStr(got.Message(), want.Message()), "got", err, "want", want)
}

// text is a message's contents.
func text(m proto.Message) string {
	switch m := m.(type) {
	case *testproto.UnaryRequest:
		return m.Msg
	case *testproto.UnaryResponse:
		return m.Msg
	case *testproto.ServerStreamRequest:
		return string(rune('0' + m.NumRes))
	case *testproto.ServerStreamResponse:
		return string(rune('0' + m.Counter))
	case *testproto.ClientStreamRequest:
		return m.Msg
	case *testproto.ClientStreamResponse:
		return m.Msg
	case *testproto.BidiStreamRequest:
		return m.Msg
	case *testproto.BidiStreamResponse:
		return m.Msg
	}
	return ""
}

func setText(m proto.Message, s string) {
	switch m := m.(type) {
	case *testproto.UnaryRequest:
		m.Msg = s
	case *testproto.UnaryResponse:
		m.Msg = s
	case *testproto.ServerStreamRequest:
		m.NumRes = int32(s[0] - '0')
	case *testproto.ServerStreamResponse:
		m.Counter = int32(s[0] - '0')
	case *testproto.ClientStreamRequest:
		m.Msg = s
	case *testproto.ClientStreamResponse:
		m.Msg = s
	case *testproto.BidiStreamRequest:
		m.Msg = s
	case *testproto.BidiStreamResponse:
		m.Msg = s
	}
}

// server follows the script.
type server struct {
	testproto.UnimplementedTestApiServer
	*script
	clientStreams, serverStreams bool
}

func (s *server) run(ss grpc.ServerStream, in, out proto.Message) error {
	received := func() error {
		if !s.reuse {
			in = in.ProtoReflect().New().Interface()
		}
		return ss.RecvMsg(in)
	}
	for _, e := range s.events {
		switch e.kind {
		case clientSend:
			if !s.clientStreams {
				continue // received by the generated code
			}
			err := received()
			if s.overtaken(err) {
				return err
			}
			sym.Assert("the server receives what's sent", err == nil, "got", err)
			sym.Assert("the server receives the message", sym.EqStr(text(in), e.text), "got", text(in), "want", e.text)
			setText(in, "9") // the server's own copy
		case serverSend:
			if !s.reuse {
				out = out.ProtoReflect().New().Interface()
			}
			setText(out, e.text)
			err := ss.SendMsg(out)
			if s.overtaken(err) {
				return err
			}
			sym.Assert("the server can send", err == nil, "got", err)
			setText(out, "9") // still the server's
		case halfClose:
			if s.clientStreams {
				err := received()
				if s.overtaken(err) {
					return err
				}
				sym.Assert("the server sees the half close", err == io.EOF, "got", err)
				s.closed = true
			}
		case setHeader:
			ss.SetHeader(e.md) // fails when it was sent
			scribble(e.md)
		case sendHeader:
			ss.SendHeader(e.md)
			scribble(e.md)
		case setTrailer:
			ss.SetTrailer(e.md)
			scribble(e.md)
		case cancel:
			// blocked in something that the cancellation ends
			var err error
			op := sym.Choice("blocked", 3)
			switch {
			case op == 0 && s.clientStreams && !s.closed:
				err = received()
				sym.Assert("the server doesn't take a cancelled call for a half closed one", err != nil && err != io.EOF, "got", err)
			case op == 1 && s.serverStreams:
				for err == nil {
					err = ss.SendMsg(out) // may be received before the client has cancelled
				}
				sym.Assert("the server doesn't take a cancelled call for a finished one", err != io.EOF, "got", err)
			default:
				<-ss.Context().Done()
				err = ss.Context().Err()
			}
			switch sym.Choice("then", 3) {
			case 0:
				return err
			case 1:
				return nil
			}
		}
	}
	return s.result()
}

// overtaken is whether an operation failed because the call is cancelled later on in the script.
func (s *script) overtaken(err error) bool { return err != nil && s.cancelled() && isCancel(err) }

// scribble changes metadata after it was passed on.
func scribble(md metadata.MD) {
	for _, vs := range md {
		for i := range vs {
			vs[i] = "scribble"
		}
	}
}

func (s *server) ServerStream(req *testproto.ServerStreamRequest, ss testproto.TestApi_ServerStreamServer) error {
	if len(s.events) > 0 && s.events[0].kind == clientSend {
		sym.Assert("the server receives the request", sym.EqStr(text(req), s.events[0].text), "got", req)
	}
	req.NumRes = 9 // the server's own copy
	return s.run(ss, nil, &testproto.ServerStreamResponse{})
}

func (s *server) ClientStream(ss testproto.TestApi_ClientStreamServer) error {
	return s.run(ss, &testproto.ClientStreamRequest{}, &testproto.ClientStreamResponse{})
}

func (s *server) BidiStream(ss testproto.TestApi_BidiStreamServer) error {
	return s.run(ss, &testproto.BidiStreamRequest{}, &testproto.BidiStreamResponse{})
}

// someMD is metadata with a symbolic value, under one of two keys.
func someMD(i int) metadata.MD {
	k := "k"
	if i > 0 && sym.Flip("key") {
		k = "l"
	}
	return metadata.MD{k: []string{"v" + sym.StringN("value", 1), string(rune('a' + i))}}
}

// printable restricts s to what may appear in metadata and messages of a real connection.
func printable(s string) {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] > ' ' && s[i] < 127)
	}
}

// someText is what a message or a status says: "a" and a symbolic character.
func someText(name string) string {
	s := sym.StringN(name, 1)
	printable(s)
	return "a" + s
}

func (s *script) ending() {
	s.end = sym.Choice("end", results)
	s.code = codes.Code(sym.Int("code", 1, 16))
	s.msg = someText("msg")
}

// copyMD keeps the script's metadata from the server's scribbles.
func (s *script) clone() *script {
	c := *s
	c.events = append([]event(nil), s.events...)
	for i := range c.events {
		if md := c.events[i].md; md != nil {
			c.events[i].md = md.Copy()
		}
	}
	return &c
}

// stream writes and plays a script for a stream.
func stream(clientStreams, serverStreams bool, max int, kinds []int) {
	s := &script{}
	n := sym.Choice("events", max+1)
	closed, responded, mds := false, false, 0
	if !clientStreams {
		s.events = append(s.events, event{kind: clientSend, text: string(rune('0' + sym.Int("request", 0, 9)))}, event{kind: halfClose})
		closed = true
	}
	for i := 0; i < n; i++ {
		e := event{kind: kinds[sym.Choice("event", len(kinds))]}
		switch e.kind {
		case clientSend:
			if closed {
				continue
			}
			e.text = someText("text")
		case serverSend:
			if !serverStreams && (responded || !closed) {
				continue
			}
			responded = true
			if clientStreams {
				e.text = someText("text")
			} else {
				e.text = string(rune('0' + sym.Int("counter", 0, 9)))
			}
		case halfClose:
			if closed {
				continue
			}
			closed = true
		case setHeader, sendHeader, setTrailer:
			e.md = someMD(mds)
			mds++
		}
		s.events = append(s.events, e)
		if e.kind == cancel {
			break
		}
	}
	s.ending()
	if !serverStreams && !responded && s.end == 0 && !s.cancelled() {
		// a response is due
		if !closed {
			s.events = append(s.events, event{kind: halfClose})
		}
		s.events = append(s.events, event{kind: serverSend, text: "last"})
		responded = true
	}
	s.reuse = sym.Flip("reuse")
	play(s, clientStreams, serverStreams)
}

func play(s *script, clientStreams, serverStreams bool) {
	conn := Dial(&server{script: s.clone(), clientStreams: clientStreams, serverStreams: serverStreams})
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	if sym.Thorough() {
		sym.Delays(2, 400)
	} else {
		sym.Delays(1, 300)
	}
	var in, out proto.Message
	method, name := "", ""
	switch {
	case clientStreams && serverStreams:
		name, in, out = "BidiStream", &testproto.BidiStreamResponse{}, &testproto.BidiStreamRequest{}
	case clientStreams:
		name, in, out = "ClientStream", &testproto.ClientStreamResponse{}, &testproto.ClientStreamRequest{}
	default:
		name, in, out = "ServerStream", &testproto.ServerStreamResponse{}, &testproto.ServerStreamRequest{}
	}
	method = "/" + testproto.TestApi_ServiceDesc.ServiceName + "/" + name
	cs, err := conn.NewStream(ctx, &grpc.StreamDesc{StreamName: name, ClientStreams: clientStreams, ServerStreams: serverStreams}, method)
	sym.Assert("a stream opens", err == nil, "got", err)
	recv := func() error {
		if !s.reuse {
			in = in.ProtoReflect().New().Interface()
		}
		return cs.RecvMsg(in)
	}
	responded := false
	var end error
	for _, e := range s.events {
		switch e.kind {
		case clientSend:
			if !s.reuse {
				out = out.ProtoReflect().New().Interface()
			}
			setText(out, e.text)
			err := cs.SendMsg(out)
			sym.Assert("the client can send", err == nil, "got", err)
			setText(out, "9") // still the client's
		case halfClose:
			err := cs.CloseSend()
			sym.Assert("the client can half close", err == nil, "got", err)
		case serverSend:
			err := recv()
			if !serverStreams {
				responded = true
				end = err
				if s.cancelled() || s.want() != nil {
					continue // the response goes unseen
				}
			}
			sym.Assert("the client receives what's sent", err == nil, "got", err)
			sym.Assert("the client receives the message", sym.EqStr(text(in), e.text), "got", text(in), "want", e.text)
			setText(in, "9") // the client's own copy
		case cancel:
			if responded {
				break // the call is over
			}
			stop()
			for {
				if err := recv(); err != nil {
					end = err
					break
				}
			}
			responded = true
		}
	}
	if !responded {
		end = recv()
	}
	if s.cancelled() {
		s.ended(end)
		sym.Quiesce()
		s.ended(recv())
		sym.Assert("a cancelled call leaves no goroutine", !sym.Symbolic() || sym.Live() == 0, "live", sym.Live())
		return
	}
	s.ended(end)
	md, err := cs.Header()
	sym.Assert("the header is there", err == nil, "got", err)
	sameMD("the header is the server's", md, s.header())
	sameMD("the trailer is the server's", cs.Trailer(), s.trailer())
	stop()
	sym.Quiesce()
	sym.Assert("a finished call leaves no goroutine", !sym.Symbolic() || sym.Live() == 0, "live", sym.Live())
}

// CheckServerStream: server streaming calls.
//
// gosym: time=60s thorough.time=180s
func CheckServerStream() {
	sym.NoTimers(true)
	n := 2
	if sym.Thorough() {
		n = 3
	}
	stream(false, true, n, []int{serverSend, setHeader, sendHeader, setTrailer, cancel})
}

// CheckClientStream: client streaming calls.
//
// gosym: time=60s thorough.time=180s
func CheckClientStream() {
	sym.NoTimers(true)
	n := 2
	if sym.Thorough() {
		n = 3
	}
	stream(true, false, n, []int{clientSend, halfClose, serverSend, setHeader, sendHeader, setTrailer, cancel})
}

// CheckBidi: bidirectional calls.
//
// gosym: time=60s thorough.time=180s
func CheckBidi() {
	sym.NoTimers(true)
	n := 2
	if sym.Thorough() {
		n = 3
	}
	stream(true, true, n, []int{clientSend, serverSend, halfClose, setHeader, sendHeader, setTrailer, cancel})
}

// ---- unary

type unaryServer struct {
	testproto.UnimplementedTestApiServer
	*script
	calls int
	got   string
	res   *testproto.UnaryResponse
	ctxs  chan struct{}
	md    metadata.MD
}

func (s *unaryServer) Unary(ctx context.Context, req *testproto.UnaryRequest) (*testproto.UnaryResponse, error) {
	s.calls++
	s.got = strings.Clone(req.Msg)
	s.md, _ = metadata.FromIncomingContext(ctx)
	req.Msg = "server" // its own copy
	for _, e := range s.events {
		switch e.kind {
		case setHeader:
			grpc.SetHeader(ctx, e.md)
			scribble(e.md)
		case sendHeader:
			grpc.SendHeader(ctx, e.md)
			scribble(e.md)
		case setTrailer:
			grpc.SetTrailer(ctx, e.md)
			scribble(e.md)
		case cancel:
			<-ctx.Done()
			if sym.Flip("then") {
				return nil, ctx.Err()
			}
		}
	}
	s.res = &testproto.UnaryResponse{Msg: "r" + s.msg}
	return s.res, s.result()
}

// CheckUnary: unary calls.
//
// gosym: time=60s thorough.time=180s
func CheckUnary() {
	sym.NoTimers(true)
	s := &script{}
	n := sym.Choice("events", 3+bool2int(sym.Thorough()))
	kinds := []int{setHeader, sendHeader, setTrailer, cancel}
	for i := 0; i < n; i++ {
		e := event{kind: kinds[sym.Choice("event", len(kinds))]}
		if e.kind != cancel {
			e.md = someMD(i)
		}
		s.events = append(s.events, e)
		if e.kind == cancel {
			break
		}
	}
	s.ending()
	asStream := sym.Flip("asStream")
	srv := &unaryServer{script: s.clone()}
	conn := Dial(srv)
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	out := metadata.MD{"in": []string{sym.StringN("in", 1)}}
	printable(out["in"][0])
	sent := out.Copy()
	ctx = metadata.NewOutgoingContext(ctx, out)
	if sym.Thorough() {
		sym.Delays(2, 300)
	} else {
		sym.Delays(1, 300)
	}
	if s.cancelled() {
		go stop()
	}
	msg := someText("req")
	req := &testproto.UnaryRequest{Msg: msg}
	var res *testproto.UnaryResponse
	var err error
	var header, trailer metadata.MD
	if asStream {
		res = &testproto.UnaryResponse{Msg: "old"}
		var cs grpc.ClientStream
		cs, err = conn.NewStream(ctx, &grpc.StreamDesc{StreamName: "Unary"}, testproto.TestApi_Unary_FullMethodName)
		if err == nil {
			err = cs.SendMsg(req)
			if err == nil {
				req.Msg = "client"
				if !s.cancelled() {
					err = cs.CloseSend()
				}
			}
			if err == nil {
				err = cs.RecvMsg(res)
			}
			header, _ = cs.Header()
			trailer = cs.Trailer()
		}
	} else {
		res, err = testproto.NewTestApiClient(conn).Unary(ctx, req, grpc.Header(&header), grpc.Trailer(&trailer))
		req.Msg = "client"
	}
	if s.cancelled() {
		s.ended(err)
		sym.Quiesce()
	} else {
		s.sameEnd(err)
		sym.Assert("a successful call isn't taken for an ended stream", err != io.EOF)
		sym.Assert("the server is called once", srv.calls == 1)
		sym.Assert("the request is the client's", sym.EqStr(srv.got, msg), "got", srv.got, "want", msg)
		got := metadata.MD{"in": srv.md["in"]}
		sameMD("the server sees the client's metadata", got, sent)
		if err == nil {
			sym.Assert("the response is the server's", sym.EqStr(res.Msg, "r"+s.msg), "got", res.Msg)
			res.Msg = "mine"
			sym.Assert("the response is a copy", sym.EqStr(srv.res.Msg, "r"+s.msg))
		}
		sameMD("the header is the server's", header, s.header())
		sameMD("the trailer is the server's", trailer, s.trailer())
	}
	stop()
	sym.Quiesce()
	sym.Assert("a finished call leaves no goroutine", !sym.Symbolic() || sym.Live() == 0, "live", sym.Live())
}

func bool2int(b bool) int {
	if b {
		return 1
	}
	return 0
}

// CheckEarly: calls whose context has already ended.
//
// gosym: time=30s
func CheckEarly() {
	sym.NoTimers(true)
	deadline := sym.Flip("deadline")
	ctx, stop := context.WithCancel(context.Background())
	if deadline {
		ctx, stop = context.WithDeadline(context.Background(), time.Unix(1, 0))
	} else {
		stop()
	}
	defer stop()
	s := &script{}
	s.end = sym.Choice("end", 2)
	s.code, s.msg = codes.Aborted, "x"
	shape := sym.Choice("shape", 4)
	var srv testproto.TestApiServer = &server{script: s, clientStreams: shape >= 2, serverStreams: shape != 2}
	if shape == 0 {
		srv = &unaryServer{script: s}
	}
	if sym.Flip("send") && shape != 0 {
		s.events = append(s.events, event{kind: cancel})
	}
	c := testproto.NewTestApiClient(Dial(srv))
	sym.Delays(2, 300)
	var err error
	switch shape {
	case 0:
		_, err = c.Unary(ctx, &testproto.UnaryRequest{})
	case 1:
		var cs testproto.TestApi_ServerStreamClient
		cs, err = c.ServerStream(ctx, &testproto.ServerStreamRequest{})
		for err == nil {
			_, err = cs.Recv()
		}
	case 2:
		var cs testproto.TestApi_ClientStreamClient
		cs, err = c.ClientStream(ctx)
		if err == nil {
			err = cs.Send(&testproto.ClientStreamRequest{})
			if err == nil || err == io.EOF {
				_, err = cs.CloseAndRecv()
			}
		}
	case 3:
		var cs testproto.TestApi_BidiStreamClient
		cs, err = c.BidiStream(ctx)
		if err == nil {
			err = cs.Send(&testproto.BidiStreamRequest{})
			if err == io.EOF {
				err = nil
			}
			for err == nil {
				_, err = cs.Recv()
			}
		}
	}
	if deadline {
		sym.Assert("a call past its deadline ends as such", isDeadline(err), "got", err)
	} else {
		sym.Assert("a cancelled call ends as cancelled", isCancel(err), "got", err)
	}
	sym.Quiesce()
	sym.Assert("a cancelled call leaves no goroutine", !sym.Symbolic() || sym.Live() == 0, "live", sym.Live())
}

// CheckShape: unknown methods, and known ones called in another shape.
//
// gosym: time=30s
func CheckShape() {
	sym.NoTimers(true)
	conn := Dial(&unaryServer{script: &script{}})
	names := []string{"Unary", "ServerStream", "ClientStream", "BidiStream"}
	prefix := "/" + testproto.TestApi_ServiceDesc.ServiceName + "/"
	i := sym.Choice("method", 6)
	method := prefix + sym.String("unknown", 3)
	if i < 4 {
		method = prefix + names[i]
	} else if i == 5 {
		method = "/" + sym.String("service", 2) + "/Unary"
	}
	var err error
	cs, ss := sym.Flip("clientStreams"), sym.Flip("serverStreams")
	known, matches := i < 4, false
	if known && Real {
		return // a real connection doesn't compare shapes
	}
	if sym.Flip("invoke") {
		if known && i == 0 {
			return
		}
		err = conn.Invoke(context.Background(), method, &testproto.UnaryRequest{}, &testproto.UnaryResponse{})
	} else {
		matches = cs == (i == 2 || i == 3) && ss == (i == 1 || i == 3)
		if known && matches {
			return
		}
		var st grpc.ClientStream
		st, err = conn.NewStream(context.Background(), &grpc.StreamDesc{ClientStreams: cs, ServerStreams: ss}, method)
		if err == nil { // it may only be found out later
			st.SendMsg(&testproto.UnaryRequest{})
			st.CloseSend()
			err = st.RecvMsg(&testproto.UnaryResponse{})
		}
	}
	if known {
		sym.Assert("a call in another shape is an internal error", status.Code(err) == codes.Internal, "got", err)
	} else {
		sym.Assert("an unknown method is unimplemented", status.Code(err) == codes.Unimplemented, "got", err)
	}
	sym.Assert("no goroutine is started", !sym.Symbolic() || sym.Live() == 0)
}

// CheckHalfClose: the client may half close again, and may not send afterwards.
//
// gosym: time=30s
func CheckHalfClose() {
	sym.NoTimers(true)
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	s := &script{}
	c := testproto.NewTestApiClient(Dial(&server{script: s, clientStreams: true, serverStreams: true}))
	cs, err := c.BidiStream(ctx)
	sym.Assert("a stream opens", err == nil)
	if sym.Flip("before") {
		sym.Assert("half close", cs.CloseSend() == nil)
	}
	sym.Assert("half close again", cs.CloseSend() == nil)
	if sym.Flip("send") {
		err := cs.Send(&testproto.BidiStreamRequest{})
		sym.Assert("nothing is sent after a half close", err != nil)
	}
	_, err = cs.Recv()
	sym.Assert("the call ends", err != nil)
	sym.Assert("half close at the end", cs.CloseSend() == nil)
}

// mdServer tells the metadata its handlers see.
type mdServer struct {
	testproto.UnimplementedTestApiServer
	got metadata.MD
}

func (s *mdServer) see(ctx context.Context) {
	s.got, _ = metadata.FromIncomingContext(ctx)
	s.got = s.got.Copy()
	if md, ok := metadata.FromIncomingContext(ctx); ok {
		scribble(md) // the handler's own
	}
}

func (s *mdServer) Unary(ctx context.Context, _ *testproto.UnaryRequest) (*testproto.UnaryResponse, error) {
	s.see(ctx)
	return &testproto.UnaryResponse{}, nil
}

func (s *mdServer) ServerStream(_ *testproto.ServerStreamRequest, ss testproto.TestApi_ServerStreamServer) error {
	s.see(ss.Context())
	return nil
}

func (s *mdServer) ClientStream(ss testproto.TestApi_ClientStreamServer) error {
	s.see(ss.Context())
	if _, err := ss.Recv(); err != io.EOF {
		return status.Error(codes.DataLoss, "message")
	}
	return ss.SendAndClose(&testproto.ClientStreamResponse{})
}

func (s *mdServer) BidiStream(ss testproto.TestApi_BidiStreamServer) error {
	s.see(ss.Context())
	return nil
}

// CheckMetadata: a server sees the metadata the client sends, which isn't what the client itself was called with, and a
// second call's isn't the first one's.
//
// gosym: time=30s
func CheckMetadata() {
	sym.NoTimers(true)
	srv := &mdServer{}
	c := testproto.NewTestApiClient(Dial(srv))
	base := context.Background()
	if sym.Flip("called") { // by another client
		base = metadata.NewIncomingContext(base, metadata.MD{"caller": []string{"x"}, "k": []string{"y"}})
	}
	for i := 0; i < 2; i++ {
		ctx, stop := context.WithCancel(base)
		sent := metadata.MD{}
		out := metadata.MD{}
		switch sym.Choice("metadata", 3) {
		case 1:
			v := sym.StringN("value", 1)
			printable(v)
			sent = metadata.MD{"k": []string{v, "b"}}
			out = metadata.MD{"k": []string{v, "b"}}
			ctx = metadata.NewOutgoingContext(ctx, out)
		case 2:
			sent = metadata.MD{"l": []string{"c"}}
			ctx = metadata.AppendToOutgoingContext(ctx, "l", "c")
		}
		var err error
		switch sym.Choice("shape", 4) {
		case 0:
			_, err = c.Unary(ctx, &testproto.UnaryRequest{})
		case 1:
			var cs testproto.TestApi_ServerStreamClient
			cs, err = c.ServerStream(ctx, &testproto.ServerStreamRequest{})
			if err == nil {
				if _, err = cs.Recv(); err == io.EOF {
					err = nil
				}
			}
		case 2:
			var cs testproto.TestApi_ClientStreamClient
			cs, err = c.ClientStream(ctx)
			if err == nil {
				_, err = cs.CloseAndRecv()
			}
		case 3:
			var cs testproto.TestApi_BidiStreamClient
			cs, err = c.BidiStream(ctx)
			if err == nil {
				if _, err = cs.Recv(); err == io.EOF {
					err = nil
				}
			}
		}
		sym.Assert("the call succeeds", err == nil, "got", err)
		for _, k := range []string{"caller", "k", "l"} {
			got, want := srv.got[k], sent[k]
			sym.Assert("the server sees the metadata sent", len(got) == len(want), "key", k, "got", srv.got)
			for j := range got {
				sym.Assert("the server sees the metadata sent", sym.EqStr(got[j], want[j]), "key", k, "got", srv.got)
			}
			own := out[k]
			sym.Assert("the client keeps its metadata", len(own) == len(want) || len(own) == 0)
			for j := range own {
				sym.Assert("the client keeps its metadata", sym.EqStr(own[j], want[j]), "key", k)
			}
		}
		stop()
		sym.Quiesce()
		sym.Assert("a finished call leaves no goroutine", !sym.Symbolic() || sym.Live() == 0, "live", sym.Live())
	}
}
