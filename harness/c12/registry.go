package c12

import (
	"context"
	"errors"
	"sync"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/emptypb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/middleware/name"
	"github.com/smart-core-os/sc-golang/pkg/router"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
)

type cli struct{ n int }

var errFactory = errors.New("factory")

// source is a factory or fallback whose answers are chosen: a client, nothing, or an error.
func source(id string, used *int, last **cli) router.Factory {
	return func(n string) (any, error) {
		*used++
		*last = nil
		switch sym.Choice(id, 4) {
		case 0:
			*last = &cli{*used}
			return *last, nil
		case 1:
			return nil, nil
		case 2:
			return nil, errFactory
		}
		return &cli{-1}, errFactory // an error wins over a client
	}
}

// CheckRegistry: any history of registry operations behaves as a map, and the change callback reports its transitions.
//
// gosym: time=60s thorough.time=300s
func CheckRegistry() {
	sym.Start()
	var log, want []router.Change
	var opts []router.Option
	var fb, fac *cli
	var nfb, nfac int
	hasFb, hasFac := sym.Flip("fallback"), sym.Flip("factory")
	if hasFb {
		opts = append(opts, router.WithFallback(source("fb", &nfb, &fb)))
	}
	if hasFac {
		opts = append(opts, router.WithFactory(source("fac", &nfac, &fac)))
	}
	var r router.Router
	observed := sym.Flip("onchange")
	if observed {
		opts = append(opts, router.WithOnChange(func(c router.Change) {
			// no locks are held here: the callback may use the router
			sym.Assert("the router shows the change it reports", r.Has(c.Name) == (c.New != nil))
			log = append(log, c)
		}))
	}
	r = router.NewRouter(opts...)
	model := map[string]any{}
	id := 0
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	names := []string{"", "x"}
	for i := 0; i < steps; i++ {
		n := names[sym.Choice("name", 2)]
		old, had := model[n]
		switch sym.Choice("op", 4) {
		case 0:
			id++
			c := &cli{id}
			got := r.Add(n, c)
			sym.Assert("Add returns the previous client", got == old)
			model[n] = c
			want = append(want, router.Change{Name: n, Old: old, New: c})
		case 1:
			got := r.Remove(n)
			sym.Assert("Remove returns the removed client", got == old)
			if had {
				delete(model, n)
				want = append(want, router.Change{Name: n, Old: old})
			}
		case 2:
			sym.Assert("Has", r.Has(n) == had)
		case 3:
			bfb, bfac := nfb, nfac
			fb, fac = nil, nil
			got, err := r.Get(n)
			switch {
			case had:
				sym.Assert("Get returns the registered client", got == old && err == nil)
				sym.Assert("nothing is made for a registered name", nfb == bfb && nfac == bfac)
			case hasFb && fb != nil:
				sym.Assert("Get returns the fallback", got == any(fb) && err == nil)
				sym.Assert("no client is made when there's a fallback", nfac == bfac)
				sym.Assert("a fallback isn't remembered", !r.Has(n))
			case hasFac && fac != nil:
				sym.Assert("Get returns the made client", got == any(fac) && err == nil)
				sym.Assert("one client is made", nfac == bfac+1)
				model[n] = fac
				want = append(want, router.Change{Name: n, New: fac, Auto: true})
			default:
				sym.Assert("Get finds nothing", got == nil && status.Code(err) == codes.NotFound, "got", err)
			}
		}
		for _, n := range names {
			_, has := model[n]
			sym.Assert("Has agrees with the history", r.Has(n) == has)
		}
	}
	if observed {
		sym.Assert("each transition is reported", len(log) == len(want), "got", len(log), "want", len(want))
		for i := range want {
			sym.Assert("transitions are reported as they happen", log[i] == want[i], "got", log[i], "want", want[i])
		}
	}
}

// CheckConcurrent: concurrent registry operations have the results of some order of them.
//
// gosym: time=60s thorough.time=300s
func CheckConcurrent() {
	sym.Start()
	var log []router.Change
	made := 0
	var mu sync.Mutex // for log and made
	r := router.NewRouter(
		router.WithFactory(func(n string) (any, error) {
			mu.Lock()
			defer mu.Unlock()
			made++
			return &cli{100 + made}, nil
		}),
		router.WithOnChange(func(c router.Change) {
			mu.Lock()
			defer mu.Unlock()
			log = append(log, c)
		}),
	)
	var first any
	if sym.Flip("present") {
		first = &cli{1}
		r.Add("x", first)
	}
	workers := 3
	type res struct {
		op    int
		cl    any
		added any
		has   bool
		err   error
	}
	out := make([]res, workers)
	gets := true
	for i := 0; i < workers; i++ {
		out[i].op = sym.Choice("op", 4)
		if out[i].op == 1 || out[i].op == 2 {
			gets = false
		}
	}
	done := make(chan struct{})
	sym.Explore(-1, 200)
	for i := 0; i < workers; i++ {
		i := i
		go func() {
			defer func() { done <- struct{}{} }()
			o := &out[i]
			switch o.op {
			case 0:
				o.cl, o.err = r.Get("x")
			case 1:
				o.added = &cli{10 + i}
				o.cl = r.Add("x", o.added)
			case 2:
				o.cl = r.Remove("x")
			case 3:
				o.has = r.Has("x")
			}
		}()
	}
	for i := 0; i < workers; i++ {
		<-done
	}
	sym.Sequential()
	final := r.Remove("x")
	// the changes, chained by their clients, are a history of the entry
	froms := map[any]int{}
	news := map[any]int{}
	for _, c := range log {
		sym.Assert("only x changes", c.Name == "x")
		sym.Assert("a change changes something", c.Old != nil || c.New != nil)
		if c.Old != nil {
			froms[c.Old]++
		}
		if c.New != nil {
			news[c.New]++
		}
	}
	fromNil, toNil := 0, 0
	for _, c := range log {
		if c.Old == nil {
			fromNil++
		} else {
			sym.Assert("a client is replaced or removed once, after it was added", froms[c.Old] == 1 && news[c.Old] == 1, "client", c.Old)
		}
		if c.New == nil {
			toNil++
		} else {
			sym.Assert("a client is added once", news[c.New] == 1)
			sym.Assert("an added client is there until it's replaced or removed", froms[c.New] == 1)
		}
	}
	_ = final
	sym.Assert("the history is connected", fromNil == toNil)
	for i := range out {
		o := &out[i]
		switch o.op {
		case 0:
			sym.Assert("Get gives a client that was registered", o.err == nil && o.cl != nil && news[o.cl] == 1, "got", o.cl)
			if first != nil && gets {
				sym.Assert("Get gives the registered client", o.cl == first)
			}
			for j := range out {
				if gets && out[j].op == 0 {
					sym.Assert("concurrent gets agree", o.cl == out[j].cl)
				}
			}
		case 1:
			sym.Assert("an added client is reported", news[o.added] == 1)
			if o.cl != nil {
				sym.Assert("Add returns a client that was registered", news[o.cl] == 1)
			}
			found := false
			for _, c := range log {
				if c.New == o.added {
					found = c.Old == o.cl && !c.Auto
				}
			}
			sym.Assert("Add returns what it reports", found)
		case 2:
			if o.cl != nil {
				found := false
				for _, c := range log {
					if c.Old == o.cl {
						found = c.New == nil
					}
				}
				sym.Assert("a removed client is reported", found)
			}
		}
	}
	for _, c := range log {
		if c.Auto {
			sym.Assert("only the factory's clients are auto", c.New.(*cli).n > 100 && c.Old == nil)
		}
	}
}

type registrar struct {
	desc *grpc.ServiceDesc
	impl any
}

func (r *registrar) RegisterService(d *grpc.ServiceDesc, impl any) { r.desc, r.impl = d, impl }

// CheckTyped: the typed registry functions of every router, and every wrapper's own functions.
//
// gosym: time=60s
func CheckTyped() {
	sym.Start()
	s := services[sym.Choice("service", len(services))]
	ca, cb := s.client(&conn{}), s.client(&conn{})
	r := s.router()
	sym.Assert(s.name+": holds its clients", r.HoldsType(ca))
	sym.Assert(s.name+": holds no nil", !r.HoldsType(nil))
	if len(s.calls) > 0 { // anything is a client of a service without methods
		sym.Assert(s.name+": holds nothing else", !r.HoldsType(&cli{}))
		p := hx.Catch(func() { r.Add("a", &cli{}) })
		sym.Assert(s.name+": adding another type panics", p != nil)
		sym.Assert(s.name+": and doesn't add it", !r.Has("a"))
	}
	got, err := s.get(r, "a")
	sym.Assert(s.name+": Get of an unknown name", got == nil && status.Code(err) == codes.NotFound)
	sym.Assert(s.name+": Remove of an unknown name", s.remove(r, "a") == nil)
	sym.Assert(s.name+": first Add", s.add(r, "a", ca) == nil)
	sym.Assert(s.name+": second Add", s.add(r, "a", cb) == ca)
	got, err = s.get(r, "a")
	sym.Assert(s.name+": Get", got == cb && err == nil)
	sym.Assert(s.name+": Has", r.Has("a") && !r.Has("b"))
	sym.Assert(s.name+": Remove", s.remove(r, "a") == cb)
	sym.Assert(s.name+": Has after Remove", !r.Has("a"))

	reg := &registrar{}
	s.register(r, reg)
	sym.Assert(s.name+": Register", reg.desc == s.desc && reg.impl == any(r))

	w := s.wrap(r)
	sym.Assert(s.name+": UnwrapServer", s.unwrap(w) == any(r))
	sym.Assert(s.name+": Unwrap", w.Unwrap() == any(r))
	sym.Assert(s.name+": UnwrapFully", wrap.UnwrapFully(w) == any(r))
	_, desc := w.UnwrapService()
	sym.Assert(s.name+": UnwrapService", desc.ServiceName == s.desc.ServiceName && len(desc.Methods) == len(s.desc.Methods) && len(desc.Streams) == len(s.desc.Streams))
	// a wrapper is a client
	sym.Assert(s.name+": a wrapper can be added", r.HoldsType(w))
}

// CheckWrappedStream: every server streaming method, through the wrapper.
//
// gosym: time=60s
func CheckWrappedStream() {
	sym.Start()
	var all []func()
	for _, s := range services {
		for _, m := range s.desc.Streams {
			all = append(all, func() { wrappedStream(s, m) })
		}
	}
	all[sym.Choice("method", len(all))]()
}

func wrappedStream(s *service, m grpc.StreamDesc) {
	label := s.name + "." + m.StreamName
	ca, cb := &conn{}, &conn{}
	r, _ := setup(s, ca, cb)
	n := []string{"a", "b"}[sym.Choice("name", 2)]
	c := pick(n, ca, cb)
	c.count = sym.Choice("count", 3)
	if sym.Flip("fail") {
		c.err = someErr("err")
	}
	cl := s.calls[m.StreamName]
	req := cl.req()
	fill(req, "req")
	setName(req, n)
	st, err := cl.open(context.Background(), s.wrap(r), req)
	sym.Assert(label+": opens", err == nil, "got", err)
	for i := 0; i < c.count; i++ {
		res := newResponse(s, m)
		err := st.RecvMsg(res)
		sym.Assert(label+": receives", err == nil, "got", err)
		hx.Same(label+": a message", res, c.sent[i])
	}
	err = st.RecvMsg(newResponse(s, m))
	if c.err == nil {
		sym.Assert(label+": ends", err != nil && err.Error() == "EOF", "got", err)
	} else {
		sameErr(label+": the error", err, c.err)
	}
	sym.Assert(label+": the client is asked once", ca.calls+cb.calls == 1 && c.calls == 1)
	sym.Assert(label+": the same method is called", c.method == "/"+s.desc.ServiceName+"/"+m.StreamName)
	hx.Same(label+": the request", c.req, req)
}

// newResponse gives a message of the method's response type.
func newResponse(s *service, m grpc.StreamDesc) proto.Message {
	return s.calls[m.StreamName].res()
}

type ctxKey struct{}

// CheckUnaryName: the unary default name interceptor.
//
// gosym: time=30s
func CheckUnaryName() {
	sym.Start()
	def := sym.String("default", 2)
	ctx := context.WithValue(context.Background(), ctxKey{}, 1)
	var req any
	var want proto.Message
	given := sym.String("name", 2)
	filled := given
	if given == "" {
		filled = def
	}
	switch sym.Choice("type", 6) {
	case 0:
		req = &traits.GetOnOffRequest{Name: given}
		want = &traits.GetOnOffRequest{Name: filled}
	case 1:
		req = &traits.UpdateOnOffRequest{Name: given, OnOff: &traits.OnOff{State: traits.OnOff_State(sym.Int("state", 0, 2))}}
		want = proto.Clone(req.(proto.Message))
		want.(*traits.UpdateOnOffRequest).Name = filled
	case 2: // an optional name
		q := &descriptorpb.FileDescriptorProto{Package: proto.String("p")}
		if sym.Flip("set") {
			q.Name = proto.String(given)
		} else {
			filled = def
		}
		req = q
		want = &descriptorpb.FileDescriptorProto{Package: proto.String("p"), Name: proto.String(filled)}
	case 3: // a name that isn't a string
		req = &descriptorpb.UninterpretedOption{StringValue: []byte("x")}
		want = proto.Clone(req.(proto.Message))
	case 4: // no name
		req = &emptypb.Empty{}
		want = &emptypb.Empty{}
	case 5:
		req = "not a message"
	}
	res := &traits.OnOff{}
	herr := errors.New("handler")
	calls := 0
	got, err := name.IfAbsentUnaryInterceptor(def)(ctx, req, &grpc.UnaryServerInfo{}, func(c context.Context, q any) (any, error) {
		calls++
		sym.Assert("the context is passed on", c.Value(ctxKey{}) == 1)
		if want == nil {
			sym.Assert("other requests are passed on", q == any("not a message"))
		} else {
			hx.Same("only an empty name is filled in", q.(proto.Message), want)
		}
		return res, herr
	})
	sym.Assert("the handler is called once", calls == 1)
	sym.Assert("the handler's results are returned", got == any(res) && err == herr)
}

// CheckStreamName: the stream default name interceptor.
//
// gosym: time=30s
func CheckStreamName() {
	sym.Start()
	def := sym.String("default", 2)
	given := sym.String("name", 2)
	ctx := context.WithValue(context.Background(), ctxKey{}, 1)
	in := &nameStream{ctx: ctx, name: given, n: 2}
	srv := &cli{}
	herr := errors.New("handler")
	calls := 0
	err := name.IfAbsentStreamInterceptor(def)(srv, in, &grpc.StreamServerInfo{}, func(s any, ss grpc.ServerStream) error {
		calls++
		sym.Assert("the server is passed on", s == any(srv))
		sym.Assert("the context is passed on", ss.Context().Value(ctxKey{}) == 1)
		for i := 0; i < 2; i++ {
			q := &traits.PullOnOffRequest{}
			sym.Assert("requests are received", ss.RecvMsg(q) == nil)
			want := given
			if given == "" {
				want = def
			}
			sym.Assert("only an empty name is filled in", sym.EqStr(q.Name, want), "got", q.Name)
			sym.Assert("the rest of the request is left alone", q.UpdatesOnly)
		}
		q := &traits.PullOnOffRequest{}
		sym.Assert("errors are passed on", ss.RecvMsg(q) == errFactory && q.Name == "")
		m := &traits.PullOnOffResponse{}
		sym.Assert("responses are passed on", ss.SendMsg(m) == nil && in.sent == any(m))
		return herr
	})
	sym.Assert("the handler is called once", calls == 1)
	sym.Assert("the handler's error is returned", err == herr)
}

type nameStream struct {
	grpc.ServerStream
	ctx  context.Context
	name string
	n    int
	sent any
}

func (s *nameStream) Context() context.Context { return s.ctx }
func (s *nameStream) SendMsg(m any) error      { s.sent = m; return nil }
func (s *nameStream) RecvMsg(m any) error {
	if s.n == 0 {
		return errFactory
	}
	s.n--
	q := m.(*traits.PullOnOffRequest)
	q.Name, q.UpdatesOnly = s.name, true
	return nil
}
