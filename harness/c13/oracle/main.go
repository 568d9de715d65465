// Command oracle validates what the C13 harness expects: it plays random scripts over a real gRPC connection.
//
//	go build -overlay overlay.json (see oracle.sh); oracle N
package main

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/test/bufconn"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/c13"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
)

func main() {
	n, _ := strconv.Atoi(os.Args[1])
	first := 0
	if len(os.Args) > 2 {
		first, _ = strconv.Atoi(os.Args[2])
	}
	var stop func()
	c13.Real = true
	c13.Dial = func(srv testproto.TestApiServer) grpc.ClientConnInterface {
		lis := bufconn.Listen(1 << 20)
		s := grpc.NewServer()
		testproto.RegisterTestApiServer(s, srv)
		go s.Serve(lis)
		conn, err := grpc.NewClient("passthrough:x", grpc.WithTransportCredentials(insecure.NewCredentials()),
			grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { return lis.DialContext(ctx) }))
		if err != nil {
			panic(err)
		}
		stop = func() { conn.Close(); s.Stop() }
		return conn
	}
	fns := []struct {
		name string
		f    func()
	}{{"ServerStream", c13.CheckServerStream}, {"ClientStream", c13.CheckClientStream}, {"Bidi", c13.CheckBidi}, {"Unary", c13.CheckUnary}, {"Early", c13.CheckEarly}, {"Shape", c13.CheckShape}, {"HalfClose", c13.CheckHalfClose}}
	for i := first; i < n; i++ {
		r := rand.New(rand.NewSource(int64(i)))
		var log []string
		sym.Rand = func(name string, n uint64) uint64 {
			v := uint64('!' + r.Intn(127-'!'))
			if n > 0 {
				v = uint64(r.Int63n(int64(n)))
			}
			log = append(log, fmt.Sprintf("%s=%d", name, v))
			return v
		}
		f := fns[i%len(fns)]
		sym.OnFail = func() { fmt.Println("seed", i, f.name, log) }
		f.f()
		if stop != nil {
			stop()
		}
	}
	fmt.Println("ok", n)
}
