package t00

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

// The Por harnesses are run with and without partial order reduction and must reach the same outcomes.

func outcome(por bool, s string) { sym.Cover(fmt.Sprint(por) + " " + s) }

// CheckPorLocks
//
// gosym: time=600s
func CheckPorLocks() {
	por := sym.Flip("p")
	if por {
		sym.Explore(-1, 1000)
	} else {
		sym.Explore(1000, 1000)
	}
	var a, b sync.Mutex
	var rw sync.RWMutex
	x, y := 0, 0
	var log []string
	var wg sync.WaitGroup
	wg.Add(3)
	go func() {
		defer wg.Done()
		a.Lock()
		x++
		a.Unlock()
		rw.RLock()
		v := y
		rw.RUnlock()
		a.Lock()
		log = append(log, fmt.Sprint("1:", x, v))
		a.Unlock()
	}()
	go func() {
		defer wg.Done()
		rw.Lock()
		y++
		b.Lock()
		x2 := y
		b.Unlock()
		rw.Unlock()
		a.Lock()
		x *= 10 * x2
		log = append(log, "2")
		a.Unlock()
	}()
	go func() {
		defer wg.Done()
		b.Lock()
		b.Unlock()
		rw.RLock()
		v := y
		rw.RUnlock()
		a.Lock()
		log = append(log, fmt.Sprint("3:", v))
		a.Unlock()
	}()
	wg.Wait()
	outcome(por, strings.Join(log, " ")+fmt.Sprint(" ", x, y))
}

// CheckPorChans
//
// gosym: time=600s
func CheckPorChans() {
	por := sym.Flip("p")
	if por {
		sym.Explore(-1, 1000)
	} else {
		sym.Explore(1000, 1000)
	}
	ch := make(chan int)
	buf := make(chan int, 1)
	stop := make(chan struct{})
	var got []int
	var wg sync.WaitGroup
	wg.Add(3)
	for i := range 2 {
		go func() {
			defer wg.Done()
			select {
			case ch <- i:
			case <-stop:
			}
			select {
			case buf <- 10 + i:
			default:
			}
		}()
	}
	go func() {
		defer wg.Done()
		got = append(got, <-ch)
		close(stop)
		select {
		case v := <-ch:
			got = append(got, v)
		case v := <-buf:
			got = append(got, v)
		}
	}()
	wg.Wait()
	outcome(por, fmt.Sprint(got))
}

// CheckPorCtx
//
// gosym: time=600s
func CheckPorCtx() {
	por := sym.Flip("p")
	if por {
		sym.Explore(-1, 1000)
	} else {
		sym.Explore(1000, 1000)
	}
	ctx, cancel := context.WithCancel(context.Background())
	ch := make(chan int)
	res := ""
	var mu sync.Mutex
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 2; i++ {
			select {
			case <-ctx.Done():
				mu.Lock()
				res += "d"
				mu.Unlock()
			case ch <- i:
			}
		}
		close(ch)
	}()
	go func() {
		defer wg.Done()
		for v := range ch {
			mu.Lock()
			res += fmt.Sprint(v)
			mu.Unlock()
			if v == 0 {
				cancel()
			}
		}
		mu.Lock()
		res += fmt.Sprint("e", ctx.Err() != nil)
		mu.Unlock()
	}()
	mu.Lock()
	res += "m"
	mu.Unlock()
	wg.Wait()
	cancel()
	outcome(por, res)
}

// CheckPorValue
//
// gosym: time=200s
func CheckPorValue() {
	r := resource.NewValue(resource.WithInitialValue(&testproto.TestAllTypes{}))
	por := sym.Flip("p")
	ctx, cancel := context.WithCancel(context.Background())
	ch := r.Pull(ctx, resource.WithBackpressure(sym.Flip("bp")))
	if por {
		sym.Explore(-1, 10000)
	} else {
		sym.Explore(2, 10000)
	}
	var got []int32
	go func() {
		for e := range ch {
			got = append(got, e.Value.(*testproto.TestAllTypes).DefaultInt32)
		}
	}()
	var wg sync.WaitGroup
	wg.Add(2)
	for i := range 2 {
		go func() {
			defer wg.Done()
			r.Set(&testproto.TestAllTypes{}, resource.InterceptAfter(func(old, new proto.Message) {
				new.(*testproto.TestAllTypes).DefaultInt32 = old.(*testproto.TestAllTypes).DefaultInt32*10 + int32(i) + 1
			}))
		}()
	}
	wg.Wait()
	cancel()
	sym.Sequential()
	sym.Quiesce()
	outcome(por, fmt.Sprint(got))
	_ = time.Now
}

// CheckPorLossy
//
// gosym: time=200s
func CheckPorLossy() {
	por := sym.Flip("p")
	r := resource.NewCollection(resource.WithInitialRecord("a", &testproto.TestAllTypes{}))
	ctx, cancel := context.WithCancel(context.Background())
	ch := r.Pull(ctx)
	if por {
		sym.Explore(-1, 10000)
	} else {
		sym.Explore(1, 10000)
	}
	got := ""
	go func() {
		for e := range ch {
			got += e.ChangeType.String() + " "
		}
	}()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		r.Delete("a")
	}()
	go func() {
		defer wg.Done()
		r.Update("a", &testproto.TestAllTypes{DefaultInt32: 1})
	}()
	wg.Wait()
	sym.Sequential()
	sym.Quiesce()
	_, ok := r.Get("a")
	cancel()
	outcome(por, fmt.Sprint(got, ok))
}
