// Package t00 exercises the executor itself.
package t00

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/verif/sym"
)

type shape interface{ area() int64 }
type sq struct{ a int64 }
type rc struct{ a, b int64 }

func (s sq) area() int64  { return s.a * s.a }
func (r *rc) area() int64 { return r.a * r.b }

func CheckArith() {
	x, y := sym.Int64("x"), sym.Int32("y")
	sym.Assume(x > -1000 && x < 1000)
	s := x + int64(y)
	if s > 5 {
		sym.Assert("gt", x > 5-int64(y))
	} else {
		sym.Assert("le", x+int64(y) <= 5)
	}
	sym.Observe("s", s)
	sym.Observe("div", x/7)
	sym.Observe("mod", x%7)
	sym.Observe("sh", uint64(x)>>3)
	sym.Observe("y8", int64(int8(y)))
}

func CheckFind() {
	x := sym.Int64("x")
	if x*3 == 123456789 {
		sym.Assert("notthere", false, x)
	}
}

func CheckStruct() {
	a := sym.Int("a", 0, 10)
	var s shape
	if sym.Flip("f") {
		s = sq{int64(a)}
	} else {
		s = &rc{int64(a), 3}
	}
	switch t := s.(type) {
	case sq:
		sym.Assert("sq", t.area() == int64(a*a))
	case *rc:
		t.b = 4
		sym.Assert("rc", s.area() == int64(4*a))
	}
	m := map[string]int{"a": 1, "b": a}
	m["c"]++
	delete(m, "a")
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sym.Assert("keys", strings.Join(ks, ",") == "b,c", strings.Join(ks, ","))
	arr := [4]int{1, 2, 3, 4}
	arr2 := arr
	arr2[a%4] = 9
	sum := 0
	for i, v := range arr {
		sum += v*10 + arr2[i]
	}
	sym.Observe("sum", sum)
	sl := append([]int(nil), arr[:2]...)
	sl = append(sl, a)
	sym.Assert("sl", len(sl) == 3 && sl[2] == a)
	if a < 8 {
		var bs [8]int
		bs[a] = 1
		t := 0
		for _, b := range bs {
			t += b
		}
		sym.Assert("one", t == 1)
	}
}

func CheckDefer() {
	r := f(sym.Int("i", 0, 5))
	sym.Observe("r", r)
}

func f(i int) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = fmt.Sprint("recovered ", e)
		}
	}()
	arr := []int{1, 2, 3}
	if i == 4 {
		panic(errors.New("boom"))
	}
	return fmt.Sprint(arr[i])
}

func CheckChan() {
	sym.Explore(2, 50)
	ch := make(chan int)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); ch <- i }()
	}
	go func() { wg.Wait(); close(ch) }()
	sum, first := 0, -1
	for v := range ch {
		if first < 0 {
			first = v
		}
		sum += v
	}
	sym.Assert("sum", sum == 1)
	if first == 0 {
		sym.Cover("0first")
	} else {
		sym.Cover("1first")
	}
}

func CheckLost() {
	sym.Explore(1, 50)
	var mu sync.Mutex
	n := 0
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			x := n
			mu.Unlock()
			mu.Lock()
			n = x + 1
			mu.Unlock()
		}()
	}
	wg.Wait()
	sym.Assert("two", n == 2, n)
}

func CheckCtx() {
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() {
		<-ctx.Done()
		done <- ctx.Err()
	}()
	cancel()
	sym.Assert("err", <-done == context.Canceled)
	ctx2, cancel2 := context.WithTimeout(context.Background(), 10*time.Millisecond)
	defer cancel2()
	select {
	case <-ctx2.Done():
		sym.Assert("deadline", errors.Is(ctx2.Err(), context.DeadlineExceeded))
	}
	sym.Quiesce()
	sym.Assert("live", sym.Live() == 0, sym.Live())
}

func CheckDead() {
	ch := make(chan int)
	if sym.Flip("d") {
		<-ch
	}
}

func CheckStr() {
	s := sym.String("s", 3)
	if strings.HasPrefix(s, "ab") && len(s) == 3 {
		sym.Assert("c", s[2] != 'c', s)
	}
	sym.Observe("up", strings.ToUpper("x"))
	sym.Observe("s", s)
	i := strings.IndexByte(s, '.')
	sym.Observe("i", i)
	sym.Observe("split", len(strings.Split(s, ".")))
}

func CheckFloat() {
	f := sym.Float64("f")
	sym.Assume(f > 0 && f < 10)
	sym.Assert("half", f/2 < f, f)
	g := sym.Float32("g")
	sym.Assert("refl", g == g, g)
}

type gen[T any] struct{ v []T }

func (g *gen[T]) push(t T) { g.v = append(g.v, t) }

func mapF[T, U any](s []T, f func(T) U) []U {
	var r []U
	for _, t := range s {
		r = append(r, f(t))
	}
	return r
}

func CheckGeneric() {
	g := &gen[int]{}
	x := sym.Int("x", 0, 3)
	for i := range 3 {
		g.push(i + x)
	}
	r := mapF(g.v, func(i int) string { return fmt.Sprint(i) })
	sym.Observe("r", strings.Join(r, "-"))
	sort.Slice(g.v, func(i, j int) bool { return g.v[i] > g.v[j] })
	sym.Observe("g", g.v[0])
}

func CheckRace() {
	sym.DetectRaces()
	n := 0
	done := make(chan bool)
	go func() { n++; done <- true }()
	if sym.Flip("bad") {
		n++
	}
	<-done
	n++
}
