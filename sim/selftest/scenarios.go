// Package selftest is ordinary Go code that uses everything the source rewriter changes. It
// runs natively and, rewritten, inside the simulator; the results must be the same.
package selftest

import (
	"context"
	"crypto/rand"
	"errors"
	"fmt"
	"hash/maphash"
	"maps"
	mrand "math/rand"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// package-level state, initialised again before every run
var (
	counter  int
	table    = map[string]int{"a": 1}
	seedling = maphash.MakeSeed()
	workers  = runtime.NumCPU()
	a, b     = two()
	order    []string
	started  = make(chan struct{})
)

func two() (int, string) { return 2, "two" }

func init() { order = append(order, "first") }
func init() {
	order = append(order, "second")
	go func() { close(started) }()
}

type sem chan struct{}

type queue[T any] struct {
	items chan T
	sync.Mutex
	n int
}

func (s sem) acquire() { s <- struct{}{} }
func (s sem) release() { <-s }
func (s sem) try() bool {
	select {
	case s <- struct{}{}:
		return true
	default:
		return false
	}
}

type feed <-chan int

func (f feed) sum() (n int) {
	for v := range f {
		n += v
	}
	return n
}

func merge[T any, C ~<-chan T](out chan<- T, in ...C) {
	var wg sync.WaitGroup
	for _, c := range in {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for v := range c {
				out <- v
			}
		}()
	}
	wg.Wait()
	close(out)
}

func (q *queue[T]) push(v T) { q.items <- v; q.Lock(); q.n++; q.Unlock() }

func sends[C ~chan T, T any](c C, vs ...T) {
	for _, v := range vs {
		c <- v
	}
	close(c)
}

type shape interface{ area() int }
type sq int

func (s sq) area() int { return int(s * s) }

// Scenarios by name; the result must not depend on the schedule.
var Scenarios = map[string]func() string{
	"globals": func() string {
		counter++
		table["b"] = 2
		<-started
		return fmt.Sprint(counter, len(table), a, b, order, workers > 0)
	},
	"unbuffered": func() string {
		c := make(chan int)
		done := make(chan string, 1)
		go func() {
			s := 0
			for v := range c {
				s += v
			}
			done <- fmt.Sprint(s)
		}()
		for i := range 10 {
			c <- i
		}
		close(c)
		return <-done
	},
	"buffered": func() string {
		c := make(chan string, 3)
		c <- "x"
		c <- "y"
		n, m := len(c), cap(c)
		v, ok := <-c
		close(c)
		w, ok2 := <-c
		z, ok3 := <-c
		return fmt.Sprint(n, m, v, ok, w, ok2, z, ok3)
	},
	"pingpong": func() string {
		a, b := make(chan int), make(chan int)
		go func() {
			for v := range a {
				b <- v + 1
			}
			close(b)
		}()
		s := 0
		for i := 0; i < 5; i++ {
			a <- s
			s = <-b
		}
		close(a)
		_, open := <-b
		return fmt.Sprint(s, open)
	},
	"channel-methods": func() string {
		s := make(sem, 1)
		var wg sync.WaitGroup
		n := 0
		for i := 0; i < 5; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				s.acquire()
				defer s.release()
				n++
			}()
		}
		wg.Wait()
		ok := s.try()
		return fmt.Sprint(n, ok, s.try(), len(s), cap(s), sem(nil) == nil, s != nil)
	},
	"directed-channels": func() string {
		a, b := make(chan int, 2), make(chan int)
		out := make(chan int, 1)
		go func() { defer close(a); a <- 1; a <- 2; a <- 3 }()
		go func() { var w chan<- int = b; defer close(w); w <- 10; w <- 20 }()
		go merge(out, feed(a), feed(b))
		same := map[any]bool{a: true}
		var e chan error = make(chan error, 1)
		e <- context.Canceled
		var r <-chan error = e
		return fmt.Sprint(feed(out).sum(), same[a], same[b], (<-chan int)(a) == (<-chan int)(a), <-r, len(e))
	},
	"busy-pool": func() string { // many items in a pool, used by many goroutines
		p := sync.Pool{New: func() any { b := make([]string, 0, 4); return &b }}
		var wg sync.WaitGroup
		var bad atomic.Int32
		for i := 0; i < 12; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 4; k++ {
					x, y := p.Get().(*[]string), p.Get().(*[]string)
					*x = append((*x)[:0], fmt.Sprint(i, k))
					*y = append((*y)[:0], "y")
					runtime.Gosched()
					if len(*x) != 1 || (*x)[0] != fmt.Sprint(i, k) {
						bad.Add(1)
					}
					p.Put(y)
					p.Put(x)
				}
			}()
		}
		wg.Wait()
		return fmt.Sprint(bad.Load())
	},
	"busy-channel": func() string { // many producers and consumers of one buffered channel
		c := make(chan *[]int, 20)
		var wg, cons sync.WaitGroup
		var sum atomic.Int64
		for i := 0; i < 10; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 5; k++ {
					c <- &[]int{i, k}
				}
			}()
		}
		for i := 0; i < 4; i++ {
			cons.Add(1)
			go func() {
				defer cons.Done()
				for v := range c {
					sum.Add(int64((*v)[0]*10 + (*v)[1]))
					(*v)[0] = 0
				}
			}()
		}
		wg.Wait()
		close(c)
		cons.Wait()
		return fmt.Sprint(sum.Load())
	},
	"stopped-timer": func() string { // nothing stale to receive
		t := time.NewTimer(time.Millisecond)
		time.Sleep(20 * time.Millisecond)
		stopped := t.Stop()
		n := len(t.C)
		t.Reset(time.Millisecond)
		<-t.C
		select {
		case <-t.C:
			return "twice"
		default:
		}
		k := time.NewTicker(time.Millisecond)
		<-k.C
		k.Stop()
		g := runtime.NumGoroutine()
		x := time.NewTimer(time.Hour)
		defer x.Stop()
		_ = stopped
		return fmt.Sprint(n, runtime.NumGoroutine()-g)
	},
	"named-channel": func() string {
		s := make(sem, 2)
		var wg sync.WaitGroup
		var most, now atomic.Int32
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				s <- struct{}{}
				defer func() { <-s }()
				if n := now.Add(1); n > most.Load() {
					most.Store(n)
				}
				now.Add(-1)
			}()
		}
		wg.Wait()
		select {
		case s <- struct{}{}:
		default:
			return "full"
		}
		for range len(s) {
			<-s
		}
		return fmt.Sprint(most.Load() <= 2, now.Load(), len(s), cap(s))
	},
	"generic-channel": func() string {
		c := make(chan string, 1)
		go sends(c, "a", "b", "c")
		s := ""
		for v := range c {
			s += v
		}
		q := queue[int]{items: make(chan int, 4)}
		q.push(1)
		q.push(2)
		return s + fmt.Sprint(q.n, <-q.items, <-q.items)
	},
	"interface-channel": func() string {
		c := make(chan shape, 2)
		e := make(chan error, 2)
		c <- sq(3)
		c <- nil
		e <- nil
		e <- errors.New("bad")
		x, y := <-c, <-c
		return fmt.Sprint(x.area(), y == nil, <-e, <-e)
	},
	"nil-channel": func() string {
		var c chan int
		select {
		case <-c:
			return "received"
		case c <- 1:
			return "sent"
		default:
		}
		return fmt.Sprint(c == nil, len(c), cap(c))
	},
	"select-loop": func() string {
		a, b, quit := make(chan int), make(chan string), make(chan struct{})
		go func() {
			for i := 0; i < 3; i++ {
				a <- i
			}
			quit <- struct{}{}
		}()
		go func() {
			for _, s := range []string{"x", "y"} {
				b <- s
			}
			quit <- struct{}{}
		}()
		sum, str, left := 0, "", 2
	loop:
		for {
			select {
			case v := <-a:
				sum += v
			case s, ok := <-b:
				if ok {
					str += s
				}
				continue loop
			case <-quit:
				if left--; left == 0 {
					break loop
				}
			}
		}
		return fmt.Sprint(sum, str)
	},
	"select-send": func() string {
		out, in := make(chan int, 1), make(chan int, 1)
		var got []int
		for i := 0; i < 4; i++ {
			select {
			case out <- i:
			case v := <-in:
				got = append(got, v)
			default:
				in <- <-out
			}
		}
		return fmt.Sprint(len(got) <= 2)
	},
	"close-wakes-all": func() string {
		c := make(chan struct{})
		var wg sync.WaitGroup
		var n atomic.Int64
		for range 5 {
			wg.Add(1)
			go func() { defer wg.Done(); <-c; n.Add(1) }()
		}
		go close(c)
		wg.Wait()
		return fmt.Sprint(n.Load())
	},
	"send-on-closed": func() (out string) {
		defer func() { out = fmt.Sprint(recover()) }()
		c := make(chan int, 1)
		close(c)
		c <- 1
		return "sent"
	},
	"close-twice": func() (out string) {
		defer func() { out = fmt.Sprint(recover()) }()
		c := make(chan int, 1)
		close(c)
		close(c)
		return "closed"
	},
	"mutex": func() string {
		var mu sync.Mutex
		var wg sync.WaitGroup
		n := 0
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func(by int) {
				defer wg.Done()
				mu.Lock()
				defer mu.Unlock()
				n += by
			}(i)
		}
		wg.Wait()
		ok := mu.TryLock()
		return fmt.Sprint(n, ok, mu.TryLock())
	},
	"rwmutex": func() string {
		var mu sync.RWMutex
		m := map[int]int{}
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(2)
			go func() { defer wg.Done(); mu.Lock(); m[i] = i; mu.Unlock() }()
			go func() { defer wg.Done(); mu.RLock(); _ = m[i]; mu.RUnlock() }()
		}
		wg.Wait()
		l := mu.RLocker()
		l.Lock()
		r, w := mu.TryRLock(), mu.TryLock()
		l.Unlock()
		mu.RUnlock()
		w2 := mu.TryLock()
		return fmt.Sprint(len(m), r, w, w2)
	},
	"waitgroup-go": func() string {
		var wg sync.WaitGroup
		var n atomic.Int32
		for range 5 {
			wg.Go(func() { n.Add(1) })
		}
		wg.Wait()
		return fmt.Sprint(n.Load())
	},
	"once": func() string {
		var o sync.Once
		var wg sync.WaitGroup
		n, seen := 0, atomic.Int32{}
		for range 5 {
			wg.Add(1)
			go func() { defer wg.Done(); o.Do(func() { n++ }); seen.Add(int32(n)) }()
		}
		wg.Wait()
		f := sync.OnceValue(func() int { n++; return n })
		g := sync.OnceValues(func() (int, error) { n++; return n, nil })
		x, err := g()
		return fmt.Sprint(n, seen.Load(), f(), f(), x, err)
	},
	"once-panics": func() string {
		f := sync.OnceFunc(func() { panic("boom") })
		try := func() (p any) { defer func() { p = recover() }(); f(); return nil }
		return fmt.Sprint(try(), try())
	},
	"cond": func() string {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		ready, woken := false, 0
		var wg sync.WaitGroup
		for range 4 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mu.Lock()
				for !ready {
					c.Wait()
				}
				woken++
				mu.Unlock()
			}()
		}
		mu.Lock()
		ready = true
		c.Broadcast()
		mu.Unlock()
		wg.Wait()
		return fmt.Sprint(woken)
	},
	"pool": func() string {
		p := sync.Pool{New: func() any { return new(strings.Builder) }}
		s := ""
		for i := range 4 {
			b := p.Get().(*strings.Builder)
			b.Reset()
			fmt.Fprint(b, i)
			s += b.String()
			p.Put(b)
		}
		return s
	},
	"sync-map": func() string {
		var m sync.Map
		var wg sync.WaitGroup
		for i := range 5 {
			wg.Add(1)
			go func() { defer wg.Done(); m.LoadOrStore(i%3, i%3) }()
		}
		wg.Wait()
		n := 0
		m.Range(func(k, v any) bool { n += v.(int); return true })
		_, ok := m.LoadAndDelete(1)
		_, again := m.Load(1)
		sw := m.CompareAndSwap(2, 2, 7)
		v, _ := m.Load(2)
		return fmt.Sprint(n, ok, again, sw, v)
	},
	"atomics": func() string {
		var (
			i  int64
			u  atomic.Uint32
			bo atomic.Bool
			p  atomic.Pointer[string]
			v  atomic.Value
			wg sync.WaitGroup
		)
		for range 4 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					old := atomic.LoadInt64(&i)
					if atomic.CompareAndSwapInt64(&i, old, old+1) {
						break
					}
				}
				u.Add(2)
			}()
		}
		wg.Wait()
		s := "s"
		p.Store(&s)
		v.Store(3)
		return fmt.Sprint(atomic.AddInt64(&i, 1), u.Load(), bo.Swap(true), bo.Load(), *p.Load(), v.Load())
	},
	"go-arguments": func() string {
		c := make(chan string, 4)
		say := func(vs ...any) { c <- fmt.Sprint(vs...) }
		x := 1
		go say(x, "one", nil)
		x = 2
		args := []any{x, x}
		go say(args...)
		x = 3
		var st stater
		st.n = 4
		go st.tell(c)
		st.n = 5
		go sends2(c, "f")
		l := []string{<-c, <-c, <-c, <-c}
		sort.Strings(l)
		return strings.Join(l, ",")
	},
	"maps": func() string {
		m := map[string]int{"x": 1, "y": 2, "z": 3}
		n := 0
		for k, v := range m {
			if k == "y" {
				delete(m, k)
				continue
			}
			n += v
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		keys := slices.Sorted(maps.Keys(m))
		vals := slices.Sorted(maps.Values(m))
		cl := maps.Clone(m)
		maps.DeleteFunc(cl, func(k string, _ int) bool { return k == "x" })
		c := 0
		for range m {
			c++
		}
		clear(m)
		return fmt.Sprint(n, ks, keys, vals, cl, c, len(m))
	},
	"map-delete-while-ranging": func() string {
		m := map[int]bool{}
		for i := range 20 {
			m[i] = true
		}
		seen := 0
		for k := range m {
			for j := range 20 {
				if j != k {
					delete(m, j)
				}
			}
			seen++
		}
		return fmt.Sprint(seen)
	},
	"range-return": func() string {
		f := func(m map[int]int) (out int, err error) {
			defer func() { out++ }()
			for k, v := range m {
				if v == 2 {
					return k, nil
				}
			}
			return 0, errors.New("none")
		}
		x, err := f(map[int]int{1: 1, 5: 2, 7: 3})
		_, err2 := f(nil)
		return fmt.Sprint(x, err, err2)
	},
	"context": func() string {
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), "k", "v"))
		done := make(chan error)
		go func() { <-ctx.Done(); done <- ctx.Err() }()
		cancel()
		err := <-done
		tctx, c2 := context.WithTimeout(ctx, time.Hour)
		defer c2()
		dctx, c3 := context.WithTimeout(context.Background(), 20*time.Millisecond)
		defer c3()
		<-dctx.Done()
		cause, c4 := context.WithCancelCause(context.Background())
		c4(errors.New("why"))
		return fmt.Sprint(err, tctx.Err(), ctx.Value("k"), dctx.Err(), context.Cause(cause), errors.Is(err, context.Canceled))
	},
	"timers": func() string {
		t0 := time.Now()
		time.Sleep(5 * time.Millisecond)
		el := time.Since(t0) >= 5*time.Millisecond
		fired := make(chan int, 1)
		time.AfterFunc(time.Millisecond, func() { fired <- 1 })
		stopped := time.AfterFunc(time.Hour, func() { fired <- 2 }).Stop()
		tm := time.NewTimer(2 * time.Millisecond)
		defer tm.Stop()
		var got string
		select {
		case <-tm.C:
			got = "timer"
		case <-time.After(time.Hour):
			got = "after"
		}
		tk := time.NewTicker(time.Millisecond)
		<-tk.C
		<-tk.C
		tk.Stop()
		return fmt.Sprint(el, <-fired, stopped, got)
	},
	"random": func() string {
		r := mrand.New(mrand.NewSource(7))
		p := mrand.Perm(4)
		sort.Ints(p)
		var k [4]byte
		n, err := rand.Read(k[:])
		h := maphash.String(seedling, "x") == maphash.String(seedling, "x")
		var hs maphash.Hash
		hs.SetSeed(seedling)
		hs.WriteString("x")
		return fmt.Sprint(r.Intn(1000), p, n, err, h, hs.Sum64() == maphash.String(seedling, "x"))
	},
	"panic-in-goroutine-recovered": func() string {
		c := make(chan any, 1)
		go func() {
			defer func() { c <- recover() }()
			var m map[string]int
			m["x"] = 1
		}()
		return fmt.Sprint(<-c)
	},
	"goexit": func() string {
		c := make(chan string, 1)
		go func() {
			defer func() { c <- "deferred" }()
			runtime.Goexit()
		}()
		return <-c
	},
	"iterators": func() string {
		seq := func(yield func(int) bool) {
			for i := 0; i < 5; i++ {
				if !yield(i) {
					return
				}
			}
		}
		s := 0
	outer:
		for v := range seq {
			switch {
			case v == 1:
				continue outer
			case v == 4:
				break outer
			}
			s += v
		}
		var l []int
		for v := range slices.Values([]int{3, 4}) {
			l = append(l, v)
		}
		return fmt.Sprint(s, l)
	},
	"statements": func() string {
		s := ""
		if c := make(chan int, 1); cap(c) == 1 {
			c <- 4
			if v, ok := <-c; ok {
				s += fmt.Sprint(v)
			}
		}
		switch x := any(s).(type) {
		case string:
			s = x + "!"
		case int:
			goto end
		}
		for i, c := 0, make(chan int, 3); i < 3; i++ {
			c <- i
			s += fmt.Sprint(<-c, len(c))
		}
		func() {
			defer func(c chan int) { close(c) }(make(chan int))
		}()
	end:
		var arr [2]chan int
		arr[0] = make(chan int, 1)
		arr[0] <- 1
		type box struct{ c <-chan int }
		bx := box{arr[0]}
		var ro <-chan int = bx.c
		var so chan<- int = arr[0]
		s += fmt.Sprint(<-ro)
		so <- 2
		return s + fmt.Sprint(<-arr[0], arr[1] == nil)
	},
	"pipeline": func() string {
		stage := func(in <-chan int, f func(int) int) <-chan int {
			out := make(chan int)
			go func() {
				defer close(out)
				for v := range in {
					out <- f(v)
				}
			}()
			return out
		}
		src := make(chan int)
		go func() {
			defer close(src)
			for i := range 5 {
				src <- i
			}
		}()
		var l []int
		for v := range stage(stage(src, func(x int) int { return x + 1 }), func(x int) int { return x * x }) {
			l = append(l, v)
		}
		return fmt.Sprint(l)
	},
	"worker-pool": func() string {
		jobs, res := make(chan int, 3), make(chan int)
		var wg sync.WaitGroup
		for w := 0; w < min(workers, 4); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range jobs {
					res <- j * 2
				}
			}()
		}
		go func() {
			for i := range 10 {
				jobs <- i
			}
			close(jobs)
			wg.Wait()
			close(res)
		}()
		s := 0
		for r := range res {
			s += r
		}
		return fmt.Sprint(s)
	},
}

type stater struct{ n int }

func (s stater) tell(c chan string) { c <- fmt.Sprint("st", s.n) }

func sends2[T any](c chan T, v T) { c <- v }

// Varied has outcomes that depend on the schedule: some must occur, others never.
var Varied = map[string]func() string{
	"lost-update": func() string { // atomics, not a lock: 1 and 2 can happen
		var n atomic.Int32
		var wg sync.WaitGroup
		for range 2 {
			wg.Add(1)
			go func() { defer wg.Done(); n.Store(n.Load() + 1) }()
		}
		wg.Wait()
		return fmt.Sprint(n.Load())
	},
	"select-choice": func() string {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 1
		select {
		case <-a:
			return "a"
		case <-b:
			return "b"
		}
	},
	"map-order": func() string {
		for k := range map[string]int{"x": 1, "y": 2, "z": 3} {
			return k
		}
		return ""
	},
	"timeout-or-answer": func() string {
		c := make(chan int)
		go func() { time.Sleep(time.Millisecond); c <- 1 }()
		select {
		case <-c:
			return "answer"
		case <-time.After(time.Millisecond):
			return "timeout"
		}
	},
	"writer-preference": func() string { // a waiting writer keeps a second reader out: deadlock or not
		var mu sync.RWMutex
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); mu.RLock(); mu.RLock(); mu.RUnlock(); mu.RUnlock() }()
		go func() { defer wg.Done(); mu.Lock(); mu.Unlock() }()
		wg.Wait()
		return "done"
	},
	"lock-order": func() string {
		var x, y sync.Mutex
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); x.Lock(); y.Lock(); y.Unlock(); x.Unlock() }()
		go func() { defer wg.Done(); y.Lock(); x.Lock(); x.Unlock(); y.Unlock() }()
		wg.Wait()
		return "done"
	},
	"crash": func() string {
		var n atomic.Int32
		c := make(chan int, 2)
		for range 2 {
			go func() {
				if v := n.Load(); v == 1 {
					panic("second")
				}
				n.Add(1)
				c <- 1
			}()
		}
		<-c
		<-c
		return "done"
	},
	"double-unlock": func() string {
		var mu sync.Mutex
		mu.Lock()
		mu.Unlock()
		mu.Unlock()
		return "done"
	},
	"spin-forever": func() string {
		var stop atomic.Bool
		for !stop.Load() {
		}
		return "done"
	},
}
