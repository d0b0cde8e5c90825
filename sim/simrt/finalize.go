package simrt

import (
	"reflect"
	"runtime"
	"sync"
	"time"
)

// Finalizers that the collector has called for: they run when the simulation says so,
// not when the collector does.
var pending struct {
	mu  sync.Mutex
	any bool
	run []finalizer
}

type finalizer struct {
	s *Sim
	f func()
}

func enqueue(s *Sim, f func()) {
	pending.mu.Lock()
	if s != nil && s == S {
		pending.run = append(pending.run, finalizer{s, f})
	}
	pending.mu.Unlock()
}

func SetFinalizer(obj, f any) {
	s := S
	if f == nil || s == nil {
		runtime.SetFinalizer(obj, f)
		return
	}
	pending.any = true
	runtime.SetFinalizer(obj, func(x any) {
		enqueue(s, func() { reflect.ValueOf(f).Call([]reflect.Value{reflect.ValueOf(x)}) })
	})
}

// Finalize runs, in a goroutine of their own, the finalizers that have come due.
func Finalize() {
	if !pending.any {
		return
	}
	runtime.GC()
	time.Sleep(2 * time.Millisecond) // the collector calls for them a little later
	pending.mu.Lock()
	due := pending.run
	pending.run = nil
	pending.mu.Unlock()
	for _, d := range due {
		if d.s == S {
			Join([]*Task{GoClient("finalizer", d.f)})
		}
	}
}
