// Package vsched is a controlled scheduler. The instrumented copy of the repository calls
// P before every statement and uses vsync in place of sync, so that while Run is active
// exactly one registered goroutine runs at a time and every switch is a recorded decision.
package vsched

import (
	"runtime"
	"time"
)

func getg() uintptr

// Decider makes the scheduling decisions (explore.C implements it).
type Decider interface {
	Choose(n int) int
	Dev(n int) int
	Budget() int
}

const (
	ready = iota
	blocked
	done
)

type thread struct {
	id    int
	g     uintptr
	wake  chan struct{}
	state int
	on    interface{}
}

var (
	active  bool
	dec     Decider
	threads []*thread
	cur     *thread
	mainCh  chan struct{}
	dead    bool

	// Points counts scheduling points passed, Switches the context switches made.
	Points, Switches int64
	// Epoch changes with every execution; pools drop what they held in an earlier one.
	Epoch int64
	// PoolDev, if set, decides which recycled object (1..n) or a fresh one (n+1) a pool
	// hands out; 0 is the most recently returned one.
	PoolDev func(n int) int
	// Trace, if set, is told about context switches.
	Trace func(from, to, point int)

	// Visited marks the instrumented statements that were executed.
	Visited [1 << 16]bool
)

// Reset starts a new execution.
func Reset() {
	Epoch++
	PoolDev = nil
	Trace = nil
}

// P is a scheduling point before statement id.
func P(id int) {
	Visited[id&0xffff] = true
	if !active {
		return
	}
	point(id)
}

func self() *thread {
	if !active {
		return nil
	}
	g := getg()
	if cur != nil && cur.g == g {
		return cur
	}
	return nil
}

func point(id int) {
	t := self()
	if t == nil {
		return
	}
	Points++
	if dec.Budget() <= 0 {
		return
	}
	n := 1
	for _, o := range threads {
		if o != t && o.state == ready {
			n++
		}
	}
	k := dec.Dev(n)
	if k == 0 {
		return
	}
	for _, o := range threads {
		if o != t && o.state == ready {
			k--
			if k == 0 {
				if Trace != nil {
					Trace(t.id, o.id, id)
				}
				switchTo(t, o)
				return
			}
		}
	}
}

func switchTo(t, o *thread) {
	Switches++
	cur = o
	o.wake <- struct{}{}
	<-t.wake
}

func readyList(t *thread) []*thread {
	var l []*thread
	for _, o := range threads {
		if o != t && o.state == ready {
			l = append(l, o)
		}
	}
	return l
}

// Active tells whether the calling goroutine is scheduled by Run.
func Active() bool { return self() != nil }

// Block suspends the calling thread until Wake is called for the same object.
// It returns false if the caller is not a scheduled thread.
func Block(on interface{}) bool {
	t := self()
	if t == nil {
		return false
	}
	t.state, t.on = blocked, on
	l := readyList(t)
	if len(l) == 0 {
		// somebody outside the scheduler may still wake us
		for i := 0; i < 2000 && t.state == blocked; i++ {
			time.Sleep(time.Millisecond)
		}
		if t.state != blocked {
			return true
		}
		dead = true
		mainCh <- struct{}{}
		select {} // the goroutine is abandoned
	}
	o := l[dec.Choose(len(l))]
	if Trace != nil {
		Trace(t.id, o.id, -1)
	}
	switchTo(t, o)
	return true
}

// Wake makes the threads blocked on the object ready (they re-check their condition).
func Wake(on interface{}) {
	if !active {
		return
	}
	for _, o := range threads {
		if o.state == blocked && o.on == on {
			o.state, o.on = ready, nil
		}
	}
}

// Yield is a voluntary scheduling point (used by the harness).
func Yield() {
	if active {
		point(-2)
	}
}

// Run executes the bodies as threads under the decider until all have finished.
// It reports whether they deadlocked.
func Run(d Decider, bodies ...func()) (deadlock bool) {
	dec, dead = d, false
	mainCh = make(chan struct{}, 1)
	threads = nil
	for i := range bodies {
		threads = append(threads, &thread{id: i, wake: make(chan struct{})})
	}
	for i := range bodies {
		t, f := threads[i], bodies[i]
		reg := make(chan struct{})
		go func() {
			t.g = getg()
			close(reg)
			<-t.wake
			f()
			t.state = done
			l := readyList(t)
			if len(l) == 0 {
				for _, o := range threads {
					if o.state == blocked {
						dead = true
					}
				}
				mainCh <- struct{}{}
				return
			}
			o := l[dec.Choose(len(l))]
			cur = o
			Switches++
			o.wake <- struct{}{}
		}()
		<-reg
	}
	first := threads[d.Choose(len(threads))]
	cur = first
	active = true
	first.wake <- struct{}{}
	<-mainCh
	active = false
	cur = nil
	return dead
}

// Settle lets abandoned goroutines run (used after a deadlock).
func Settle() { runtime.Gosched() }
