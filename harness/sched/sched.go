// Package sched runs tasks one at a time, under a schedule that says where
// each one gives way. The sources under test are instrumented with a call of
// Point before each statement.
package sched

import (
	"sync/atomic"
	"time"
	"unsafe"
)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

// Task is one of the concurrent computations. Goroutines that a task starts
// belong to it.
type Task struct {
	n, stop int64
	resume  chan struct{}
	running bool
	done    bool
	ev      chan *Task
	record  *[]int32
	Panic   interface{}
	f       func()
}

const never = -1

// Point is where a task can be made to give way.
func Point(id int32) {
	p := getLabel()
	if p == nil {
		return
	}
	t := (*Task)(p)
	n := atomic.AddInt64(&t.n, 1)
	if t.record != nil {
		*t.record = append(*t.record, id)
	}
	if n == atomic.LoadInt64(&t.stop) {
		t.ev <- t
		<-t.resume
	}
}

// Seg lets task T run until its point number To, or to its end if To is 0.
type Seg struct{ T, To int }

// Run carries out a schedule, and then lets the tasks end in order. A task
// that does not move within patience (because it waits for another one)
// loses its turn. It returns how many points each task passed, and how many
// turns were lost.
func Run(plan []Seg, patience time.Duration, fs ...func()) (tasks []*Task, lost int) {
	ev := make(chan *Task, 4*len(fs)+16)
	for _, f := range fs {
		t := &Task{stop: never, resume: make(chan struct{}, 1), ev: ev, f: f}
		tasks = append(tasks, t)
		go func() {
			setLabel(unsafe.Pointer(t))
			<-t.resume
			defer func() {
				t.Panic = recover()
				t.done = true
				ev <- t
			}()
			t.f()
		}()
	}
	timer := time.NewTimer(time.Hour)
	defer timer.Stop()
	// wait until t gives way or ends
	wait := func(t *Task, d time.Duration) bool {
		timer.Reset(d)
		for {
			select {
			case x := <-ev:
				x.running = false
				if x == t {
					return true
				}
			case <-timer.C:
				return false
			}
		}
	}
	turn := func(t *Task, to int, d time.Duration) {
		for {
			// what was sent while it was running on
			select {
			case x := <-ev:
				x.running = false
				continue
			default:
			}
			break
		}
		if t.isDone() {
			return
		}
		if to == 0 {
			atomic.StoreInt64(&t.stop, never)
		} else {
			if int64(to) <= atomic.LoadInt64(&t.n) {
				return
			}
			atomic.StoreInt64(&t.stop, int64(to))
		}
		if !t.running {
			t.running = true
			t.resume <- struct{}{}
		}
		if !wait(t, d) {
			lost++
		}
	}
	for _, s := range plan {
		turn(tasks[s.T], s.To, patience)
	}
	for {
		all := true
		for _, t := range tasks {
			if !t.isDone() {
				all = false
				turn(t, 0, patience)
			}
		}
		if all {
			return tasks, lost
		}
	}
}

// isDone is only asked when the task is known not to run, or after its event
func (t *Task) isDone() bool { return !t.running && t.done }

// Points tells which points f passes when it runs alone.
func Points(f func()) []int32 {
	var rec []int32
	done := make(chan struct{})
	t := &Task{stop: never, record: &rec}
	go func() {
		defer close(done)
		defer func() { recover() }()
		setLabel(unsafe.Pointer(t))
		f()
	}()
	<-done
	return rec
}
