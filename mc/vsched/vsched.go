// Package vsched is a cooperative scheduler for exploring interleavings of code whose statements call P, with replacements for package sync that block in the scheduler.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
)

// Seg is a piece of a schedule: run the task until it is about to execute its Stop-th point, or until it ends or blocks when Stop is negative.
type Seg struct {
	Task, Stop int
}

// Result of a schedule.
type Result struct {
	Panic    []string // per task, empty when it did not
	Stack    []string
	Steps    []int // points passed per task
	Switches int
	Deadlock []int // tasks that wait for each other
	Hang     bool
}

type task struct {
	fn    func()
	ch    chan bool
	steps int
	stop  int
	done  bool
	wait  func() bool
	panic string
	stack string
}

type sched struct {
	tasks []*task
	back  chan bool
	hook  func(task, step int)
	cur   *task
	idx   int
	total int
	limit int
	spin  int
}

// only one schedule runs at a time and only one of its tasks
var run *sched

type stopped struct{}

// P is a point where the running task can be preempted.
func P() {
	s := run
	if s == nil {
		return
	}
	t := s.cur
	t.steps++
	s.total++
	if s.hook != nil {
		s.hook(s.idx, t.steps)
	}
	if t.steps == t.stop {
		s.yield(t)
		return
	}
	if s.spin++; s.limit < s.spin {
		s.yield(t)
	}
}

func (s *sched) yield(t *task) {
	s.back <- true
	if !<-t.ch {
		panic(stopped{})
	}
}

func block(cond func() bool) {
	s := run
	for !cond() {
		if s == nil {
			panic("vsched: blocked for ever")
		}
		t := s.cur
		t.wait = cond
		s.yield(t)
		t.wait = nil
	}
}

// Go starts a task of the running schedule.
func Go(fn func()) {
	s := run
	if s == nil {
		panic("vsched: goroutine outside of a schedule")
	}
	s.start(fn)
	P()
}

func (s *sched) start(fn func()) {
	t := &task{fn: fn, ch: make(chan bool)}
	s.tasks = append(s.tasks, t)
	go func() {
		if !<-t.ch {
			t.done = true
			s.back <- true
			return
		}
		ok := false
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(stopped); !is {
					t.panic, t.stack = fmt.Sprint(r), string(debug.Stack())
				}
			} else if !ok {
				t.panic = "runtime.Goexit"
			}
			t.done = true
			s.back <- true
		}()
		t.fn()
		ok = true
	}()
}

// Run executes the functions as tasks under the given schedule; after it, tasks run one after another to their ends. The hook is called at every point.
// limit is the number of points a task may pass before another one gets its turn.
func Run(fns []func(), segs []Seg, limit int, hook func(task, step int)) *Result {
	s := &sched{back: make(chan bool), hook: hook, limit: limit}
	for _, fn := range fns {
		s.start(fn)
	}
	run = s
	res := &Result{}
	last := -1
	pick := func(i, stop int) {
		t := s.tasks[i]
		if last != i {
			res.Switches++
			last = i
		}
		s.cur, s.idx, t.stop, s.spin = t, i, stop, 0
		t.ch <- true
		<-s.back
	}
	ready := func(i int) bool {
		t := s.tasks[i]
		return !t.done && (t.wait == nil || t.wait())
	}
	for _, g := range segs {
		for g.Task < len(s.tasks) && ready(g.Task) && (g.Stop < 0 || s.tasks[g.Task].steps < g.Stop) && s.spin <= s.limit {
			pick(g.Task, g.Stop)
		}
		s.spin = 0
	}
	for {
		n, left := 0, 0
		for i := 0; i < len(s.tasks); i++ {
			for ready(i) {
				n++
				pick(i, -1)
				if s.limit < s.spin {
					break
				}
			}
			if !s.tasks[i].done {
				left++
			}
		}
		if left == 0 {
			break
		}
		if n == 0 {
			for i, t := range s.tasks {
				if !t.done {
					res.Deadlock = append(res.Deadlock, i)
				}
			}
			break
		}
		if 40*s.limit < s.total {
			res.Hang = true
			break
		}
	}
	for i, t := range s.tasks {
		if !t.done {
			s.cur, s.idx = t, i
			s.hook = nil
			// unwind
			for !t.done {
				t.ch <- false
				<-s.back
			}
		}
	}
	run = nil
	for _, t := range s.tasks {
		res.Panic = append(res.Panic, t.panic)
		res.Stack = append(res.Stack, t.stack)
		res.Steps = append(res.Steps, t.steps)
	}
	return res
}

// Locker is sync.Locker.
type Locker = sync.Locker

// Map is sync.Map; its methods are atomic.
type Map = sync.Map

// Once is like sync.Once.
type Once struct {
	done, running bool
}

// Do is like sync.Once.Do.
func (o *Once) Do(f func()) {
	P()
	if o.done {
		return
	}
	if o.running {
		block(func() bool { return !o.running })
		return
	}
	o.running = true
	defer func() { o.done, o.running = true, false }()
	f()
	P()
}

// OnceFunc is like sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() bool { f(); return true })
	return func() { g() }
}

// OnceValue is like sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, bool) { return f(), true })
	return func() T { v, _ := g(); return v }
}

// OnceValues is like sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var t T
	var u U
	var p any
	ok := false
	return func() (T, U) {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
				}
			}()
			t, u = f()
			ok = true
		})
		if !ok {
			panic(p)
		}
		return t, u
	}
}

// Mutex is like sync.Mutex.
type Mutex struct {
	locked bool
}

func (m *Mutex) Lock() {
	P()
	block(func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	P()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	P()
}

// RWMutex is like sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	writer           bool
	readers, waiting int
}

func (m *RWMutex) Lock() {
	P()
	m.waiting++
	block(func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	P()
	if m.writer || 0 < m.readers {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	P()
}

func (m *RWMutex) RLock() {
	P()
	block(func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	P()
	if m.writer || 0 < m.waiting {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	P()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is like sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is like sync.WaitGroup.
type WaitGroup struct {
	n int
}

func (w *WaitGroup) Add(d int) {
	P()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	P()
	block(func() bool { return w.n == 0 })
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is like sync.Cond.
type Cond struct {
	L    Locker
	tail []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	b := new(bool)
	c.tail = append(c.tail, b)
	c.L.Unlock()
	block(func() bool { return *b })
	c.L.Lock()
}

func (c *Cond) Signal() {
	P()
	if 0 < len(c.tail) {
		*c.tail[0] = true
		c.tail = c.tail[1:]
	}
}

func (c *Cond) Broadcast() {
	P()
	for _, b := range c.tail {
		*b = true
	}
	c.tail = nil
}

// Pool is like sync.Pool; what was put last is taken first.
type Pool struct {
	New  func() any
	free []any
}

func (p *Pool) Get() any {
	P()
	if n := len(p.free); 0 < n {
		v := p.free[n-1]
		p.free = p.free[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	P()
	if v != nil {
		p.free = append(p.free, v)
	}
}

// Sequential reads and writes of the unscheduled kind for the race pass: they order goroutines in time without the race detector seeing it.

//go:norace
func Await(p *int32, v int32) {
	for *p != v {
		runtime.Gosched()
	}
}

//go:norace
func Set(p *int32, v int32) { *p = v }
