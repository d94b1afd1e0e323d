package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"

	"github.com/ricochet1k/termemu"
)

// The kernel runs tasks (real goroutines) one at a time. Control moves from
// one to another only at yield points, where the scheduling policy decides.

type yieldKind uint8

const (
	yLock yieldKind = iota
	yUnlock
	yRead
	yWrite
	yCallback
	yOp
	yOther
)

type Task struct {
	id      int
	name    string
	wake    chan struct{}
	started bool
	done    bool
	lock    *termemu.VerifLock // waiting for it
	cond    int                // >0: waiting until the backend delivered so many bytes (op tasks)
	isOp    bool
	until   func() bool // waiting for this
	prio    int
	opIdx   int
	writes  int // backend writes made by the current message
	held    int
	f       func()
	g       uintptr // its goroutine
	goid    int64
	adopted bool // started by the code under test
	ext     bool // waiting for something the kernel does not know
}

type lockState struct {
	mu    sync.Mutex
	owner *Task
}

// Sched describes a scheduling policy. Deviations are decisions that differ
// from the default policy, by decision index; they alone determine a replay.
type Sched struct {
	Kind    string   `json:"kind"` // "default", "random", "pct", "replay"
	Seed    uint64   `json:"seed,omitempty"`
	Switch  int      `json:"switch,omitempty"` // percent of yields that switch, for random
	Depth   int      `json:"depth,omitempty"`  // priority change points, for pct
	CbYield int      `json:"cb,omitempty"`     // percent of callbacks that yield
	Devs    [][2]int `json:"devs,omitempty"`   // decision index, task id
}

type abortT struct{}

type Kernel struct {
	tasks    []*Task
	cur      *Task
	rng      *Rng
	cbRng    *Rng
	sched    Sched
	devs     map[int]int
	decision int
	steps    int
	maxSteps int
	changeAt []int
	lowPrio  int

	noYield int // >0: no scheduling (set-up, nested terminals)
	inline  func(f func())
	aborted bool
	ended   bool
	finish  chan struct{}
	main    *Task
	viol    *Viol
	trace   uint64
	outDevs [][2]int

	ready func(t *Task) bool // condition of a waiting op task
	// hooks of the world
	onLocked func(t *Task, l *termemu.VerifLock)
	onUnlock func(t *Task, l *termemu.VerifLock)

	switches    int
	raceMode    bool
	nExt        int
	monitorCall bool
	leaving     int
	base, live  int // goroutines: before the run, of the run
	cand        [maxTasks]*Task
}

func NewKernel(s Sched, raceMode bool) *Kernel {
	k := &Kernel{sched: s, rng: NewRng(s.Seed), cbRng: NewRng(s.Seed ^ 0x5bd1e995), finish: make(chan struct{}, 1),
		maxSteps: 4000000, raceMode: raceMode, trace: 14695981039346656037}
	k.tasks = make([]*Task, 0, maxTasks)
	k.outDevs = make([][2]int, 0, 64)
	if s.Kind == "replay" {
		k.devs = make(map[int]int, len(s.Devs))
		for _, d := range s.Devs {
			k.devs[d[0]] = d[1]
		}
	}
	if s.Kind == "pct" {
		for i := 0; i < s.Depth; i++ {
			k.changeAt = append(k.changeAt, k.rng.N(120))
		}
	}
	return k
}

func (k *Kernel) fail(cat, format string, a ...any) {
	if k.viol == nil {
		k.viol = &Viol{Cat: cat, Msg: fmt.Sprintf(format, a...), Step: k.steps}
	}
}

// newTask registers a task; it runs when it is first scheduled.
func (k *Kernel) newTask(name string, f func()) *Task {
	t := &Task{id: len(k.tasks), name: name, wake: make(chan struct{}, 1), f: f}
	t.prio = 1000 + k.rng.N(1000)
	k.tasks = append(k.tasks, t)
	k.live++
	go k.taskMain(t)
	return t
}

func (k *Kernel) taskMain(t *Task) {
	raceOff()
	<-t.wake
	raceOn()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortT); !ok && !k.aborted {
				st := debug.Stack()
				cat := "panic"
				if ownPanic(string(st)) {
					cat = "harness"
				}
				k.fail(cat, "task %s: panic: %v\n%s", t.name, r, trimStack(st))
			}
		}
		if t.done { // given up on
			unleak(t.g)
			return
		}
		t.done = true
		k.live--
		raceEnd()
		if k.cur != t {
			k.free(t)
			return
		}
		k.leave(t)
	}()
	t.g = getg()
	if !k.aborted {
		t.f()
	}
}

// leave is called by a task that ended.
func (k *Kernel) leave(t *Task) {
	if k.viol != nil && !k.aborted {
		k.aborted = true
	}
	if k.aborted {
		k.unwind()
		return
	}
	k.leaving = 1
	next := k.pick(nil, yOther)
	k.leaving = 0
	if next == nil {
		if !k.allDone() {
			k.deadlock()
			k.aborted = true
			k.unwind()
			return
		}
		k.end()
		return
	}
	k.cur = next
	raceOff()
	next.wake <- struct{}{}
	raceOn()
}

func (k *Kernel) end() {
	if !k.ended {
		k.ended = true
		raceOff()
		k.finish <- struct{}{}
		raceOn()
	}
}

// unwind wakes the next unfinished task so that it panics out of whatever it
// was doing.
func (k *Kernel) unwind() {
	for _, t := range k.tasks {
		if t.done {
			continue
		}
		if t.ext {
			k.leak(t)
			continue
		}
		k.cur = t
		raceOff()
		t.wake <- struct{}{}
		raceOn()
		return
	}
	k.end()
}

func (k *Kernel) allDone() bool {
	for _, t := range k.tasks {
		if !t.done && !(t.adopted && t.ext) { // a helper may wait for work for ever
			return false
		}
	}
	return true
}

func (k *Kernel) deadlock() {
	msg := "no task can run:"
	for _, t := range k.tasks {
		if t.done {
			continue
		}
		if t.lock != nil {
			owner := "nobody"
			if ls, _ := t.lock.Data.(*lockState); ls != nil && ls.owner != nil {
				owner = ls.owner.name
			}
			msg += fmt.Sprintf(" [%s waits for a lock held by %s]", t.name, owner)
		} else if t.ext {
			msg += fmt.Sprintf(" [%s waits for another goroutine]", t.name)
		} else if t.until != nil {
			msg += fmt.Sprintf(" [%s waits for input, which comes after what was called meanwhile]", t.name)
		} else {
			msg += fmt.Sprintf(" [%s waits for input position %d]", t.name, t.cond)
		}
	}
	k.fail("deadlock", "%s", msg)
}

func (k *Kernel) runnable(t *Task) bool {
	if t.done || t.ext {
		return false
	}
	if t.lock != nil {
		ls := k.lockOf(t.lock)
		return ls.owner == nil
	}
	if t.until != nil {
		return t.until()
	}
	if t.cond > 0 {
		return k.ready(t)
	}
	return true
}

// pick chooses the next task. cur is nil if the current one cannot go on.
func (k *Kernel) pick(cur *Task, kind yieldKind) *Task {
	if (k.nExt > 0 || runtime.NumGoroutine() > k.base+k.live+k.leaving) && !k.monitorCall {
		k.settle()
	}
	cand := &k.cand
	n := 0
	for _, t := range k.tasks {
		if k.runnable(t) {
			cand[n] = t
			n++
		}
	}
	if n == 0 {
		return nil
	}
	def := k.defaultChoice(cur, kind, cand[:n])
	if n == 1 {
		return cand[0]
	}
	choice := def
	idx := k.decision
	k.decision++
	switch k.sched.Kind {
	case "random":
		if cur == nil || k.rng.Pct(k.sched.Switch) {
			choice = cand[k.rng.N(n)]
		} else {
			choice = cur
		}
	case "pct":
		for _, c := range k.changeAt {
			if c == idx && cur != nil {
				k.lowPrio--
				cur.prio = k.lowPrio
			}
		}
		choice = cand[0]
		for _, t := range cand[:n] {
			if t.prio > choice.prio {
				choice = t
			}
		}
	case "replay":
		if id, ok := k.devs[idx]; ok {
			for _, t := range cand[:n] {
				if t.id == id {
					choice = t
				}
			}
		}
	}
	if choice != def && !k.raceMode && len(k.outDevs) < 20000 {
		k.outDevs = append(k.outDevs, [2]int{idx, choice.id})
	}
	k.trace = hashU(k.trace, uint64(choice.id)<<8|uint64(kind))
	return choice
}

// defaultChoice stays with the current task, except that at a backend read
// waiting operations go first.
func (k *Kernel) defaultChoice(cur *Task, kind yieldKind, cand []*Task) *Task {
	if kind == yRead || cur == nil {
		for _, t := range cand {
			if t.isOp && t != cur {
				return t
			}
		}
	}
	if cur != nil {
		return cur
	}
	return cand[0]
}

// yield gives other tasks a chance to run.
func (k *Kernel) yield(kind yieldKind) {
	if k.noYield > 0 || k.aborted {
		return
	}
	t := k.cur
	k.steps++
	if k.viol != nil {
		k.aborted = true
		k.bail()
	}
	if k.steps > k.maxSteps {
		k.fail("hang", "no end after %d scheduling steps", k.steps)
		k.aborted = true
		k.bail()
	}
	next := k.pick(t, kind)
	if next == t {
		return
	}
	k.switchTo(t, next)
}

// block is called when t cannot go on (its lock or cond field says why).
func (k *Kernel) block(t *Task) {
	k.steps++
	next := k.pick(nil, yOther)
	if next == nil {
		k.deadlock()
		k.aborted = true
		k.bail()
	}
	if next == t {
		return
	}
	k.switchTo(t, next)
}

func (k *Kernel) switchTo(t, next *Task) {
	k.switches++
	k.cur = next
	raceOff()
	next.wake <- struct{}{}
	<-t.wake
	raceOn()
	if k.aborted {
		k.bail()
	}
}

func (k *Kernel) lockOf(l *termemu.VerifLock) *lockState {
	ls, _ := l.Data.(*lockState)
	if ls == nil {
		ls = &lockState{}
		l.Data = ls
	}
	return ls
}

// guard makes a goroutine that does not have control wait until it is scheduled.
func (k *Kernel) guard(what string) {
	if k.cur != nil && k.cur.g == getg() && !k.ended {
		return
	}
	k.rejoin(getg())
}

// Lock, TryLock, Unlock and Spawn implement termemu.VerifSched.
func (k *Kernel) Lock(l *termemu.VerifLock) {
	k.guard("Lock")
	if k.aborted {
		return
	}
	k.yield(yLock)
	ls := k.lockOf(l)
	t := k.cur
	if ls.owner == t {
		k.fail("deadlock", "task %s locks a lock it already holds", t.name)
		k.aborted = true
		k.bail()
	}
	for ls.owner != nil {
		if k.noYield > 0 {
			panic("lock held during set-up")
		}
		t.lock = l
		k.block(t)
		t.lock = nil
	}
	ls.owner = t
	t.held++
	ls.mu.Lock() // uncontended; tells the race detector
	if k.onLocked != nil && k.noYield == 0 {
		k.onLocked(t, l)
	}
}

func (k *Kernel) TryLock(l *termemu.VerifLock) bool {
	k.guard("TryLock")
	if k.aborted {
		return true
	}
	k.yield(yLock)
	ls := k.lockOf(l)
	if ls.owner != nil {
		return false
	}
	ls.owner = k.cur
	k.cur.held++
	ls.mu.Lock()
	if k.onLocked != nil && k.noYield == 0 {
		k.onLocked(k.cur, l)
	}
	return true
}

func (k *Kernel) Unlock(l *termemu.VerifLock) {
	k.guard("Unlock")
	if k.aborted {
		return
	}
	ls := k.lockOf(l)
	if ls.owner != k.cur {
		who := "nobody"
		if ls.owner != nil {
			who = ls.owner.name
		}
		k.fail("lock", "task %s unlocks a lock held by %s", k.cur.name, who)
		k.aborted = true
		k.bail()
	}
	if k.onUnlock != nil && k.noYield == 0 {
		k.onUnlock(k.cur, l)
	}
	ls.mu.Unlock()
	ls.owner = nil
	k.cur.held--
	k.yield(yUnlock)
}

func (k *Kernel) Spawn(f func()) {
	if k.inline != nil {
		k.inline(f)
		return
	}
	k.newTask("loop", f)
}

func (k *Kernel) holds(l *termemu.VerifLock) bool {
	return k.lockOf(l).owner == k.cur
}

// callbackYield yields inside a frontend callback or writer now and then.
func (k *Kernel) callbackYield() {
	if k.noYield > 0 || k.aborted || k.sched.CbYield == 0 {
		return
	}
	if k.cbRng.Pct(k.sched.CbYield) {
		k.yield(yCallback)
	}
}

// Run runs f as the first task until every task has ended.
func (k *Kernel) Run(f func()) {
	termemu.VerifHooks = k
	k.watch()
	k.base = runtime.NumGoroutine()
	t := k.newTask("main", f)
	k.main = t
	k.cur = t
	raceOff()
	t.wake <- struct{}{}
	<-k.finish
	raceOn()
	raceJoin()
	termemu.VerifHooks = nil
	ext.k = nil
	for _, t := range k.tasks {
		if !t.done {
			k.leak(t)
		}
	}
}
