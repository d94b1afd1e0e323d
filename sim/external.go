package main

import (
	"runtime"
	"sync"
	"time"
)

// The code under test may start goroutines and block on things the kernel does
// not know: a sync.Mutex, a channel, a condition. A goroutine the kernel did
// not start becomes a task when it first reaches a point the kernel sees. A
// task that blocks elsewhere stops the whole process; the monitor notices that
// no goroutine can run, marks the task as waiting for something external and
// lets another one go on. Both depend only on what is blocked, not on time.

var ext struct {
	mu     sync.Mutex
	once   sync.Once
	k      *Kernel
	id     int64         // the monitor's goroutine
	leaked [4096]leakedG // goroutines of runs that are over
	nLeak  int
	buf    [2][1 << 20]byte // stacks as seen by the monitor, by others
	bufMu  sync.Mutex       // of buf[1]
	hot    bool
}

const maxTasks = 250

type leakedG struct {
	g  uintptr
	id int64
}

// lockExt hides the lock from the race detector.
func lockExt() {
	raceOff()
	ext.mu.Lock()
	raceOn()
}

func unlockExt() {
	raceOff()
	ext.mu.Unlock()
	raceOn()
}

func isLeaked(g uintptr, id int64) bool {
	for _, l := range ext.leaked[:min(ext.nLeak, len(ext.leaked))] {
		if l.g == g && (l.id == 0 || l.id == id) {
			return true
		}
	}
	return false
}

func unleak(g uintptr) {
	lockExt()
	for i := range ext.leaked[:min(ext.nLeak, len(ext.leaked))] {
		if ext.leaked[i].g == g {
			ext.leaked[i] = leakedG{}
		}
	}
	unlockExt()
}

func goid() int64 {
	var b [64]byte
	return parseGoid(b[:runtime.Stack(b[:], false)])
}

// parseGoid reads the number in "goroutine 7 [...". The parsing here is done by
// hand because the standard library reports its accesses to the race detector.
func parseGoid(b []byte) int64 {
	const p = "goroutine "
	if len(b) < len(p) || string(b[:len(p)]) != p {
		return 0
	}
	n := int64(0)
	for _, c := range b[len(p):] {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int64(c-'0')
	}
	return n
}

// Not "semacquire": that is also a goroutine about to start a garbage collection
// while the world is stopped to look at it.
var blockedStates = []string{"chan receive", "chan send", "select", "sync."}

// quiescent reports whether no goroutine but the caller can run, and which
// goroutines exist.
func quiescent() (bool, map[int64]bool) {
	self := goid()
	alive := map[int64]bool{}
	ok := true
	buf := &ext.buf[0]
	if self != ext.id {
		buf = &ext.buf[1]
		raceOff()
		ext.bufMu.Lock()
		raceOn()
		defer func() {
			raceOff()
			ext.bufMu.Unlock()
			raceOn()
		}()
	}
	b := buf[:runtime.Stack(buf[:], true)]
	for i := 0; i < len(b); {
		id := parseGoid(b[i:])
		if id != 0 {
			alive[id] = true
			j := i
			for j < len(b) && b[j] != '[' && b[j] != '\n' {
				j++
			}
			blocked := false
			for _, s := range blockedStates {
				blocked = blocked || j+1+len(s) <= len(b) && string(b[j+1:j+1+len(s)]) == s
			}
			ok = ok && (blocked || id == self || id == ext.id)
		}
		for i < len(b) && !(b[i] == '\n' && i+1 < len(b) && b[i+1] == '\n') {
			i++
		}
		i += 2
	}
	return ok, alive
}

func (k *Kernel) watch() {
	ext.once.Do(func() {
		go monitor()
	})
	ext.k = k
}

func monitor() {
	ext.id = goid()
	var last *Kernel
	var steps, trace = 0, uint64(0)
	pause := 10 * time.Millisecond
	for {
		time.Sleep(pause)
		pause = 10 * time.Millisecond
		if ext.hot {
			pause = 100 * time.Microsecond
		}
		k := ext.k
		if k == nil || k.ended {
			last = nil
			continue
		}
		if k != last || k.steps != steps || k.trace != trace {
			last, steps, trace = k, k.steps, k.trace
			if k.nExt == 0 {
				continue
			}
		}
		if ok, alive := quiescent(); ok && ext.k == k && !k.ended {
			k.stuck(alive)
			last, ext.hot = nil, true
		}
	}
}

// stuck is called by the monitor when no goroutine can run.
func (k *Kernel) stuck(alive map[int64]bool) {
	k.sweep(alive)
	if t := k.cur; t != nil && !t.done && !t.ext {
		if k.aborted {
			k.leak(t)
		} else {
			t.ext = true
			k.nExt++
		}
	}
	if k.viol != nil {
		k.aborted = true
	}
	if k.aborted {
		k.unwind()
		return
	}
	k.monitorCall = true
	next := k.pick(nil, yOther)
	k.monitorCall = false
	if next == nil {
		if !k.allDone() {
			k.deadlock()
			k.aborted = true
			k.unwind()
			return
		}
		k.end()
		return
	}
	k.cur = next
	raceOff()
	next.wake <- struct{}{}
	raceOn()
}

// sweep notes goroutines that ended without telling.
func (k *Kernel) sweep(alive map[int64]bool) {
	for _, t := range k.tasks {
		if t.adopted && !t.done && !alive[t.goid] {
			t.done = true
			k.live--
			k.free(t)
		}
	}
}

func (k *Kernel) free(t *Task) {
	if t.ext {
		t.ext = false
		k.nExt--
	}
}

// leak gives up on a task that will not end.
func (k *Kernel) leak(t *Task) {
	t.done = true
	k.free(t)
	lockExt()
	ext.leaked[ext.nLeak%len(ext.leaked)] = leakedG{t.g, t.goid}
	ext.nLeak++
	unlockExt()
}

// settle lets what runs outside the kernel's control run until it blocks.
func (k *Kernel) settle() {
	for i := 0; i < 300; i++ {
		if i > 20 {
			time.Sleep(20 * time.Microsecond)
		}
		for j := 0; j < 3; j++ {
			runtime.Gosched()
		}
		if ok, alive := quiescent(); ok {
			k.sweep(alive)
			break
		}
	}
}

// rejoin is called by a goroutine that reaches the kernel without having
// control. It returns when it is scheduled.
func (k *Kernel) rejoin(g uintptr) {
	id := goid()
	lockExt()
	var t *Task
	if !k.ended && !k.aborted {
		for _, x := range k.tasks {
			if x.g == g && !x.done && (!x.adopted || x.goid == id) {
				t = x
			}
		}
		if t == nil && !isLeaked(g, id) {
			t = k.adopt(g, id)
		}
	}
	unlockExt()
	if t == nil {
		select {}
	}
	raceOff()
	k.free(t)
	<-t.wake
	raceOn()
	if k.aborted {
		k.bail()
	}
}

// adopt makes a task of a goroutine that the code under test started.
func (k *Kernel) adopt(g uintptr, id int64) *Task {
	t := &Task{name: "goroutine", wake: make(chan struct{}, 1), adopted: true, g: g, goid: id}
	t.prio = 1000 + k.rng.N(1000)
	if len(k.tasks) < maxTasks {
		t.id = len(k.tasks)
		k.tasks = append(k.tasks, t)
		k.live++
		return t
	}
	_, alive := quiescent()
	k.sweep(alive)
	for i, x := range k.tasks {
		if x.adopted && x.done {
			t.id = i
			k.tasks[i] = t
			k.live++
			return t
		}
	}
	return nil
}

// bail ends what the current task does.
func (k *Kernel) bail() {
	if t := k.cur; t.adopted && t.g == getg() {
		k.leak(t)
		k.unwind()
		select {}
	}
	panic(abortT{})
}
