package main

import (
	"io"
	"unsafe"

	"github.com/ricochet1k/termemu"
)

// The light world runs the same tasks under the same kind of schedules in a
// binary built with the race detector. The kernel hides its own hand-overs from
// the detector, so that two accesses are ordered only by what the code under
// test does: locks, channels, atomics and goroutine creation. Here nothing is
// compared; the detector stops the process at the first race. This code is not
// instrumented and avoids maps and growing slices shared between tasks, which
// the runtime would report.

type lightBackend struct {
	k      *Kernel
	stream []byte
	cut    []bool
	pos    int
	writes int
	wf     []WFault
	n      int
}

func (b *lightBackend) Read(p []byte) (int, error) {
	b.k.guard("Read")
	if b.k.aborted {
		b.k.bail()
	}
	b.k.yield(yRead)
	b.n++
	if b.n%17 == 0 {
		return 0, nil
	}
	if b.pos >= len(b.stream) {
		return 0, io.EOF
	}
	end := b.pos + 1
	for end < len(b.stream) && !b.cut[end] {
		end++
	}
	n := min(end-b.pos, len(p))
	raceWrite(unsafe.Pointer(unsafe.SliceData(p)), n)
	for i := 0; i < n; i++ {
		p[i] = b.stream[b.pos+i]
	}
	b.pos += n
	return n, nil
}

func (b *lightBackend) Write(p []byte) (int, error) {
	b.k.guard("Write")
	if b.k.aborted {
		b.k.bail()
	}
	b.k.yield(yWrite)
	raceRead(unsafe.Pointer(unsafe.SliceData(p)), len(p))
	i := b.writes
	b.writes++
	for _, f := range b.wf {
		if f.Call == i {
			switch f.Kind {
			case "err":
				return min(f.N, len(p)), errSim
			case "short":
				return clampI(f.N, min(1, len(p)), len(p)), nil
			}
			return 0, nil
		}
	}
	b.k.yield(yWrite)
	return len(p), nil
}

func (b *lightBackend) SetSize(w, h int) error {
	b.k.guard("SetSize")
	b.k.yield(yOther)
	return nil
}

type lightOut struct{ k *Kernel }

func (o lightOut) Write(p []byte) (int, error) {
	o.k.guard("tee write")
	o.k.yield(yWrite)
	raceRead(unsafe.Pointer(unsafe.SliceData(p)), len(p))
	return len(p), nil
}

// lightFront reads everything back in every callback.
type lightFront struct {
	k    *Kernel
	lock *termemu.VerifLock
	term termemu.Terminal
	tty  *termemu.TTYFrontend
	full bool
	sum  int
}

func (f *lightFront) enter(name string) bool {
	f.k.guard(name)
	if f.k.aborted || f.term == nil {
		return false
	}
	if !f.k.holds(f.lock) && f.k.noYield == 0 {
		f.k.fail("lock", "%s is called without the terminal lock", name)
	}
	f.sum += f.term.(viewGetter).GetViewInt(intIDs[0])
	f.k.callbackYield()
	return true
}

func (f *lightFront) Bell() {
	if f.enter("Bell") && f.tty != nil {
		f.tty.Bell()
	}
}

func (f *lightFront) RegionChanged(r termemu.Region, c termemu.ChangeReason) {
	if !f.enter("RegionChanged") {
		return
	}
	w, h := f.term.Size()
	for y := clampI(r.Y, 0, h); y < r.Y2 && y < h; y++ {
		x1, x2 := clampI(r.X, 0, w), clampI(r.X2, 0, w)
		if x1 < x2 {
			f.sum += len(f.term.StyledLine(x1, x2-x1, y).Spans)
		}
		if f.full {
			f.sum += len(f.term.ANSILine(y)) + len(f.term.Line(y))
		}
	}
	if f.tty != nil {
		f.tty.RegionChanged(r, c)
	}
}

func (f *lightFront) ScrollLines(n int) {
	if f.enter("ScrollLines") && f.tty != nil {
		f.tty.ScrollLines(n)
	}
}

func (f *lightFront) CursorMoved(x, y int) {
	if f.enter("CursorMoved") && f.tty != nil {
		f.tty.CursorMoved(x, y)
	}
}

func (f *lightFront) StyleChanged(s termemu.Style) {
	if f.enter("StyleChanged") && f.tty != nil {
		f.tty.StyleChanged(s)
	}
}

func (f *lightFront) ViewFlagChanged(id termemu.ViewFlag, v bool) {
	if f.enter("ViewFlagChanged") && f.tty != nil {
		f.tty.ViewFlagChanged(id, v)
	}
}

func (f *lightFront) ViewIntChanged(id termemu.ViewInt, v int)          { f.enter("ViewIntChanged") }
func (f *lightFront) ViewStringChanged(id termemu.ViewString, v string) { f.enter("ViewStringChanged") }

// runLight executes a scenario without a reference model.
func runLight(sc *Scenario, st *Stats) (*Viol, uint64) {
	k := NewKernel(sc.Sched, true)
	be := &lightBackend{k: k, wf: sc.WF}
	for _, t := range sc.Tokens {
		be.stream = append(be.stream, t.B...)
	}
	be.cut = make([]bool, len(be.stream)+1)
	start := make([]int, len(sc.Tokens)+1)
	n := 0
	for i, t := range sc.Tokens {
		start[i] = n
		for _, c := range t.Cuts {
			if c >= 0 && c <= len(t.B) {
				be.cut[n+c] = true
			}
		}
		n += len(t.B)
	}
	start[len(sc.Tokens)] = n
	f := &lightFront{k: k, full: sc.Seed%3 == 0}
	var term termemu.Terminal
	var tee *termemu.TeeBackend
	var loop *Task
	k.Run(func() {
		k.noYield++
		var b termemu.Backend = be
		if sc.Tee {
			tee = termemu.NewTeeBackend(be)
			b = tee
		}
		mode := termemu.TextReadModeRune
		if sc.Mode == 1 {
			mode = termemu.TextReadModeGrapheme
		}
		term = termemu.VerifNew(f, b, mode, sc.Grid)
		f.lock = termemu.VerifLockOf(term)
		if sc.TTY {
			f.tty = termemu.NewTTYFrontend(term, lightOut{k})
		}
		if !sc.NoSize {
			term.Resize(sc.W, sc.H)
		}
		// the set-up comes before everything the loop does
		term.Lock()
		term.Unlock()
		f.term = term
		loop = k.tasks[len(k.tasks)-1]
		k.ready = func(t *Task) bool { return be.pos >= t.cond-1 || loop.done }
		actors := make([][]*Op, 16)
		for i := range sc.Ops {
			o := &sc.Ops[i]
			actors[o.Actor&15] = append(actors[o.Actor&15], o)
		}
		for a := range actors {
			ops := actors[a]
			if len(ops) == 0 {
				continue
			}
			at := func(o *Op) int {
				p := start[min(o.Tok, len(sc.Tokens))]
				if o.Tok < len(sc.Tokens) {
					p += o.Off
				}
				return 1 + min(p, len(be.stream))
			}
			var t *Task
			t = k.newTask("op", func() {
				for _, o := range ops {
					t.cond = at(o)
					if !k.ready(t) {
						k.block(t)
					}
					t.cond = 0
					k.yield(yOp)
					lightOp(k, term, tee, f, o)
				}
			})
			t.isOp = true
			t.cond = at(ops[0])
		}
		if sc.Near != nil {
			sc.Near.start(k)
		}
		k.noYield--
	})
	st.Steps += int64(k.steps)
	st.Switches += int64(k.switches)
	st.Bytes += int64(be.pos)
	st.Reads += int64(be.n)
	st.Writes += int64(be.writes)
	for i := range sc.Ops {
		st.OpKinds[sc.Ops[i].Kind]++
	}
	if len(st.inter) < st.statesCap {
		st.inter[k.trace] = struct{}{}
	}
	return k.viol, hashU(k.trace, uint64(k.steps)<<20|uint64(be.pos))
}

func lightOp(k *Kernel, term termemu.Terminal, tee *termemu.TeeBackend, f *lightFront, o *Op) {
	switch o.Kind {
	case "resize":
		term.Resize(o.A[0], o.A[1])
	case "read", "ansi":
		// what was read stays readable after the lock is released
		var kept []termemu.Line
		var text []string
		term.WithLock(func() {
			w, h := term.Size()
			for y := 0; y < h; y++ {
				text = append(text, term.Line(y), term.ANSILine(y))
				kept = append(kept, term.StyledLine(0, w, y))
			}
			for _, l := range term.StyledLines(termemu.Region{X2: w, Y2: h}) {
				kept = append(kept, l)
			}
			g := term.(viewGetter)
			for _, id := range flagIDs {
				g.GetViewFlag(id)
			}
			for _, id := range intIDs {
				g.GetViewInt(id)
			}
			for _, id := range strIDs {
				g.GetViewString(id)
			}
			k.yield(yCallback)
		})
		for i := 0; i < 3; i++ {
			k.yield(yOp)
			for _, l := range kept {
				raceRead(unsafe.Pointer(unsafe.SliceData(l.Spans)), len(l.Spans)*int(unsafe.Sizeof(termemu.Span{})))
				for j := range l.Spans {
					raceRead(unsafe.Pointer(unsafe.StringData(l.Spans[j].Text)), len(l.Spans[j].Text))
				}
			}
			for _, t := range text {
				raceRead(unsafe.Pointer(unsafe.StringData(t)), len(t))
			}
		}
	case "key":
		term.SendKey(termemu.KeyEvent{Code: termemu.KeyCode(o.Key.Code), Rune: o.Key.Rune, Mod: termemu.KeyMod(o.Key.Mod),
			Event: termemu.KeyEventType(o.Key.Event), Shifted: o.Key.Shifted, BaseLayout: o.Key.Base, Text: o.Key.Text})
	case "mouse":
		term.(mouseSender).SendMouseRaw(termemu.MouseBtn(o.A[0]), o.A[1] == 1, termemu.MouseFlag(o.A[2]), o.A[3], o.A[4])
	case "write":
		term.Write(o.B)
	case "tee":
		if tee != nil {
			if o.A[0] == 0 {
				tee.SetTee(nil)
			} else {
				tee.SetTee(lightOut{k})
			}
		}
	case "setfrontend":
		term.SetFrontend(f)
	case "tty":
		if f.tty != nil {
			switch o.A[0] {
			case 0:
				f.tty.Attach(termemu.Region{X: o.A[1], Y: o.A[2], X2: o.A[3], Y2: o.A[4]})
			case 1:
				f.tty.Detach()
			case 2:
				f.tty.SetFocus(o.A[1]&1 == 0)
			case 3:
				f.tty.Blur()
			}
		}
	}
}
