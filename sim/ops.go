package main

import (
	"fmt"
	"strings"

	"github.com/ricochet1k/termemu"
)

// runOp performs one operation of a simulated user task and checks its result.
func (w *World) runOp(t *Task, o *Op) {
	k := w.k
	r := &opRun{o: o, start: len(w.be.writes)}
	w.opLocks[t] = r
	w.st.OpKinds[o.Kind]++
	switch o.Kind {
	case "resize":
		w.resizes++
		n := len(w.setSizes)
		err := w.term.Resize(o.A[0], o.A[1])
		if err != nil {
			w.report(&Viol{Cat: "setsize", Msg: fmt.Sprintf("Resize(%d,%d): %v", o.A[0], o.A[1], err)})
		}
		cnt := 0
		for _, s := range w.setSizes[n:] {
			if s.t != t {
				continue
			}
			cnt++
			if s.w != o.A[0] || s.h != o.A[1] {
				w.report(&Viol{Cat: "setsize", Msg: fmt.Sprintf("Resize(%d,%d) tells the backend %d,%d", o.A[0], o.A[1], s.w, s.h)})
			}
		}
		if cnt != 1 && w.sc.Kind != "nopty" {
			w.report(&Viol{Cat: "setsize", Msg: fmt.Sprintf("Resize(%d,%d) calls SetSize %d times", o.A[0], o.A[1], cnt)})
		}
		if !r.applied && !w.raw && k.viol == nil {
			w.report(&Viol{Cat: "size", Hints: "resize", Msg: fmt.Sprintf("Resize(%d,%d) returned without the screen having changed as it should", o.A[0], o.A[1])})
		}
		w.checkSent(t, r, "", 0, nil, false)
	case "read":
		w.term.WithLock(func() {
			if k.viol != nil {
				return
			}
			a := observe(w.term)
			sa := a.snap()
			for i := 0; i < 2; i++ {
				k.yield(yCallback)
			}
			b := observe(w.term)
			if d := sa.diff(b.snap()); d != "" {
				w.report(&Viol{Cat: "half", Msg: "the state changes while another task holds the lock: " + d})
				return
			}
			if v := b.accessors(); v != nil {
				w.report(v)
			}
			w.checkNotified(b)
		})
	case "key":
		ev := termemu.KeyEvent{Code: termemu.KeyCode(o.Key.Code), Rune: o.Key.Rune, Mod: termemu.KeyMod(o.Key.Mod),
			Event: termemu.KeyEventType(o.Key.Event), Shifted: o.Key.Shifted, BaseLayout: o.Key.Base, Text: o.Key.Text}
		n, err := w.term.SendKey(ev)
		if k.viol != nil || w.raw {
			break
		}
		var acc []string
		for _, ms := range w.opModes(r) {
			a := keyAccept(o.Key, ms)
			if a == nil {
				acc = nil
				w.st.Probe("key_unspecified")
				break
			}
			acc = append(acc, a...)
		}
		if acc != nil {
			w.checkKey(t, r, acc, n, err)
		}
	case "mouse":
		err := w.term.(mouseSender).SendMouseRaw(termemu.MouseBtn(o.A[0]), o.A[1] == 1, termemu.MouseFlag(o.A[2]), o.A[3], o.A[4])
		if k.viol != nil || w.raw {
			break
		}
		var bad []string
		ok, skip := false, false
		for _, ms := range w.opModes(r) {
			wants := mouseReport(o.A, ms)
			if wants == nil {
				skip = true
				w.st.Probe("mouse_unspecified")
				break
			}
			if wants[0] == "" {
				w.st.Probe("mouse_filtered")
			} else {
				w.st.Probe("mouse_sent")
			}
			for _, want := range wants {
				if msg := w.sent(t, r, want, -1, err); msg == "" {
					ok = true
				} else {
					bad = append(bad, msg)
				}
			}
		}
		if !ok && !skip {
			w.report(&Viol{Cat: "mouse", Msg: fmt.Sprintf("mouse button %d press=%v mods=%d at %d,%d: %s", o.A[0], o.A[1] == 1, o.A[2], o.A[3], o.A[4], strings.Join(bad, " / "))})
		}
	case "write":
		n, err := w.term.Write(o.B)
		w.checkSent(t, r, string(o.B), n, err, true)
	case "tee":
		if w.tee == nil {
			break
		}
		h := teeSet{from: k.steps, to: 1 << 40, id: o.A[0]}
		i := len(w.teeHist)
		w.teeHist = append(w.teeHist, h)
		if o.A[0] == 0 {
			w.tee.SetTee(nil)
		} else {
			s := &teeSink{w: w, id: o.A[0]}
			w.tees = append(w.tees, s)
			w.tee.SetTee(s)
		}
		w.teeHist[i].to = k.steps
	case "setfrontend":
		old := w.proxy
		p := &frontProxy{f: w.front}
		w.term.SetFrontend(p)
		w.proxy = p
		old.retired = true
	case "tty":
		w.tty.op(o)
	case "ansi":
		w.term.WithLock(func() {
			if k.viol == nil {
				w.ansi = append(w.ansi, captureANSI(w))
			}
		})
	}
	delete(w.opLocks, t)
}

// frontProxy is one of the frontend objects that all tell the same things. Once
// another one is set it must not be called any more.
type frontProxy struct {
	f       *Front
	retired bool
}

func (p *frontProxy) front(name string) *Front {
	if p.retired && !p.f.w.k.aborted {
		p.f.w.k.fail("stale", "%s is called on a frontend that was replaced by SetFrontend", name)
	}
	return p.f
}

func (p *frontProxy) Bell() { p.front("Bell").Bell() }
func (p *frontProxy) RegionChanged(r termemu.Region, c termemu.ChangeReason) {
	p.front("RegionChanged").RegionChanged(r, c)
}
func (p *frontProxy) ScrollLines(n int)            { p.front("ScrollLines").ScrollLines(n) }
func (p *frontProxy) CursorMoved(x, y int)         { p.front("CursorMoved").CursorMoved(x, y) }
func (p *frontProxy) StyleChanged(s termemu.Style) { p.front("StyleChanged").StyleChanged(s) }
func (p *frontProxy) ViewFlagChanged(id termemu.ViewFlag, v bool) {
	p.front("ViewFlagChanged").ViewFlagChanged(id, v)
}
func (p *frontProxy) ViewIntChanged(id termemu.ViewInt, v int) {
	p.front("ViewIntChanged").ViewIntChanged(id, v)
}
func (p *frontProxy) ViewStringChanged(id termemu.ViewString, v string) {
	p.front("ViewStringChanged").ViewStringChanged(id, v)
}

// opModes returns what the modes may have been when the operation read them.
func (w *World) opModes(r *opRun) []modeState {
	if len(r.modes) > 0 {
		return r.modes
	}
	var out []modeState
	for _, m := range w.cands {
		c := m.clone()
		out = append(out, c.modes())
		for w.canApply(c) {
			w.applyNext(c)
			out = append(out, c.modes())
		}
	}
	return out
}

func (w *World) callsBy(t *Task, from int) (calls []wrec, data string) {
	for _, c := range w.be.writes[from:] {
		if c.t == t {
			calls = append(calls, c)
			data += string(c.data)
		}
	}
	return
}

// sent returns what is wrong with the writes of an operation that had msg to
// deliver. n < 0 if the operation does not report a count.
func (w *World) sent(t *Task, r *opRun, msg string, n int, err error) string {
	calls, data := w.callsBy(t, r.start)
	if msg == "" {
		if data != "" {
			return fmt.Sprintf("%q is written, nothing is due", data)
		}
		if err != nil && len(calls) == 0 {
			return fmt.Sprintf("error %v without a write", err)
		}
		return ""
	}
	if !matchMessages(calls, []string{msg}) {
		return fmt.Sprintf("%q is written, %q is due", data, msg)
	}
	if n >= 0 && n != len(data) {
		return fmt.Sprintf("%d of %q reported as written, %d were", n, msg, len(data))
	}
	if (err != nil) != (len(data) < len(msg)) {
		// an error that came with the last byte may be reported
		if !(err != nil && len(calls) > 0 && calls[len(calls)-1].err) {
			return fmt.Sprintf("%d of %d bytes written, error %v", len(data), len(msg), err)
		}
	}
	return ""
}

func (w *World) checkSent(t *Task, r *opRun, msg string, n int, err error, count bool) {
	if w.k.viol != nil {
		return
	}
	if !count {
		n = -1
	}
	if s := w.sent(t, r, msg, n, err); s != "" {
		w.report(&Viol{Cat: "write", Msg: r.o.Kind + ": " + s})
	}
}

// checkKey checks the bytes sent for a key against the admissible encodings.
func (w *World) checkKey(t *Task, r *opRun, acc []string, n int, err error) {
	calls, data := w.callsBy(t, r.start)
	faulty := false
	for _, c := range calls {
		if c.err || c.zero {
			faulty = true
		}
	}
	k := r.o.Key
	fail := func(f string, a ...any) {
		w.report(&Viol{Cat: "key", Msg: fmt.Sprintf("key %d rune %q mods %08b event %d shifted %q base %q text %q with %+v: ", k.Code, k.Rune, k.Mod, k.Event, k.Shifted, k.Base, string(k.Text), w.opModes(r)) + fmt.Sprintf(f, a...)})
	}
	if n != len(data) {
		w.report(&Viol{Cat: "write", Msg: fmt.Sprintf("SendKey reports %d bytes, %q was written", n, data)})
		return
	}
	if faulty {
		if err == nil && !w.accepts(acc, data) {
			w.report(&Viol{Cat: "write", Msg: fmt.Sprintf("SendKey reports no error, %q was written", data)})
		}
		return
	}
	if err != nil {
		w.report(&Viol{Cat: "write", Msg: fmt.Sprintf("SendKey: %v, %q was written", err, data)})
		return
	}
	w.st.Probe("key_" + keyShape(data))
	if !w.accepts(acc, data) {
		fail("%q (%s) is written, due: %v", data, canonKey(data), acc)
	}
}

func (w *World) accepts(acc []string, data string) bool {
	c := canonKey(data)
	for _, a := range acc {
		if p, ok := strings.CutSuffix(a, anyText); a == c || ok && strings.HasPrefix(c, p) {
			return true
		}
	}
	return false
}
