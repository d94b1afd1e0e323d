package main

import (
	"fmt"
	"strings"

	"github.com/ricochet1k/termemu"
)

// account adds a finished world to the statistics.
func (w *World) account() {
	st := w.st
	st.Bounds += int64(w.boundaries)
	st.Steps += int64(w.k.steps)
	st.Switches += int64(w.k.switches)
	st.Bytes += int64(len(w.stream))
	st.Units += int64(len(w.units))
	st.Calls += int64(w.front.calls)
	if len(st.inter) < st.statesCap {
		st.inter[w.k.trace] = struct{}{}
	}
}

// traceHash identifies everything that happened.
func (w *World) traceHash() uint64 {
	h := hashU(w.k.trace, uint64(w.k.steps))
	h = hashU(h, w.trace)
	for _, r := range w.be.writes {
		h = hashS(h, string(r.data))
	}
	h = hashU(h, uint64(w.front.calls))
	if w.finalObs != nil {
		h = hashU(h, uint64(w.finalObs.buf[0].Cursor.X)<<20|uint64(w.finalObs.buf[0].Cursor.Y))
		for _, r := range w.finalObs.rows[0] {
			for _, x := range canonRow(r) {
				h = hashS(h, x.T)
			}
		}
	}
	if w.k.viol != nil {
		h = hashS(h, w.k.viol.Cat+w.k.viol.Msg)
	}
	return h
}

func (w *World) loopWrites() string {
	var sb strings.Builder
	for _, r := range w.be.writes {
		if r.loop {
			sb.Write(r.data)
		}
	}
	return sb.String()
}

// runDiff compares an execution with one in which the backend delivers the
// stream in as few reads as it can.
func runDiff(sc *Scenario, st *Stats) (*Viol, uint64) {
	a := newWorld(sc, st)
	v := a.run()
	a.account()
	if v != nil && v.Cat != "panic" && v.Cat != "stopped" && v.Cat != "hang" {
		return v, a.traceHash()
	}
	ref := sc.clone()
	ref.Sched = Sched{Kind: "default"}
	ref.End = "eof"
	ref.WF = nil
	for i := range ref.Tokens {
		ref.Tokens[i].Cuts, ref.Tokens[i].Zero = nil, 0
	}
	b := newWorld(ref, newStats())
	vb := b.run()
	tr := hashU(a.traceHash(), b.traceHash())
	if v != nil && vb != nil {
		return v, tr
	}
	if vb != nil && vb.Cat == "harness" {
		return vb, tr
	}
	d := ""
	switch {
	case v != nil:
		d = "cut: " + v.Msg
	case vb != nil:
		d = "whole: " + vb.Msg
	}
	if d == "" {
		d = a.finalObs.snap().diff(b.finalObs.snap())
	}
	if d == "" && a.loopWrites() != b.loopWrites() {
		d = fmt.Sprintf("replies: %q and %q", a.loopWrites(), b.loopWrites())
	}
	if d == "" {
		d = diffEvents(a.front.events, b.front.events, len(a.front.events), len(b.front.events))
	}
	if d == "" {
		d = diffScrolled(a.front.scrolled, b.front.scrolled, len(a.front.scrolled), len(b.front.scrolled))
	}
	if d != "" {
		return &Viol{Cat: "diff", Msg: "cut into reads and read whole differ: " + d, Tok: len(sc.Tokens) - 1}, tr
	}
	return nil, tr
}

func diffEvents(a, b []MEvent, n, m int) string {
	for i := 0; i < n && i < m; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("notification %d: %v and %v", i, a[i], b[i])
		}
	}
	if n != m {
		return fmt.Sprintf("%d and %d notifications", n, m)
	}
	return ""
}

func diffScrolled(a, b [][]termemu.Span, n, m int) string {
	for i := 0; i < n && i < m; i++ {
		if d := diffRow(canonRow(a[i]), canonRow(b[i])); d != "" {
			return fmt.Sprintf("row %d announced by ScrollLines: %s", i, d)
		}
	}
	if n != m {
		return fmt.Sprintf("%d and %d rows announced by ScrollLines", n, m)
	}
	return ""
}

// runTwin compares the two screen buffers.
func runTwin(sc *Scenario, st *Stats) (*Viol, uint64) {
	run := func(grid bool, st *Stats) *World {
		c := sc.clone()
		c.Grid = grid
		c.Sched = Sched{Kind: "default"}
		w := newWorld(c, st)
		w.mirrorOn = true
		w.snapOn = true
		w.run()
		return w
	}
	a := run(false, st)
	a.account()
	b := run(true, newStats())
	tr := hashU(a.traceHash(), b.traceHash())
	bad := func(tok int, f string, x ...any) (*Viol, uint64) {
		return &Viol{Cat: "twin", Tok: tok, Msg: "span and grid buffers differ: " + fmt.Sprintf(f, x...)}, tr
	}
	for i := 0; i < len(a.snaps) && i < len(b.snaps); i++ {
		x, y := a.snaps[i], b.snaps[i]
		if d := x.diff(y); d != "" {
			return bad(x.tok, "%s", d)
		}
		if d := diffEvents(a.front.events, b.front.events, x.evN, y.evN); d != "" {
			return bad(x.tok, "%s", d)
		}
		if d := diffScrolled(a.front.scrolled, b.front.scrolled, x.scN, y.scN); d != "" {
			return bad(x.tok, "%s", d)
		}
	}
	va, vb := a.k.viol, b.k.viol
	for _, v := range []*Viol{va, vb} {
		if v != nil && v.Cat == "harness" {
			return v, tr
		}
	}
	switch {
	case va == nil && vb == nil:
		if len(a.snaps) != len(b.snaps) {
			return bad(0, "%d and %d reads", len(a.snaps), len(b.snaps))
		}
		if a.loopWrites() != b.loopWrites() && !a.midWide && !b.midWide {
			return bad(0, "replies %q and %q", a.loopWrites(), b.loopWrites())
		}
		return nil, tr
	case va != nil && vb != nil && va.Cat == vb.Cat:
		return va, tr
	case va != nil && (vb == nil || va.Tok <= vb.Tok):
		return bad(va.Tok, "span: %s: %s", va.Cat, va.Msg)
	}
	return bad(vb.Tok, "grid: %s: %s", vb.Cat, vb.Msg)
}
