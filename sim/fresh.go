package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/ricochet1k/termemu"
)

// miniHooks runs a terminal to the end of its input in the caller's goroutine.
type miniHooks struct{ f func() }

func (m *miniHooks) Lock(l *termemu.VerifLock) {
	if l.Owner != 0 {
		panic("lock taken twice")
	}
	l.Owner = 1
}
func (m *miniHooks) TryLock(l *termemu.VerifLock) bool {
	if l.Owner != 0 {
		return false
	}
	l.Owner = 1
	return true
}
func (m *miniHooks) Unlock(l *termemu.VerifLock) { l.Owner = 0 }
func (m *miniHooks) Spawn(f func())              { m.f = f }

type byteBackend struct{ data string }

func (b *byteBackend) Read(p []byte) (int, error) {
	if b.data == "" {
		return 0, io.EOF
	}
	n := min(len(p), len(b.data))
	if n < len(b.data) { // not inside of a character
		if i := strings.LastIndexByte(b.data[:n], 27); i > 0 {
			n = i
		}
	}
	copy(p, b.data[:n])
	b.data = b.data[n:]
	return n, nil
}
func (b *byteBackend) Write(p []byte) (int, error) { return len(p), nil }
func (b *byteBackend) SetSize(w, h int) error      { return nil }

// feedFresh returns a new terminal that has interpreted data.
func feedFresh(w, h int, grapheme bool, data string) termemu.Terminal {
	old := termemu.VerifHooks
	m := &miniHooks{}
	termemu.VerifHooks = m
	defer func() { termemu.VerifHooks = old }()
	mode := termemu.TextReadModeRune
	if grapheme {
		mode = termemu.TextReadModeGrapheme
	}
	be := &byteBackend{data}
	term := termemu.VerifNew(nil, be, mode, false)
	term.Resize(w, h)
	m.f()
	return term
}

// freshStyle returns the style of the first cell of a new terminal after data.
func freshStyle(data string) (st MStyle, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	rs := canonRow(feedFresh(4, 2, false, data).StyledLine(0, 4, 0).Spans)
	if len(rs) == 0 {
		return st, false
	}
	return decodeStyle(rs[0].S).ms, true
}

// ansiShot is a screen and what ANSILine said about it.
type ansiShot struct {
	w, h     int
	grapheme bool
	lines    []string
	rows     [][]Run
}

func captureANSI(w *World) ansiShot {
	sw, sh := w.term.Size()
	s := ansiShot{w: sw, h: sh, grapheme: w.sc.Mode == 1}
	for y := 0; y < sh; y++ {
		s.lines = append(s.lines, w.term.ANSILine(y))
		s.rows = append(s.rows, canonRow(w.term.StyledLine(0, sw, y).Spans))
	}
	w.st.Probe("ansi_shots")
	return s
}

func (s *ansiShot) check() *Viol {
	var sb strings.Builder
	for y, l := range s.lines {
		fmt.Fprintf(&sb, "\x1b[%dH%s", y+1, l)
	}
	t := feedFresh(s.w, s.h, s.grapheme, sb.String())
	for y := range s.rows {
		got := canonRow(t.StyledLine(0, s.w, y).Spans)
		if d := diffRow(s.rows[y], got); d != "" {
			return &Viol{Cat: "ansi", Msg: fmt.Sprintf("row %d rendered as %q: %s", y, s.lines[y], d)}
		}
	}
	return nil
}

// ttyWorld is a TTYFrontend whose output is interpreted by a real outer
// terminal.
type ttyWorld struct {
	w       *World
	fe      *termemu.TTYFrontend
	out     []byte
	ow, oh  int
	state   int // 0 detached, 1 attaching, 2 attached, 3 detaching
	region  termemu.Region
	focus   int // 0 blurred, 1 focused, 2 changing
	detFrom int // output length when it was detached
	inside  bool
	drawn   []termemu.Region // every region it was attached to
}

// backdrop is what the outer terminal shows before the frontend is attached.
func (t *ttyWorld) backdrop() string {
	var sb strings.Builder
	sb.WriteString("\x1b[?7l\x1b[31;7m")
	for y := 1; y <= t.oh; y++ {
		fmt.Fprintf(&sb, "\x1b[%dH%s", y, strings.Repeat("#", t.ow))
	}
	sb.WriteString("\x1b[?7h\x1b[2;2H")
	return sb.String()
}

func newTTYWorld(w *World) *ttyWorld {
	t := &ttyWorld{w: w, ow: w.sc.W, oh: w.sc.H, focus: 1}
	for _, o := range w.sc.Ops {
		if o.Kind == "resize" {
			t.ow, t.oh = max(t.ow, o.A[0]), max(t.oh, o.A[1])
		}
	}
	t.ow += int(w.sc.Seed >> 20 & 3)
	t.oh += int(w.sc.Seed >> 22 & 1)
	if w.sc.Seed>>24&3 == 0 {
		t.fe = termemu.NewTTYFrontend(nil, ttyOut{t})
		t.fe.SetTerminal(w.term)
	} else {
		t.fe = termemu.NewTTYFrontend(w.term, ttyOut{t})
	}
	return t
}

type ttyOut struct{ t *ttyWorld }

func (o ttyOut) Write(p []byte) (int, error) {
	k := o.t.w.k
	if k.aborted {
		k.bail()
	}
	o.t.out = append(o.t.out, p...)
	k.callbackYield()
	return len(p), nil
}

func (t *ttyWorld) op(o *Op) {
	switch o.A[0] {
	case 0:
		t.state = 1
		t.region = termemu.Region{X: o.A[1], Y: o.A[2], X2: o.A[3], Y2: o.A[4]}
		t.drawn = append(t.drawn, t.region)
		t.fe.Attach(t.region)
		t.state = 2
	case 1:
		t.state = 3
		t.fe.Detach()
		t.state = 0
		t.detFrom = len(t.out)
	case 2:
		t.focus = 2
		if len(o.A) < 2 || o.A[1]&1 == 0 {
			t.fe.Focus()
		} else {
			t.fe.SetFocus(true)
		}
		t.focus = 1
	case 3:
		t.focus = 2
		if len(o.A) < 2 || o.A[1]&1 == 0 {
			t.fe.Blur()
		} else {
			t.fe.SetFocus(false)
		}
		t.focus = 0
	}
}

// check compares the outer terminal with the inner one. The caller knows that
// the read loop is not in the middle of anything.
func (t *ttyWorld) check() {
	w := t.w
	if w.k.viol != nil {
		return
	}
	if t.state == 0 {
		if s := strings.ReplaceAll(string(t.out[t.detFrom:]), "\x1b[?25h", ""); s != "" {
			w.report(&Viol{Cat: "tty", Msg: fmt.Sprintf("%q is written while detached", s)})
		}
		return
	}
	if t.state != 2 {
		return
	}
	w.st.Probe("tty_checks")
	outer := feedFresh(t.ow, t.oh, w.sc.Mode == 1, "\x1b[?25h"+t.backdrop()+string(t.out))
	sw, sh := w.term.Size()
	x1, x2 := clampI(t.region.X, 0, sw), clampI(t.region.X2, 0, sw)
	for y := clampI(t.region.Y, 0, sh); y < t.region.Y2 && y < sh; y++ {
		if x1 >= x2 {
			break
		}
		in := canonRow(w.term.StyledLine(x1, x2-x1, y).Spans)
		out := canonRow(outer.StyledLine(x1, x2-x1, y).Spans)
		if d := diffRow(in, out); d != "" {
			w.report(&Viol{Cat: "tty", Msg: fmt.Sprintf("row %d of region %v: inner and outer terminal differ: %s", y, t.region, d)})
			return
		}
	}
	bg := feedFresh(1, 1, false, "\x1b[31;7m#").StyledLine(0, 1, 0).Spans[0]
	for y := 0; y < t.oh; y++ {
		cells, _ := toCells(outer.StyledLine(0, t.ow, y).Spans, w.sc.Mode == 1)
		for x, c := range cells {
			in := false
			for _, r := range t.drawn {
				in = in || y >= r.Y && y < r.Y2 && x < r.X2 && x+int(c.W) > r.X
			}
			if !in && (c.T != "#" || c.S != bg.Style) {
				w.report(&Viol{Cat: "tty", Msg: fmt.Sprintf("attached to region %v it wrote %q at %d,%d", t.region, c.T, x, y)})
				return
			}
		}
	}
	if t.focus != 1 {
		return
	}
	in := termemu.VerifActive(w.term).Cursor
	show := true
	for _, e := range w.front.events {
		if e.Kind == 'f' && e.Id == vfShow {
			show = e.Val == 1
		}
	}
	r := t.region
	show = show && in.X >= r.X && in.X < r.X2 && in.Y >= r.Y && in.Y < r.Y2
	oc := termemu.VerifActive(outer).Cursor
	vis := outer.(viewGetter).GetViewFlag(termemu.VFShowCursor)
	if vis != show {
		w.report(&Viol{Cat: "tty", Msg: fmt.Sprintf("outer cursor visible: %v, should be %v (inner cursor %v, region %v)", vis, show, in, r)})
	} else if show && oc != in {
		w.report(&Viol{Cat: "tty", Msg: fmt.Sprintf("outer cursor at %v, inner cursor at %v", oc, in)})
	}
}
