package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"regexp"
	"slices"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/ricochet1k/termemu"
)

// World is one simulated execution: a real terminal, a simulated backend and
// frontend, and the tasks that use them.
type World struct {
	sc     *Scenario
	k      *Kernel
	term   termemu.Terminal
	lock   *termemu.VerifLock
	be     *SimBackend
	tee    *termemu.TeeBackend
	front  *Front
	tty    *ttyWorld
	proxy  *frontProxy // the frontend in use
	pty    *ptyBackend
	stream []byte
	start  []int // of each token in the stream
	units  []Unit
	cands  []*Model
	loop   *Task
	st     *Stats

	mirrorOn   bool
	boundaries int
	trace      uint64

	opLocks  map[*Task]*opRun
	setSizes []setSizeRec
	tees     []*teeSink
	teeHist  []teeSet
	ansi     []ansiShot
	snaps    []*Snap // for twins
	snapOn   bool
	raw      bool   // no model is compared
	track    *Model // follows the stream in twins
	midWide  bool
	finalObs *Obs

	resizes int
}

type setSizeRec struct {
	t    *Task
	w, h int
}

type teeSink struct {
	w    *World
	data []byte
	id   int
	last int
}

type teeSet struct{ from, to, id int } // steps between which SetTee(id) ran

type opRun struct {
	o       *Op
	locks   int
	modes   []modeState
	applied bool // resize seen
	start   int  // backend write call index at the start
}

// modeState is what the encoding of keys and mouse reports depends on.
type modeState struct {
	kbd, mok   int
	appCursor  bool
	appKeypad  bool
	mouse, enc int
}

func (m *Model) modes() modeState {
	return modeState{m.kbd[m.alt].flags, m.ints[viMOK], m.flags[vfAppCursor], m.flags[vfAppKeypad], m.ints[viMouseMode], m.ints[viMouseEnc]}
}

var errSim = errors.New("simulated I/O error")

// errors real descriptors, pipes and connections report
var simErrs = []error{errSim, errSim, syscall.EIO, os.ErrClosed, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, io.ErrNoProgress}
var writeErrs = []error{errSim, errSim, io.ErrShortWrite, syscall.EIO, syscall.EPIPE, io.ErrClosedPipe, io.EOF, os.ErrDeadlineExceeded, syscall.ENOSPC}

type wrec struct {
	t       *Task
	loop    bool
	data    []byte // accepted
	offered int
	err     bool
	zero    bool
}

// SimBackend is the simulated application side.
type SimBackend struct {
	w      *World
	cuts   map[int]bool
	zero   map[int]int
	pos    int
	ended  int // 1: an error was returned with data, 2: without
	extra  int
	reads  int
	faults map[int]WFault
	writes []wrec
	chunks [][2]int
	rstep  []int // step at which each chunk was returned
	estep  []int // step of the read after it
}

func (b *SimBackend) Read(p []byte) (int, error) {
	w := b.w
	k := w.k
	k.guard("Read")
	if k.aborted {
		k.bail()
	}
	if w.loop == nil {
		w.loop = k.cur
	} else if k.cur != w.loop {
		k.fail("bytes", "the backend is read by task %s", k.cur.name)
	}
	if k.holds(w.lock) {
		k.fail("lock", "the terminal lock is held while waiting for input")
	}
	if len(b.estep) < len(b.chunks) {
		b.estep = append(b.estep, k.steps)
	}
	if b.ended > 0 {
		b.extra++
		if w.sc.Prop == "C01" {
			if b.extra > 200 {
				k.fail("hang", "reads go on after the backend reported an error")
			}
		} else if b.ended == 2 || b.extra > 1 {
			k.fail("bytes", "read after the backend reported an error")
		}
		return 0, io.EOF
	}
	w.atBoundary()
	k.yield(yRead)
	if w.sc.Quiet && k.noYield == 0 && !w.opsQuiet() {
		w.st.Fault("silent_application")
		k.cur.until = w.opsQuiet
		k.block(k.cur)
		w.loop.until = nil
	}
	w.st.Reads++
	if b.zero[b.pos] > 0 {
		b.zero[b.pos]--
		w.st.Fault("empty_read")
		return 0, nil
	}
	if len(p) == 0 {
		return 0, nil
	}
	if b.pos >= len(w.stream) {
		b.ended = 2
		if strings.HasSuffix(w.sc.End, "err") {
			w.st.Fault("read_error")
			return 0, simErrs[w.sc.Seed%uint64(len(simErrs))]
		}
		return 0, io.EOF
	}
	end := b.pos + 1
	for end < len(w.stream) && !b.cuts[end] {
		end++
	}
	n := end - b.pos
	if n > len(p) {
		n = len(p)
		if w.sc.Mode == 1 {
			n = w.clusterCut(b.pos, n)
		}
		w.st.Fault("short_buffer")
	} else if w.sc.Mode == 1 && n > 4000 {
		n = w.clusterCut(b.pos, 4000)
	}
	copy(p, w.stream[b.pos:b.pos+n])
	for i := n; i < len(p) && i < n+40; i++ {
		p[i] = 'Z' // a Read may use all of p as scratch space
	}
	b.chunks = append(b.chunks, [2]int{b.pos, b.pos + n})
	b.pos += n
	b.rstep = append(b.rstep, k.steps)
	if b.pos >= len(w.stream) && strings.HasPrefix(w.sc.End, "data") {
		b.ended = 1
		w.st.Fault("data_with_error")
		if w.sc.End == "dataerr" {
			return n, simErrs[w.sc.Seed%uint64(len(simErrs))]
		}
		return n, io.EOF
	}
	return n, nil
}

// clusterCut returns the largest number of bytes <= n after pos that does not
// end inside a character.
func (w *World) clusterCut(pos, n int) int {
	best := 0
	for i := range w.units {
		u := &w.units[i]
		if u.End > pos+n {
			if u.Kind != uText && u.Start < pos+n {
				return n // inside an escape sequence
			}
			break
		}
		if u.End > pos {
			best = u.End - pos
		}
	}
	if best == 0 {
		return n
	}
	return best
}

func (b *SimBackend) Write(p []byte) (int, error) {
	w := b.w
	k := w.k
	k.guard("Write")
	if k.aborted {
		k.bail()
	}
	k.yield(yWrite)
	w.st.Writes++
	rec := wrec{t: k.cur, loop: k.cur == w.loop, offered: len(p)}
	if len(b.writes) > 0 {
		last := &b.writes[len(b.writes)-1]
		if last.t != k.cur && !last.err && !last.zero && len(last.data) < last.offered {
			k.fail("mix", "task %s writes in the middle of a message by task %s", k.cur.name, last.t.name)
		}
	}
	n, err := len(p), error(nil)
	if f, ok := b.faults[len(b.writes)]; ok {
		if f.N < n {
			n = f.N
		}
		switch f.Kind {
		case "err":
			err = writeErrs[(w.sc.Seed+uint64(f.Call))%uint64(len(writeErrs))]
			rec.err = true
		case "zero":
			n = 0
			rec.zero = true
		default:
			if n == 0 {
				n = 1
			}
			if n > len(p) {
				n = len(p)
			}
		}
		w.st.Fault("write_" + f.Kind)
	}
	rec.data = append([]byte(nil), p[:n]...)
	b.writes = append(b.writes, rec)
	k.yield(yWrite)
	return n, err
}

func (b *SimBackend) SetSize(w, h int) error {
	k := b.w.k
	k.guard("SetSize")
	if k.aborted {
		k.bail()
	}
	b.w.setSizes = append(b.w.setSizes, setSizeRec{k.cur, w, h})
	k.yield(yOther)
	return nil
}

func (s *teeSink) Write(p []byte) (int, error) {
	w := s.w
	k := w.k
	k.guard("tee write")
	if k.aborted {
		k.bail()
	}
	b := w.be
	if len(b.chunks) == 0 {
		k.fail("tee", "tee written before any read")
		return len(p), nil
	}
	i := len(b.chunks) - 1
	c := b.chunks[i]
	if s.last == i+1 || string(p) != string(w.stream[c[0]:c[1]]) {
		k.fail("tee", "tee %d gets %q for read %d of %q (previously given read %d)", s.id, p, i, w.stream[c[0]:c[1]], s.last-1)
	}
	s.last = i + 1
	s.data = append(s.data, byte(i), byte(i>>8))
	k.yield(yWrite)
	switch (w.sc.Seed/8 + uint64(i)) % 12 {
	case 0:
		w.st.Fault("tee_error")
		return 0, writeErrs[w.sc.Seed%uint64(len(writeErrs))]
	case 1:
		w.st.Fault("tee_short_write")
		return len(p) / 2, io.ErrShortWrite
	case 2:
		w.st.Fault("tee_short_write")
		return len(p) / 2, nil
	}
	return len(p), nil
}

// Front records callbacks and keeps a mirror that re-reads only what is
// announced.
type Front struct {
	w        *World
	events   []MEvent
	mirror   [][]RCell
	fuzzy    []bool
	mw, mh   int
	cur      termemu.Pos
	style    termemu.Style
	styleSet bool
	flags    [6]bool
	ints     [3]int
	strs     [3]string
	scrolled [][]termemu.Span
	calls    int
	regions  int
	id       int
}

func (f *Front) enter(name string) bool {
	w := f.w
	w.k.guard(name)
	f.calls++
	if w.k.aborted {
		return false
	}
	if w.k.noYield > 0 && w.term == nil {
		return false // being constructed
	}
	if w.k.noYield == 0 && !w.k.holds(w.lock) {
		w.k.fail("lock", "%s is called without the terminal lock", name)
	}
	w.k.callbackYield()
	return true
}

func (f *Front) Bell() {
	if !f.enter("Bell") {
		return
	}
	f.events = append(f.events, MEvent{Kind: 'b'})
	if t := f.w.tty; t != nil {
		t.fe.Bell()
	}
}

func (f *Front) RegionChanged(r termemu.Region, c termemu.ChangeReason) {
	if !f.enter("RegionChanged") {
		return
	}
	f.regions++
	w := f.w
	if w.mirrorOn {
		f.refresh(r)
	}
	if w.tty != nil {
		w.tty.fe.RegionChanged(r, c)
	}
}

func (f *Front) refresh(r termemu.Region) {
	sw, sh := f.w.term.Size()
	if sw < 1 || sh < 1 {
		return
	}
	if sw != f.mw || sh != f.mh {
		m := make([][]RCell, sh)
		fz := make([]bool, sh)
		for y := range m {
			m[y] = make([]RCell, sw)
			if y < f.mh {
				copy(m[y], f.mirror[y])
				fz[y] = f.fuzzy[y]
			}
		}
		f.mirror, f.fuzzy, f.mw, f.mh = m, fz, sw, sh
	}
	if r.X < 0 || r.Y < 0 || r.X2 > sw || r.Y2 > sh {
		f.w.k.fail("mirror", "RegionChanged(%v) announces cells outside the %dx%d screen", r, sw, sh)
	}
	x1, x2 := clampI(r.X, 0, sw), clampI(r.X2, 0, sw)
	y1, y2 := clampI(r.Y, 0, sh), clampI(r.Y2, 0, sh)
	var all []termemu.Line
	if f.w.sc.Seed&4 != 0 && x1 < x2 && y1 < y2 { // in one call
		all = f.w.term.StyledLines(termemu.Region{X: x1, Y: y1, X2: x2, Y2: y2})
		if len(all) != y2-y1 {
			f.w.k.fail("mirror", "StyledLines of rows %d..%d returned %d lines", y1, y2, len(all))
			all = nil
		}
	}
	for y := y1; y < y2; y++ {
		if x1 >= x2 {
			break
		}
		var line termemu.Line
		if all != nil {
			line = all[y-y1]
		} else {
			line = f.w.term.StyledLine(x1, x2-x1, y)
		}
		cells, ok := toCells(line.Spans, f.w.sc.Mode == 1)
		if !ok || len(cells) != x2-x1 {
			f.fuzzy[y] = true
			continue
		}
		if x1 == 0 && x2 == sw {
			f.fuzzy[y] = false
		}
		copy(f.mirror[y][x1:x2], cells)
	}
}

func (f *Front) ScrollLines(n int) {
	if !f.enter("ScrollLines") {
		return
	}
	w := f.w
	sw, sh := w.term.Size()
	if termemu.VerifOnAlt(w.term) {
		w.k.fail("scrollback", "ScrollLines(%d) for the alternate screen", n)
	}
	if n < 0 || n > sh {
		w.k.fail("scrollback", "ScrollLines(%d) on a screen of %d rows", n, sh)
		n = clampI(n, 0, sh)
	}
	for y := 0; y < n; y++ {
		f.scrolled = append(f.scrolled, append([]termemu.Span(nil), w.term.StyledLine(0, sw, y).Spans...))
	}
	if w.tty != nil {
		w.tty.fe.ScrollLines(n)
	}
}

func (f *Front) CursorMoved(x, y int) {
	if !f.enter("CursorMoved") {
		return
	}
	f.cur = termemu.Pos{X: x, Y: y}
	sw, sh := f.w.term.Size()
	if x < 0 || y < 0 || x >= sw || y >= sh {
		f.w.k.fail("struct", "CursorMoved(%d,%d) on a %dx%d screen", x, y, sw, sh)
	}
	if f.w.tty != nil {
		f.w.tty.fe.CursorMoved(x, y)
	}
}

func (f *Front) StyleChanged(s termemu.Style) {
	if !f.enter("StyleChanged") {
		return
	}
	f.style, f.styleSet = s, true
	if f.w.tty != nil {
		f.w.tty.fe.StyleChanged(s)
	}
}

func (f *Front) ViewFlagChanged(id termemu.ViewFlag, v bool) {
	if !f.enter("ViewFlagChanged") {
		return
	}
	for i, x := range flagIDs {
		if x == id {
			n := 0
			if v {
				n = 1
			}
			f.flags[i] = v
			if !laxView(f.w.lax(), 'f', i) {
				f.events = append(f.events, MEvent{Kind: 'f', Id: i, Val: n})
			}
		}
	}
	if f.w.tty != nil {
		f.w.tty.fe.ViewFlagChanged(id, v)
	}
}

func (f *Front) ViewIntChanged(id termemu.ViewInt, v int) {
	if !f.enter("ViewIntChanged") {
		return
	}
	for i, x := range intIDs {
		if x == id {
			f.ints[i] = v
			if !laxView(f.w.lax(), 'i', i) {
				f.events = append(f.events, MEvent{Kind: 'i', Id: i, Val: v})
			}
		}
	}
}

func (f *Front) ViewStringChanged(id termemu.ViewString, v string) {
	if !f.enter("ViewStringChanged") {
		return
	}
	for i, x := range strIDs {
		if x == id {
			f.strs[i] = v
			f.events = append(f.events, MEvent{Kind: 's', Id: i, Str: v})
		}
	}
}

// newWorld builds the execution described by sc. wrap may replace the
// scenario's cuts (for the one-read reference).
func newWorld(sc *Scenario, st *Stats) *World {
	w := &World{sc: sc, st: st, opLocks: map[*Task]*opRun{}, trace: 1469598103934665603}
	w.k = NewKernel(sc.Sched, false)
	w.be = &SimBackend{w: w, cuts: map[int]bool{}, zero: map[int]int{}, faults: map[int]WFault{}}
	for _, t := range sc.Tokens {
		w.start = append(w.start, len(w.stream))
		for _, c := range t.Cuts {
			if c >= 0 && c <= len(t.B) {
				w.be.cuts[len(w.stream)+c] = true
			}
		}
		if t.Zero > 0 {
			w.be.zero[len(w.stream)] += t.Zero
			w.be.cuts[len(w.stream)] = true
		}
		w.stream = append(w.stream, t.B...)
	}
	for _, f := range sc.WF {
		w.be.faults[f.Call] = f
	}
	w.mirrorOn = (sc.Prop == "C10" || sc.Prop == "C20" || sc.Seed%4 == 0) &&
		!(sc.Raw && sc.Grid && sc.Mode == 1) // text that combines with the blanks after it
	w.raw = sc.Raw || sc.Kind == "diff" || sc.Kind == "twin"
	w.units = parseUnits(w.stream, sc.Mode == 1)
	if sc.Mode == 1 && !sc.Raw {
		w.fixCuts()
	}
	w.front = &Front{w: w}
	return w
}

// fixCuts drops cuts that fall inside a character, which grapheme mode does not
// promise to survive.
func (w *World) fixCuts() {
	for i := range w.units {
		u := &w.units[i]
		if u.Kind != uText {
			continue
		}
		for p := u.Start + 1; p < u.End; p++ {
			delete(w.be.cuts, p)
		}
	}
}

func (w *World) tokAt(pos int) int {
	for i := len(w.start) - 1; i >= 0; i-- {
		if w.start[i] < pos {
			return i
		}
	}
	return 0
}

func (w *World) setup() {
	k := w.k
	k.noYield++
	var be termemu.Backend = w.be
	switch w.sc.Kind {
	case "nopty":
		be = termemu.NewNoPTYBackend(w.be, w.be)
	case "pty":
		w.pty = newPTY(w)
		be = w.pty
	}
	if w.sc.Tee {
		w.tee = termemu.NewTeeBackend(be)
		be = w.tee
	}
	mode := termemu.TextReadModeRune
	if w.sc.Mode == 1 {
		mode = termemu.TextReadModeGrapheme
	}
	w.proxy = &frontProxy{f: w.front}
	w.term = termemu.VerifNew(w.proxy, be, mode, w.sc.Grid)
	w.lock = termemu.VerifLockOf(w.term)
	if w.sc.TTY {
		w.tty = newTTYWorld(w)
	}
	if !w.sc.NoSize {
		w.term.Resize(w.sc.W, w.sc.H)
	}
	sw, sh := w.term.Size()
	if w.sc.NoSize && w.tty != nil {
		w.tty.ow, w.tty.oh = max(w.tty.ow, sw), max(w.tty.oh, sh)
	}
	if w.sc.NoSize { // what a frontend reads when it starts
		w.front.refresh(termemu.Region{X2: sw, Y2: sh})
	}
	if sc := w.sc; sc.Kind == "twin" && !sc.Raw {
		w.track = NewModel(sw, sh, sc.Mode == 1, sc.Grid)
	}
	if !w.raw {
		w.cands = []*Model{NewModel(sw, sh, w.sc.Mode == 1, w.sc.Grid)}
		w.cands[0].lax = w.lax()
	}
	w.setSizes = w.setSizes[:0]
	k.ready = func(t *Task) bool { return w.be.pos >= t.cond-1 || (w.loop != nil && w.loop.done) }
	k.onLocked = w.onLocked
	k.onUnlock = w.onUnlock
	// one task per actor
	actors := map[int][]*Op{}
	var order []int
	for i := range w.sc.Ops {
		o := &w.sc.Ops[i]
		if _, ok := actors[o.Actor]; !ok {
			order = append(order, o.Actor)
		}
		actors[o.Actor] = append(actors[o.Actor], o)
	}
	for _, a := range order {
		ops := actors[a]
		var t *Task
		t = k.newTask(fmt.Sprintf("op%d", a), func() {
			for _, o := range ops {
				t.cond = 0
				w.waitFor(t, o)
				w.runOp(t, o)
			}
		})
		t.isOp = true
		if len(ops) > 0 {
			t.cond = 1 + w.trigger(ops[0])
		}
	}
	if w.sc.Near != nil {
		w.st.Probe("runs_with_another_terminal")
		w.sc.Near.start(k)
	}
	k.noYield--
}

func (w *World) lax() string {
	if w.sc.Quiet {
		return w.sc.Prop
	}
	return ""
}

func (w *World) trigger(o *Op) int {
	p := len(w.stream)
	if o.Tok < len(w.start) {
		p = w.start[o.Tok] + o.Off
	}
	if p > len(w.stream) {
		p = len(w.stream)
	}
	return p
}

func (w *World) waitFor(t *Task, o *Op) {
	t.cond = 1 + w.trigger(o)
	if !w.k.ready(t) {
		w.k.block(t)
	}
	t.cond = 0
	w.k.yield(yOp)
}

// opsQuiet reports whether every operation that is due has returned.
func (w *World) opsQuiet() bool {
	for _, t := range w.k.tasks {
		if t.isOp && !t.done && (t.cond == 0 || w.k.ready(t)) {
			return false
		}
	}
	return true
}

func (w *World) lockFree() bool {
	return w.k.lockOf(w.lock).owner == nil
}

// ready reports whether all bytes of the next unit of m have been delivered.
func (w *World) canApply(m *Model) bool {
	return m.unit < len(w.units) && w.units[m.unit].Ready <= w.be.pos
}

func (w *World) applyNext(m *Model) {
	m.apply(&w.units[m.unit])
}

func (w *World) matches(o *Obs, m *Model, full bool) *Viol {
	if v := o.compare(m, full); v != nil {
		return v
	}
	return w.matchEvents(m)
}

func (w *World) matchEvents(m *Model) *Viol {
	have, want := w.front.events, m.events
	for i := m.evOK; i < len(have) && i < len(want); i++ {
		x := want[i]
		if x.Kind == 'i' {
			x.Val = intVal(x.Id, x.Val)
		}
		if have[i] != x {
			return &Viol{Cat: evCat(x, have[i]), Msg: fmt.Sprintf("notification %d: have %v, want %v", i, have[i], x)}
		}
	}
	if len(have) < len(want) {
		return &Viol{Cat: evCat(want[len(have)], want[len(have)]), Msg: fmt.Sprintf("notification %v is missing", want[len(have)])}
	}
	if len(have) > len(want) {
		return &Viol{Cat: evCat(have[len(want)], have[len(want)]), Msg: fmt.Sprintf("unexpected notification %v", have[len(want)])}
	}
	m.evOK = len(want)
	return nil
}

func evCat(a, b MEvent) string {
	if a.Kind == 's' || b.Kind == 's' {
		return "viewstr"
	}
	if a.Kind == 'b' || b.Kind == 'b' {
		return "bell"
	}
	return "viewnote"
}

func (e MEvent) String() string {
	switch e.Kind {
	case 'f':
		return fmt.Sprintf("ViewFlagChanged(%d,%v)", e.Id, e.Val == 1)
	case 'i':
		return fmt.Sprintf("ViewIntChanged(%d,%d)", e.Id, e.Val)
	case 's':
		return fmt.Sprintf("ViewStringChanged(%d,%q)", e.Id, e.Str)
	}
	return "Bell()"
}

func (w *World) report(v *Viol) {
	if w.k.viol == nil && v != nil {
		v.Tok = w.tokAt(w.be.pos)
		v.Step = w.k.steps
		for _, m := range w.cands {
			if m.scrollN > 0 && v.Hints == "" {
				v.Hints = "scroll"
			}
		}
		w.k.viol = v
	}
}

// atBoundary is called when the loop asks for more input: everything delivered
// must have taken effect.
func (w *World) atBoundary() {
	k := w.k
	if k.viol != nil || !w.lockFree() {
		return
	}
	w.boundaries++
	o := observe(w.term)
	if w.raw {
		for i := 0; i < 2; i++ {
			if v := o.structural(i); v != nil {
				w.report(v)
				return
			}
		}
		w.takeSnap(o)
		w.checkNotified(o)
		return
	}
	// a huge screen is compared now and then
	if n := o.buf[0].Size; n.X*n.Y > 1200 && len(w.cands) == 1 && !w.sc.Dense && w.boundaries%min(n.X*n.Y/400, 60) != 0 {
		o.lite = true
	}
	w.settle(o, w.sc.Dense || w.boundaries%3 == 0)
	if k.viol != nil {
		return
	}
	w.checkNotified(o)
	w.takeSnap(o)
	if w.tty != nil && !o.lite && (w.boundaries%7 == 0 || w.sc.Dense) {
		w.tty.check()
	}
	m := w.cands[0]
	w.midWide = w.midWide || m.midWide
	if o.lite {
		w.trace = hashU(w.trace, uint64(m.s().cx)<<32|uint64(m.s().cy))
		return
	}
	w.trace = hashU(w.trace, m.hash())
	w.st.State(w.trace)
}

// takeSnap records a picture for twins, until a write starts on the second half
// of a wide character.
func (w *World) takeSnap(o *Obs) {
	if !w.snapOn {
		return
	}
	if m := w.track; m != nil {
		for w.canApply(m) {
			w.applyNext(m)
		}
		if m.midWide {
			w.midWide, w.snapOn = true, false
			return
		}
	}
	s := o.snap()
	s.tok, s.evN, s.scN = w.tokAt(w.be.pos), len(w.front.events), len(w.front.scrolled)
	w.snaps = append(w.snaps, s)
}

// settle advances every candidate over everything delivered and keeps those
// that agree with what is seen.
func (w *World) settle(o *Obs, full bool) {
	var first *Viol
	var keep []*Model
	for _, m := range w.cands {
		for w.canApply(m) {
			w.applyNext(m)
		}
		v := w.matches(o, m, full)
		if v == nil {
			v = w.matchScrolled(m)
		}
		if v == nil {
			v = w.matchReplies(m)
		}
		if v == nil {
			keep = append(keep, m)
		} else if first == nil {
			first = v
		}
	}
	if len(keep) == 0 {
		if first == nil {
			first = &Viol{Cat: "half", Msg: "no state of the model matches"}
		}
		w.report(first)
		return
	}
	if len(keep) > 1 { // equal positions and states: one is enough, unless hidden state differs
		keep = dedupe(keep)
	}
	w.cands = keep
}

func dedupe(ms []*Model) []*Model {
	seen := map[uint64]bool{}
	var out []*Model
	for _, m := range ms {
		h := m.fullHash()
		if !seen[h] {
			seen[h] = true
			out = append(out, m)
		}
	}
	return out
}

// fullHash covers position, visible and hidden state.
func (m *Model) fullHash() uint64 {
	h := hashU(m.hash(), uint64(m.unit))
	for _, s := range m.scr {
		h = hashU(h, uint64(s.sx)<<16|uint64(s.sy))
	}
	h = hashU(h, m.histHash())
	for _, kb := range m.kbd {
		for _, f := range kb.stack {
			h = hashU(h, uint64(f))
		}
	}
	return h
}

// tooMany gives up the comparison when the screen cannot tell where in the
// stream the loop is (a long run of text that leaves no trace).
func (w *World) tooMany() {
	n := 0
	if len(w.cands) > 8 {
		s := w.cands[0].s()
		n = len(w.cands) * s.w * s.h
	}
	if len(w.cands) > 400 || n > 250000 {
		w.st.Probe("gave_up_ambiguous_position")
		w.cands = w.cands[:1]
		w.raw = true
	}
}

func hashSpans(spans []termemu.Span) uint64 {
	h := uint64(len(spans))
	for i := range spans {
		sp := &spans[i]
		si := decodeStyle(sp.Style)
		h = hashU(hashS(h, sp.Text), uint64(sp.Rune)<<32|uint64(sp.Width))
		h = hashU(hashU(hashS(h, si.bad), uint64(si.ms.FG)<<32|uint64(si.ms.BG)), uint64(si.ms.Modes))
	}
	return h
}

// matchScrolled matches the rows announced since the last match with the rows
// scrolled off since then.
func (w *World) matchScrolled(m *Model) *Viol {
	have, want := w.front.scrolled[m.scHave:], m.scrolled[m.scOK:]
	done := func() *Viol {
		m.scHave, m.scOK = len(w.front.scrolled), len(m.scrolled)
		return nil
	}
	if len(have) == len(want) {
		ok := true
		for i := range want {
			if cat, _ := compareRow(want[i].Cells, have[i]); cat != "" {
				ok = false
				break
			}
		}
		if ok {
			return done()
		}
	}
	// rows whose announcement is optional may be missing
	n, k := len(want), len(have)
	all := true
	for i := range want {
		all = all && want[i].Opt
	}
	if all && k == 0 {
		return done()
	}
	memo := map[[2]uint64]bool{}
	hh := make([]uint64, k)
	for j := range have {
		hh[j] = hashSpans(have[j])
	}
	poss := make([]bool, k+1)
	poss[0] = true
	for i := 0; i < n; i++ {
		next := make([]bool, k+1)
		for j := 0; j <= k; j++ {
			if !poss[j] {
				continue
			}
			if want[i].Opt {
				next[j] = true
			}
			if j < k {
				eq, ok := memo[[2]uint64{want[i].H, hh[j]}]
				if !ok {
					cat, _ := compareRow(want[i].Cells, have[j])
					eq = cat == ""
					memo[[2]uint64{want[i].H, hh[j]}] = eq
				}
				if eq {
					next[j+1] = true
				}
			}
		}
		poss = next
	}
	if poss[k] {
		return done()
	}
	msg := fmt.Sprintf("%d rows announced by ScrollLines, %d rows were scrolled off", k, n)
	for i := 0; i < n && i < k; i++ {
		if cat, d := compareRow(want[i].Cells, have[i]); cat != "" {
			msg += fmt.Sprintf("; row %d: %s", i, d)
			break
		}
	}
	return &Viol{Cat: "scrollback", Msg: msg}
}

// matchReplies checks everything the read loop has written.
func (w *World) matchReplies(m *Model) *Viol {
	var calls []wrec
	for _, r := range w.be.writes {
		if r.loop {
			calls = append(calls, r)
		}
	}
	if len(calls) == 0 && len(m.replies) == 0 {
		return nil
	}
	if matchMessages(calls, m.replies) {
		return nil
	}
	var got []string
	for _, c := range calls {
		s := fmt.Sprintf("%q", c.data)
		if c.err {
			s += "+error"
		}
		got = append(got, s)
	}
	return &Viol{Cat: "reply", Msg: fmt.Sprintf("written: %v, replies due: %q", got, m.replies)}
}

// matchMessages decides whether calls deliver the messages in order, each whole
// unless a fault stopped it.
func matchMessages(calls []wrec, msgs []string) bool {
	if len(msgs) == 0 {
		return len(calls) == 0
	}
	rest := msgs[0]
	for i, c := range calls {
		if !strings.HasPrefix(rest, string(c.data)) {
			return false
		}
		rest = rest[len(c.data):]
		if rest == "" {
			return matchMessages(calls[i+1:], msgs[1:])
		}
		if c.err {
			return matchMessages(calls[i+1:], msgs[1:])
		}
		if c.zero && matchMessages(calls[i+1:], msgs[1:]) {
			return true
		}
	}
	return false
}

// checkNotified compares what the frontend was last told, and its mirror, with
// what is.
func (w *World) checkNotified(o *Obs) {
	f := w.front
	b := o.buf[0]
	if f.cur != b.Cursor {
		w.report(&Viol{Cat: "notifcursor", Msg: fmt.Sprintf("the frontend was last told the cursor is at %v; it is at %v", f.cur, b.Cursor)})
	}
	if f.styleSet && f.style != b.Style {
		w.report(&Viol{Cat: "notifstyle", Msg: fmt.Sprintf("the frontend was last told the rendition is %v; it is %v", decodeStyle(f.style).ms, decodeStyle(b.Style).ms)})
	}
	if f.flags != o.flags || f.ints != o.ints || f.strs != o.strs {
		w.report(&Viol{Cat: "viewnote", Msg: fmt.Sprintf("the frontend was last told %v %v %q; the terminal has %v %v %q", f.flags, f.ints, f.strs, o.flags, o.ints, o.strs)})
	}
	if w.mirrorOn && !o.lite {
		w.checkMirror(o)
	}
}

func (w *World) checkMirror(o *Obs) {
	f := w.front
	o.load(0)
	size := o.buf[0].Size
	if f.mw != size.X || f.mh != size.Y {
		w.report(&Viol{Cat: "mirror", Msg: fmt.Sprintf("the mirror is %dx%d, the screen %v", f.mw, f.mh, size)})
		return
	}
	for y := 0; y < size.Y; y++ {
		if f.fuzzy[y] {
			continue
		}
		cells, ok := toCells(o.rows[0][y], w.sc.Mode == 1)
		if !ok {
			continue
		}
		for x := range cells {
			if x < len(f.mirror[y]) && cells[x] != f.mirror[y][x] {
				w.report(&Viol{Cat: "mirror", Msg: fmt.Sprintf("row %d column %d changed unannounced: the frontend has %q %v, the screen %q %v", y, x,
					f.mirror[y][x].T, decodeStyle(f.mirror[y][x].S).ms, cells[x].T, decodeStyle(cells[x].S).ms)})
				return
			}
		}
	}
}

// onLocked is called when a task has got a lock.
func (w *World) onLocked(t *Task, l *termemu.VerifLock) {
	if l != w.lock || !t.isOp || w.k.viol != nil {
		return
	}
	r := w.opLocks[t]
	if r == nil {
		return
	}
	r.locks++
	if w.raw {
		return
	}
	w.resync(r.o.Kind)
	r.modes = r.modes[:0]
	for _, m := range w.cands {
		r.modes = append(r.modes, m.modes())
	}
}

// resync finds the positions in the stream whose state is the one visible now.
func (w *World) resync(why string) {
	o := observe(w.term)
	var keep []*Model
	var first *Viol
	seen := map[uint64]bool{}
	size := 0
	for _, m := range w.cands {
		for {
			v := w.matches(o, m, false)
			if v == nil {
				h := m.fullHash()
				if seen[h] {
					break // the rest is the same, too
				}
				seen[h] = true
				keep = append(keep, m.clone())
				if size += m.s().w * m.s().h; size > 300000 && len(keep) > 8 {
					w.cands = keep
					w.tooMany()
					return
				}
			}
			if v != nil && (first == nil || !w.canApply(m)) {
				first = v
			}
			if !w.canApply(m) {
				break
			}
			w.applyNext(m)
		}
	}
	if len(keep) == 0 {
		if !w.lockIsQuiet() || len(w.cands) == 0 {
			first = &Viol{Cat: "half", Msg: fmt.Sprintf("a task holding the lock (%s) sees a state that is between two units of input: %v", why, first)}
		}
		w.report(first)
		return
	}
	w.st.Resyncs++
	w.cands = keep
	w.tooMany()
}

// lockIsQuiet reports whether the loop is waiting for input, so that what is
// visible must be the result of everything delivered.
func (w *World) lockIsQuiet() bool {
	return len(w.be.estep) == len(w.be.chunks)
}

func (w *World) onUnlock(t *Task, l *termemu.VerifLock) {
	if l != w.lock || w.k.viol != nil {
		return
	}
	b := termemu.VerifActive(w.term)
	if b.Cursor.X < 0 || b.Cursor.X >= b.Size.X || b.Cursor.Y < 0 || b.Cursor.Y >= b.Size.Y || b.Top < 0 || b.Bottom >= b.Size.Y || b.Top > b.Bottom {
		w.report(&Viol{Cat: "struct", Msg: fmt.Sprintf("size %v, cursor %v, scroll region %d..%d when the lock is released", b.Size, b.Cursor, b.Top, b.Bottom)})
		return
	}
	if !t.isOp {
		return
	}
	r := w.opLocks[t]
	if r == nil || r.o.Kind != "resize" || r.applied {
		return
	}
	if w.track != nil {
		for w.canApply(w.track) { // twins run operations between reads only
			w.applyNext(w.track)
		}
		w.midWide = w.midWide || w.track.midWide
		w.track.resize(r.o.A[0], r.o.A[1])
		r.applied = true
	}
	if w.raw {
		return
	}
	nw, nh := r.o.A[0], r.o.A[1]
	if len(w.cands) > 8 && len(w.cands)*nw*nh > 250000 {
		w.st.Probe("gave_up_ambiguous_position")
		w.cands = w.cands[:1]
		w.raw = true
		return
	}
	o := observe(w.term)
	var keep, same []*Model
	var first *Viol
	for _, m := range w.cands {
		c := m.clone()
		c.resize(nw, nh)
		if v := w.matches(o, c, true); v == nil {
			keep = append(keep, c)
		} else {
			if first == nil {
				first = v
			}
			if w.matches(o, m, true) == nil {
				same = append(same, m)
			}
		}
	}
	switch {
	case len(keep) > 0:
		w.cands = keep
		r.applied = true
		if w.sc.Seed%2 == 0 {
			w.checkNotified(o)
		}
	case len(same) > 0:
		w.cands = same
	default:
		first.Hints = "resize"
		w.report(first)
	}
}

var stackFn = regexp.MustCompile(`(?m)^github\.com/ricochet1k/termemu\.[^\n]*$`)

func trimStack(b []byte) string {
	var out []string
	for _, l := range stackFn.FindAllString(string(b), 8) {
		if i := strings.LastIndexByte(l, '('); i > 0 {
			l = l[:i]
		}
		out = append(out, strings.TrimPrefix(l, "github.com/ricochet1k/termemu."))
	}
	return strings.Join(out, " < ")
}

// ownPanic reports whether the simulator itself, not the code under test,
// panicked.
func ownPanic(st string) bool {
	i := strings.LastIndex(st, "\npanic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(st[i+1:], "\n")[1:] {
		if l == "" || l[0] == '\t' || strings.HasPrefix(l, "runtime.") {
			continue
		}
		return strings.HasPrefix(l, "main.")
	}
	return false
}

// run executes the scenario and returns the first violation.
func (w *World) run() *Viol {
	w.k.Run(func() { w.setup() })
	if w.k.viol != nil {
		if w.k.viol.Tok == 0 {
			w.k.viol.Tok = w.tokAt(w.be.pos)
		}
		return w.k.viol
	}
	w.finish()
	return w.k.viol
}

// finish checks the end state, after all tasks have ended.
func (w *World) finish() {
	defer func() {
		if r := recover(); r != nil {
			w.k.fail("panic", "accessor: panic: %v", r)
		}
	}()
	w.k.noYield = 1
	w.k.aborted = false
	if w.be.pos < len(w.stream) {
		w.report(&Viol{Cat: "stopped", Msg: fmt.Sprintf("the read loop ended after %d of %d bytes", w.be.pos, len(w.stream))})
		return
	}
	o := observe(w.term)
	w.finalObs = o
	for i := 0; i < 2; i++ {
		if v := o.structural(i); v != nil {
			w.report(v)
			return
		}
	}
	if !w.raw {
		// characters cut off by the end of the stream may or may not be drawn
		var alts []*Model
		for _, m := range w.cands {
			for w.canApply(m) {
				w.applyNext(m)
			}
			alts = append(alts, m)
			for c := m; c.unit < len(w.units); {
				c = c.clone()
				w.applyNext(c)
				alts = append(alts, c)
			}
		}
		w.cands = alts
		w.settle(o, true)
		if w.k.viol != nil {
			return
		}
	}
	w.checkNotified(o)
	w.takeSnap(o)
	if v := o.accessors(); v != nil {
		w.report(v)
		return
	}
	w.sweep(o)
	w.checkTees()
	w.checkSizes()
	if w.tty != nil {
		w.tty.check()
	}
	for i := range w.ansi {
		if v := w.ansi[i].check(); v != nil {
			w.report(v)
			return
		}
	}
	if w.k.viol != nil && w.k.viol.Tok == 0 {
		w.k.viol.Tok = w.tokAt(w.be.pos)
	}
}

// sweep calls the accessors for sub-ranges of rows.
func (w *World) sweep(o *Obs) {
	r := NewRng(w.sc.Seed ^ 0x77)
	size := o.buf[0].Size
	for i := 0; i < 8; i++ {
		y := r.N(size.Y)
		x := r.N(size.X)
		n := r.R(0, size.X-x)
		line := w.term.StyledLine(x, n, y)
		sum := 0
		for _, sp := range line.Spans {
			if sp.Width <= 0 {
				w.report(&Viol{Cat: "struct", Msg: fmt.Sprintf("StyledLine(%d,%d,%d) has a span of width %d", x, n, y, sp.Width)})
				return
			}
			sum += sp.Width
		}
		if sum != n {
			w.report(&Viol{Cat: "struct", Msg: fmt.Sprintf("StyledLine(%d,%d,%d) spans %d columns", x, n, y, sum)})
			return
		}
		if !w.raw && len(w.cands) == 1 {
			m := w.cands[0]
			row := append([]Cell(nil), m.s().rows[y][x:x+n]...)
			// spaces stand in for characters cut at the edges
			for j := 0; j < n && row[j].W == 0; j++ {
				row[j].T, row[j].W = " ", 1
			}
			for j := n - 1; j >= 0; j-- {
				if row[j].W != 0 {
					if j+int(row[j].W) > n {
						for q := j; q < n; q++ {
							row[q].T, row[q].W = " ", 1
						}
					}
					break
				}
			}
			if n > 0 {
				if cat, msg := compareRow(row, line.Spans); cat != "" {
					w.report(&Viol{Cat: "subline", Msg: fmt.Sprintf("StyledLine(%d,%d,%d): %s", x, n, y, msg)})
					return
				}
			}
		}
	}
	y := r.N(size.Y)
	y2 := r.R(y, size.Y)
	x, n := r.N(size.X), 0
	n = r.R(1, size.X-x)
	for i, line := range w.term.StyledLines(termemu.Region{X: x, Y: y, X2: x + n, Y2: y2}) {
		want := canonRow(w.term.StyledLine(x, n, y+i).Spans)
		if got := canonRow(line.Spans); line.Width != n || !slices.Equal(got, want) {
			w.report(&Viol{Cat: "struct", Msg: fmt.Sprintf("StyledLines of columns %d..%d: row %d is %v wide and reads %v, StyledLine says %v", x, x+n, y+i, line.Width, got, want)})
			return
		}
	}
	if got := len(w.term.StyledLines(termemu.Region{X: 0, Y: y, X2: size.X, Y2: y2})); got != y2-y {
		w.report(&Viol{Cat: "struct", Msg: fmt.Sprintf("StyledLines of rows %d..%d returned %d lines", y, y2, got)})
	}
}

func (w *World) checkSizes() {
	if w.pty != nil {
		w.pty.check()
	}
	if w.sc.Kind == "nopty" {
		return
	}
	var want []setSizeRec
	for i := range w.sc.Ops {
		if w.sc.Ops[i].Kind == "resize" {
			want = append(want, setSizeRec{w: w.sc.Ops[i].A[0], h: w.sc.Ops[i].A[1]})
		}
	}
	if len(w.setSizes) != len(want) {
		w.report(&Viol{Cat: "setsize", Msg: fmt.Sprintf("%d SetSize calls for %d resizes", len(w.setSizes), len(want))})
	}
}

func (w *World) checkTees() {
	if !w.sc.Tee {
		return
	}
	b := w.be
	for len(b.estep) < len(b.chunks) {
		b.estep = append(b.estep, w.k.steps+1)
	}
	for i := range b.chunks {
		lo, hi := b.rstep[i], b.estep[i]
		// sinks in force at some moment of [lo,hi]
		allowed := map[int]bool{}
		cur := 0
		var pending []int
		for _, h := range w.teeHist {
			switch {
			case h.to <= lo:
				cur = h.id
			case h.from > hi:
			default:
				pending = append(pending, h.id)
			}
		}
		allowed[cur] = true
		for _, id := range pending {
			allowed[id] = true
		}
		got := 0
		for _, s := range w.tees {
			for j := 0; j+1 < len(s.data); j += 2 {
				if int(s.data[j])|int(s.data[j+1])<<8 == i {
					if got != 0 {
						w.report(&Viol{Cat: "tee", Msg: fmt.Sprintf("read %d is teed twice", i)})
						return
					}
					got = s.id
				}
			}
		}
		if !allowed[got] {
			w.report(&Viol{Cat: "tee", Msg: fmt.Sprintf("read %d went to tee %d, allowed %v", i, got, allowed)})
			return
		}
	}
}

func lastRuneComplete(b []byte) bool {
	for i := 1; i <= 3 && i <= len(b); i++ {
		if !utf8.FullRune(b[len(b)-i:]) {
			return false
		}
	}
	return true
}
