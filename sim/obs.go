package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/ricochet1k/termemu"
	"github.com/rivo/uniseg"
)

// What the simulator can see of a real terminal.

type viewGetter interface {
	GetViewFlag(termemu.ViewFlag) bool
	GetViewInt(termemu.ViewInt) int
	GetViewString(termemu.ViewString) string
}

type mouseSender interface {
	SendMouseRaw(btn termemu.MouseBtn, press bool, mods termemu.MouseFlag, x, y int) error
}

var flagIDs = [6]termemu.ViewFlag{vfBlink: termemu.VFBlinkCursor, vfShow: termemu.VFShowCursor, vfFocus: termemu.VFReportFocus,
	vfPaste: termemu.VFBracketedPaste, vfAppCursor: termemu.VFAppCursorKeys, vfAppKeypad: termemu.VFAppKeypad}
var intIDs = [3]termemu.ViewInt{viMouseMode: termemu.VIMouseMode, viMouseEnc: termemu.VIMouseEncoding, viMOK: termemu.VIModifyOtherKeys}
var strIDs = [3]termemu.ViewString{termemu.VSWindowTitle, termemu.VSCurrentDirectory, termemu.VSCurrentFile}

// mouse values the property names, in the emulator's constants
var mouseModes = [5]int{termemu.MMNone, termemu.MMPress, termemu.MMPressRelease, termemu.MMPressReleaseMove, termemu.MMPressReleaseMoveAll}
var mouseEncs = [3]int{termemu.MEX10, termemu.MEUTF8, termemu.MESGR}

func intVal(id, v int) int {
	switch id {
	case viMouseMode:
		return mouseModes[v]
	case viMouseEnc:
		return mouseEncs[v]
	}
	return v
}

type styleInfo struct {
	ms   MStyle // as rendered
	bad  string // renders to something else than it is
	mode uint16 // by TestMode
	col  [2]int // by GetColor
	rgb  [2]bool
}

// like reports whether TestMode and GetColor agree with want.
func (si *styleInfo) like(want MStyle) bool {
	if si.mode != want.Modes {
		return false
	}
	for i, c := range []MColor{want.FG, want.BG} {
		v, rgb := colorVal(c)
		if si.col[i] != v || si.rgb[i] != rgb {
			return false
		}
	}
	return true
}

func colorVal(c MColor) (int, bool) {
	switch c >> 24 {
	case 1:
		return int(c & 0xff), false
	case 2:
		return int(c & 7), false
	case 3:
		return int(c & 0xffffff), true
	}
	return 0, false
}

var styleCache = map[termemu.Style]styleInfo{}

var allModes = []struct {
	m termemu.Mode
	b uint16
}{
	{termemu.ModeBold, smBold}, {termemu.ModeDim, smDim}, {termemu.ModeItalic, smItalic}, {termemu.ModeUnderline, smUnderline},
	{termemu.ModeBlink, smBlink}, {termemu.ModeReverse, smReverse}, {termemu.ModeInvisible, smInvisible}, {termemu.ModeStrike, smStrike},
	{termemu.ModeOverline, smOverline}, {termemu.ModeDoubleUnderline, smDouble}, {termemu.ModeFramed, smFramed},
	{termemu.ModeEncircled, smEncircled}, {termemu.ModeRapidBlink, smRapid},
}

// decodeStyle reads a style through its public interface: the escape sequence
// it renders to (which tells default, indexed, bright and RGB colours apart),
// cross-checked with TestMode and GetColor.
func decodeStyle(st termemu.Style) styleInfo {
	if si, ok := styleCache[st]; ok {
		return si
	}
	var si styleInfo
	esc := st.ANSIEscape()
	rest := esc
	for len(rest) > 0 {
		us := parseUnits(rest, false)
		u := us[0]
		if u.Kind != uCSI || !u.Known || u.B != 'm' || u.Prefix != 0 {
			si.bad = fmt.Sprintf("style renders to %q", esc)
			break
		}
		ps := u.Params
		if len(ps) == 0 {
			ps = []int{0}
		}
		si.ms = foldSGR(si.ms, ps)
		rest = rest[u.End:]
	}
	var modes uint16
	for _, am := range allModes {
		if st.TestMode(am.m) {
			modes |= am.b
		}
	}
	si.mode = modes
	if modes != si.ms.Modes && si.bad == "" {
		si.bad = fmt.Sprintf("style renders to %q but TestMode says %013b", esc, modes)
	}
	for i, c := range []MColor{si.ms.FG, si.ms.BG} {
		v, rgb, err := st.GetColor([]termemu.ColorComponent{termemu.ComponentFG, termemu.ComponentBG}[i])
		want, wantRGB := colorVal(c)
		si.col[i], si.rgb[i] = v, rgb
		if si.bad == "" && (err != nil || v != want || rgb != wantRGB) {
			si.bad = fmt.Sprintf("style renders to %q but GetColor(%d) is %x,%v,%v", esc, i, v, rgb, err)
		}
	}
	if len(styleCache) > 200000 {
		styleCache = map[termemu.Style]styleInfo{}
	}
	styleCache[st] = si
	return si
}

// Obs is one look at a terminal whose lock is held (or which is idle).
type Obs struct {
	w      *World
	term   termemu.Terminal
	alt    bool
	buf    [2]termemu.VerifBuffer // active, inactive
	rows   [2][][]termemu.Span
	loaded [2]bool
	flags  [6]bool
	ints   [3]int
	strs   [3]string
	kbd    int
	lite   bool // leave the cells out of the comparison
}

func observe(term termemu.Terminal) *Obs {
	o := &Obs{term: term, alt: termemu.VerifOnAlt(term)}
	o.buf[0] = termemu.VerifActive(term)
	o.buf[1] = termemu.VerifInactive(term)
	g := term.(viewGetter)
	for i := range o.flags {
		o.flags[i] = g.GetViewFlag(flagIDs[i])
	}
	for i := range o.ints {
		o.ints[i] = g.GetViewInt(intIDs[i])
	}
	for i := range o.strs {
		o.strs[i] = g.GetViewString(strIDs[i])
	}
	o.kbd = termemu.VerifKeyboardFlags(term)
	return o
}

func (o *Obs) load(i int) {
	if o.loaded[i] {
		return
	}
	o.loaded[i] = true
	b := o.buf[i]
	o.rows[i] = make([][]termemu.Span, b.Size.Y)
	for y := range o.rows[i] {
		o.rows[i][y] = b.StyledLine(0, b.Size.X, y).Spans
	}
}

// structural returns a violation of C02 by buffer i.
func (o *Obs) structural(i int) *Viol {
	b := o.buf[i]
	name := []string{"active", "inactive"}[i]
	bad := func(f string, a ...any) *Viol {
		return &Viol{Cat: "struct", Msg: name + " buffer: " + fmt.Sprintf(f, a...)}
	}
	if b.Size.X < 1 || b.Size.Y < 1 {
		return bad("size %v", b.Size)
	}
	if b.Cursor.X < 0 || b.Cursor.X >= b.Size.X || b.Cursor.Y < 0 || b.Cursor.Y >= b.Size.Y {
		return bad("cursor %v outside %v", b.Cursor, b.Size)
	}
	if b.Top < 0 || b.Bottom >= b.Size.Y || b.Top > b.Bottom {
		return bad("scroll region %d..%d in %v", b.Top, b.Bottom, b.Size)
	}
	o.load(i)
	for y, spans := range o.rows[i] {
		sum := 0
		for _, sp := range spans {
			if sp.Width <= 0 {
				return bad("row %d has a span of width %d", y, sp.Width)
			}
			sum += sp.Width
		}
		if sum != b.Size.X {
			return bad("row %d spans %d columns of %d", y, sum, b.Size.X)
		}
	}
	if o.buf[0].Size != o.buf[1].Size {
		return bad("sizes of the buffers differ: %v and %v", o.buf[0].Size, o.buf[1].Size)
	}
	return nil
}

func spanText(sp termemu.Span) string {
	if sp.Text != "" {
		return sp.Text
	}
	if sp.Width == 1 {
		return string(sp.Rune)
	}
	return strings.Repeat(string(sp.Rune), sp.Width)
}

func rowText(spans []termemu.Span) string {
	var sb strings.Builder
	for _, sp := range spans {
		sb.WriteString(spanText(sp))
	}
	return sb.String()
}

// accessors checks that Line, StyledLine, StyledLines and ANSILine of the
// active buffer describe the same text.
func (o *Obs) accessors() *Viol {
	o.load(0)
	b := o.buf[0]
	bad := func(f string, a ...any) *Viol { return &Viol{Cat: "struct", Msg: fmt.Sprintf(f, a...)} }
	w, h := o.term.Size()
	if w != b.Size.X || h != b.Size.Y {
		return bad("Size() = %d,%d on a screen of %v", w, h, b.Size)
	}
	all := o.term.StyledLines(termemu.Region{X: 0, Y: 0, X2: w, Y2: h})
	if len(all) != h {
		return bad("StyledLines returned %d of %d lines", len(all), h)
	}
	for y := 0; y < h; y++ {
		t := rowText(o.rows[0][y])
		sl := o.term.StyledLine(0, w, y)
		if sl.Width != w {
			return bad("StyledLine(0,%d,%d).Width = %d", w, y, sl.Width)
		}
		if s := sl.PlainTextString(); s != t {
			return bad("PlainTextString of row %d is %q, its spans say %q", y, s, t)
		}
		if s := rowText(all[y].Spans); s != t {
			return bad("StyledLines row %d is %q, StyledLine says %q", y, s, t)
		}
		if s := o.term.Line(y); s != t {
			return bad("Line(%d) is %q, StyledLine says %q", y, s, t)
		}
		a := o.term.ANSILine(y)
		if s := stripEsc(a); s != t {
			return bad("ANSILine(%d) is %q, its text differs from %q", y, a, t)
		}
	}
	return nil
}

func stripEsc(s string) string {
	i := strings.IndexByte(s, 27)
	if i < 0 {
		return s
	}
	var sb strings.Builder
	for i >= 0 {
		sb.WriteString(s[:i])
		u := parseEsc([]byte(s), i)
		if u.Kind == uCut {
			return sb.String()
		}
		s = s[u.End:]
		i = strings.IndexByte(s, 27)
	}
	sb.WriteString(s)
	return sb.String()
}

// compareRow compares model cells with spans.
func compareRow(cells []Cell, spans []termemu.Span) (cat, msg string) {
	x := 0
	for _, sp := range spans {
		end := x + sp.Width
		if end > len(cells) {
			return "struct", "row too wide"
		}
		si := decodeStyle(sp.Style)
		if si.bad != "" {
			if !si.like(cells[x].S) {
				return "style", si.bad
			}
			return "stylebad", si.bad
		}
		if cells[x].W == 0 {
			return "cells", fmt.Sprintf("a span starts at column %d, inside %q", x, cells[x-1].T)
		}
		if sp.Text == "" {
			r := string(sp.Rune)
			for i := x; i < end; i++ {
				if cells[i].T != r {
					return "cells", fmt.Sprintf("column %d: have %q, want %q", i, r, cells[i].T)
				}
			}
		} else {
			t := sp.Text
			for i := x; i < end; i++ {
				c := cells[i].T
				if len(t) < len(c) || t[:len(c)] != c {
					return "cells", fmt.Sprintf("columns %d-%d: have %q, want %q at column %d", x, end-1, sp.Text, c, i)
				}
				t = t[len(c):]
			}
			if t != "" {
				return "cells", fmt.Sprintf("columns %d-%d: have %q, the last %q is too much", x, end-1, sp.Text, t)
			}
		}
		for i := x; i < end; i++ {
			if cells[i].S != si.ms {
				return "style", fmt.Sprintf("column %d (%q): have %v, want %v", i, cells[i].T, si.ms, cells[i].S)
			}
		}
		x = end
	}
	if x != len(cells) {
		return "struct", "row too narrow"
	}
	return "", ""
}

// compare returns the first difference between the terminal and the model.
func (o *Obs) compare(m *Model, inactive bool) *Viol {
	if o.alt != (m.alt == 1) {
		return &Viol{Cat: "alt", Msg: fmt.Sprintf("alternate screen active: have %v, want %v", o.alt, m.alt == 1)}
	}
	for i := 0; i < 2; i++ {
		if i == 1 && !inactive {
			break
		}
		s := m.scr[m.alt^i]
		b := &o.buf[i]
		name := []string{"", "inactive buffer: "}[i]
		if b.Size.X != s.w || b.Size.Y != s.h {
			return &Viol{Cat: "size", Msg: fmt.Sprintf("%ssize: have %v, want %d,%d", name, b.Size, s.w, s.h)}
		}
		if b.Cursor.X != s.cx || b.Cursor.Y != s.cy {
			return &Viol{Cat: "cursor", Msg: fmt.Sprintf("%scursor: have %v, want {%d %d}", name, b.Cursor, s.cx, s.cy)}
		}
		if b.Top != s.top || b.Bottom != s.bot {
			return &Viol{Cat: "margin", Msg: fmt.Sprintf("%sscroll region: have %d..%d, want %d..%d", name, b.Top, b.Bottom, s.top, s.bot)}
		}
		if b.AutoWrap != s.wrap {
			return &Viol{Cat: "wrap", Msg: fmt.Sprintf("%sautowrap: have %v, want %v", name, b.AutoWrap, s.wrap)}
		}
		si := decodeStyle(b.Style)
		if si.bad != "" {
			if !si.like(s.style) {
				return &Viol{Cat: "pen", Msg: si.bad}
			}
			return &Viol{Cat: "stylebad", Msg: si.bad}
		}
		if si.ms != s.style {
			return &Viol{Cat: "pen", Msg: fmt.Sprintf("%srendition: have %v, want %v", name, si.ms, s.style)}
		}
	}
	flags := o.flags
	for i := range flags {
		if laxView(m.lax, 'f', i) {
			flags[i] = m.flags[i]
		}
	}
	if flags != m.flags {
		return &Viol{Cat: "views", Msg: fmt.Sprintf("view flags: have %v, want %v", o.flags, m.flags)}
	}
	for i := range o.ints {
		if o.ints[i] != intVal(i, m.ints[i]) && !laxView(m.lax, 'i', i) {
			return &Viol{Cat: "views", Msg: fmt.Sprintf("view int %d: have %d, want %d", i, o.ints[i], intVal(i, m.ints[i]))}
		}
	}
	if o.strs != m.strs {
		return &Viol{Cat: "viewstr", Msg: fmt.Sprintf("view strings: have %q, want %q", o.strs, m.strs)}
	}
	if o.kbd != m.kbd[m.alt].flags && m.lax != "C12" {
		return &Viol{Cat: "kbd", Msg: fmt.Sprintf("keyboard flags: have %d, want %d", o.kbd, m.kbd[m.alt].flags)}
	}
	for i := 0; i < 2; i++ {
		if i == 1 && !inactive || o.lite {
			break
		}
		if v := o.structural(i); v != nil {
			return v
		}
		s := m.scr[m.alt^i]
		name := []string{"", "inactive buffer: "}[i]
		for y, spans := range o.rows[i] {
			if cat, msg := compareRow(s.rows[y], spans); cat != "" {
				return &Viol{Cat: cat, Msg: fmt.Sprintf("%srow %d: %s", name, y, msg)}
			}
		}
	}
	return nil
}

// RCell is a cell read back from spans.
type RCell struct {
	T string
	W int16
	S termemu.Style
}

// toCells divides spans into cells. It fails if the text does not divide into
// characters of the widths recorded.
func toCells(spans []termemu.Span, grapheme bool) ([]RCell, bool) {
	n := 0
	for i := range spans {
		n += max(spans[i].Width, 0)
	}
	out := make([]RCell, 0, min(n, 1024))
	for _, sp := range spans {
		if sp.Width <= 0 {
			return nil, false
		}
		if sp.Text == "" {
			r := string(sp.Rune)
			for i := 0; i < sp.Width; i++ {
				out = append(out, RCell{r, 1, sp.Style})
			}
			continue
		}
		sum := 0
		t := sp.Text
		for t != "" {
			var c string
			var w int
			if grapheme {
				c, _, w, _ = uniseg.FirstGraphemeClusterInString(t, -1)
				if w < 1 {
					w = 1
				}
			} else {
				_, n := utf8.DecodeRuneInString(t)
				c = t[:n]
				w = runeWidth(c)
			}
			t = t[len(c):]
			sum += w
			out = append(out, RCell{c, int16(w), sp.Style})
			for i := 1; i < w; i++ {
				out = append(out, RCell{"", 0, sp.Style})
			}
		}
		if sum != sp.Width {
			return nil, false
		}
	}
	return out, true
}

// Run is a piece of a row in one style, independent of how spans divide it.
type Run struct {
	S termemu.Style
	T string
	W int
}

func canonRow(spans []termemu.Span) []Run {
	var out []Run
	for _, sp := range spans {
		t := spanText(sp)
		if n := len(out); n > 0 && out[n-1].S == sp.Style {
			out[n-1].T += t
			out[n-1].W += sp.Width
			continue
		}
		out = append(out, Run{sp.Style, t, sp.Width})
	}
	return out
}

// Snap is a comparable picture of a terminal.
type Snap struct {
	Alt          bool
	Size, Cursor [2]termemu.Pos
	Top, Bot     [2]int
	Wrap         [2]bool
	Style        [2]termemu.Style
	Rows         [2][][]Run
	Flags        [6]bool
	Ints         [3]int
	Strs         [3]string
	Kbd          int
	tok          int
	evN, scN     int
}

func (o *Obs) snap() *Snap {
	s := &Snap{Alt: o.alt, Flags: o.flags, Ints: o.ints, Strs: o.strs, Kbd: o.kbd}
	for i := 0; i < 2; i++ {
		o.load(i)
		b := o.buf[i]
		s.Size[i], s.Cursor[i], s.Top[i], s.Bot[i], s.Wrap[i], s.Style[i] = b.Size, b.Cursor, b.Top, b.Bottom, b.AutoWrap, b.Style
		for _, r := range o.rows[i] {
			s.Rows[i] = append(s.Rows[i], canonRow(r))
		}
	}
	return s
}

func diffRows(a, b [][]Run) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d rows and %d rows", len(a), len(b))
	}
	for y := range a {
		if d := diffRow(a[y], b[y]); d != "" {
			return fmt.Sprintf("row %d: %s", y, d)
		}
	}
	return ""
}

func diffRow(a, b []Run) string {
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
			}
		}
		if same {
			return ""
		}
	}
	f := func(r []Run) string {
		var sb strings.Builder
		for _, x := range r {
			fmt.Fprintf(&sb, "[%q w=%d %v]", x.T, x.W, decodeStyle(x.S).ms)
		}
		return sb.String()
	}
	return f(a) + " and " + f(b)
}

func (s *Snap) diff(o *Snap) string {
	switch {
	case s.Alt != o.Alt:
		return fmt.Sprintf("alternate screen: %v and %v", s.Alt, o.Alt)
	case s.Size != o.Size:
		return fmt.Sprintf("size: %v and %v", s.Size, o.Size)
	case s.Cursor != o.Cursor:
		return fmt.Sprintf("cursor: %v and %v", s.Cursor, o.Cursor)
	case s.Top != o.Top || s.Bot != o.Bot:
		return fmt.Sprintf("scroll region: %v-%v and %v-%v", s.Top, s.Bot, o.Top, o.Bot)
	case s.Wrap != o.Wrap:
		return fmt.Sprintf("autowrap: %v and %v", s.Wrap, o.Wrap)
	case s.Style != o.Style:
		return fmt.Sprintf("rendition: %v %v and %v %v", decodeStyle(s.Style[0]).ms, decodeStyle(s.Style[1]).ms, decodeStyle(o.Style[0]).ms, decodeStyle(o.Style[1]).ms)
	case s.Flags != o.Flags || s.Ints != o.Ints:
		return fmt.Sprintf("modes: %v %v and %v %v", s.Flags, s.Ints, o.Flags, o.Ints)
	case s.Strs != o.Strs:
		return fmt.Sprintf("strings: %q and %q", s.Strs, o.Strs)
	case s.Kbd != o.Kbd:
		return fmt.Sprintf("keyboard flags: %d and %d", s.Kbd, o.Kbd)
	}
	for i := range s.Rows {
		if d := diffRows(s.Rows[i], o.Rows[i]); d != "" {
			return []string{"active", "inactive"}[i] + " buffer, " + d
		}
	}
	return ""
}
