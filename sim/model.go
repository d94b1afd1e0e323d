package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/rivo/uniseg"
)

// The reference model: a plain grid of cells, written from the property texts
// and the control function definitions, sharing no code with the emulator.

type MColor uint32 // 0 default, 1<<24|idx, 2<<24|bright idx, 3<<24|rgb

const (
	mcIndexed = 1 << 24
	mcBright  = 2 << 24
	mcRGB     = 3 << 24
)

const (
	smBold = 1 << iota
	smDim
	smItalic
	smUnderline
	smBlink
	smReverse
	smInvisible
	smStrike
	smOverline
	smDouble
	smFramed
	smEncircled
	smRapid
)

type MStyle struct {
	FG, BG MColor
	Modes  uint16
}

func (s MStyle) String() string {
	return fmt.Sprintf("fg=%x bg=%x modes=%013b", uint32(s.FG), uint32(s.BG), s.Modes)
}

// Cell is one column. W is 0 in the columns after the first of a wide
// character.
type Cell struct {
	T string
	W int16
	S MStyle
}

type MScreen struct {
	w, h     int
	rows     [][]Cell
	cx, cy   int
	sx, sy   int
	top, bot int
	wrap     bool
	style    MStyle
}

type MKbd struct {
	flags int
	stack []int
}

type MEvent struct {
	Kind byte // 'f' flag, 'i' int, 's' string, 'b' bell
	Id   int
	Val  int
	Str  string
}

type ScrollRow struct {
	Cells []Cell
	Opt   bool // announcing it is optional
	H     uint64
}

const (
	vfBlink = iota
	vfShow
	vfFocus
	vfPaste
	vfAppCursor
	vfAppKeypad
)

const (
	viMouseMode = iota
	viMouseEnc
	viMOK
)

type Model struct {
	scr      [2]*MScreen
	alt      int
	grid     bool
	grapheme bool
	flags    [6]bool
	ints     [3]int
	strs     [3]string
	kbd      [2]MKbd
	events   []MEvent
	replies  []string
	scrolled []ScrollRow

	midWide  bool // a write has started on the second half of a wide character
	scrollN  int  // scrolls so far
	unit     int  // next unit
	rowsFree bool
	lax      string
	evOK     int // notifications and rows already matched
	scOK     int // rows matched
	scHave   int // with so many announced
}

func newMScreen(w, h int) *MScreen {
	s := &MScreen{w: w, h: h, bot: h - 1}
	s.rows = make([][]Cell, h)
	for y := range s.rows {
		s.rows[y] = s.blankRow(w)
	}
	return s
}

func (s *MScreen) blank() Cell { return Cell{" ", 1, s.style} }

func (s *MScreen) blankRow(w int) []Cell {
	r := make([]Cell, w)
	for x := range r {
		r[x] = s.blank()
	}
	return r
}

func NewModel(w, h int, grapheme, grid bool) *Model {
	return &Model{scr: [2]*MScreen{newMScreen(w, h), newMScreen(w, h)}, grapheme: grapheme, grid: grid}
}

func (s *MScreen) clone() *MScreen {
	c := *s
	c.rows = make([][]Cell, len(s.rows))
	back := make([]Cell, s.w*s.h)
	for y := range s.rows {
		c.rows[y] = back[y*s.w : (y+1)*s.w : (y+1)*s.w]
		copy(c.rows[y], s.rows[y])
	}
	return &c
}

func (m *Model) clone() *Model {
	c := *m
	c.scr = [2]*MScreen{m.scr[0].clone(), m.scr[1].clone()}
	for i := range m.kbd {
		c.kbd[i].stack = append([]int(nil), m.kbd[i].stack...)
	}
	c.events = m.events[:len(m.events):len(m.events)]
	c.replies = m.replies[:len(m.replies):len(m.replies)]
	c.scrolled = m.scrolled[:len(m.scrolled):len(m.scrolled)]
	return &c
}

func (m *Model) s() *MScreen { return m.scr[m.alt] }

// charAt returns the columns of the character that column x is part of.
func (s *MScreen) charAt(y, x int) (int, int) {
	a := x
	for a > 0 && s.rows[y][a].W == 0 {
		a--
	}
	w := int(s.rows[y][a].W)
	if w < 1 {
		w = 1
	}
	return a, a + w
}

// cut blanks the character that has columns on both sides of the line before
// column x.
func (s *MScreen) cut(y, x int) {
	if x <= 0 || x >= s.w || s.rows[y][x].W != 0 {
		return
	}
	a, b := s.charAt(y, x)
	for i := a; i < b && i < s.w; i++ {
		s.rows[y][i] = s.blank()
	}
}

func (s *MScreen) put(y, x int, t string, w int) {
	s.cut(y, x)
	s.cut(y, x+w)
	s.rows[y][x] = Cell{t, int16(w), s.style}
	for i := 1; i < w; i++ {
		s.rows[y][x+i] = Cell{"", 0, s.style}
	}
}

func (s *MScreen) erase(y, x1, x2 int) {
	if x1 < 0 {
		x1 = 0
	}
	if x2 > s.w {
		x2 = s.w
	}
	if x1 >= x2 || y < 0 || y >= s.h {
		return
	}
	s.cut(y, x1)
	s.cut(y, x2)
	for x := x1; x < x2; x++ {
		s.rows[y][x] = s.blank()
	}
}

func (m *Model) scroll(y1, y2, n int, optional bool) {
	s := m.s()
	if y1 > y2 || n == 0 {
		return
	}
	m.scrollN++
	hgt := y2 - y1 + 1
	if n > hgt {
		n = hgt
	}
	if n < -hgt {
		n = -hgt
	}
	if n < 0 { // up
		if y1 == 0 && m.alt == 0 {
			for y := 0; y < -n; y++ {
				row := ScrollRow{Cells: append([]Cell(nil), s.rows[y]...), Opt: optional}
				row.H = hashRow(uint64(s.w), row.Cells)
				m.scrolled = append(m.scrolled, row)
			}
		}
		region := append([][]Cell(nil), s.rows[y1-n:y2+1]...)
		for i := 0; i < -n; i++ {
			region = append(region, s.blankRow(s.w))
		}
		copy(s.rows[y1:], region)
		return
	}
	var region [][]Cell
	for i := 0; i < n; i++ {
		region = append(region, s.blankRow(s.w))
	}
	region = append(region, s.rows[y1:y2+1-n]...)
	copy(s.rows[y1:], region)
}

// down moves the cursor n rows down (up if negative), scrolling the region if
// that takes it across the region's edge.
func (m *Model) index(n int) {
	s := m.s()
	y := s.cy + n
	switch {
	case n > 0 && s.cy <= s.bot && y > s.bot:
		m.scroll(s.top, s.bot, s.bot-y, false)
		y = s.bot
	case n < 0 && s.cy >= s.top && y < s.top:
		m.scroll(s.top, s.bot, s.top-y, false)
		y = s.top
	}
	s.cy = clampI(y, 0, s.h-1)
}

func clampI(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func (m *Model) putChar(t string, w int) {
	s := m.s()
	if w < 1 {
		w = 1
	}
	if w > s.w {
		t, w = " ", 1
	}
	if s.cx+w > s.w {
		if s.wrap {
			s.cx = 0
			m.index(1)
		} else {
			s.cx = s.w - w
		}
	}
	x := s.cx
	if s.rows[s.cy][x].W == 0 { // second half of a wide character
		m.midWide = true
		_, end := s.charAt(s.cy, x)
		if !m.grid && end+w <= s.w {
			n := end - x
			if n > w {
				n = w
			}
			row := s.rows[s.cy]
			shifted := append([]Cell(nil), row[:end]...)
			for i := 0; i < n; i++ {
				shifted = append(shifted, s.blank())
			}
			rest := row[end:]
			shifted = append(shifted, rest[:len(rest)-n]...)
			// a character cut off by the edge of the screen
			last := s.w - 1
			for last > 0 && shifted[last].W == 0 {
				last--
			}
			if last+int(shifted[last].W) > s.w {
				for i := last; i < s.w; i++ {
					shifted[i] = s.blank()
				}
			}
			s.rows[s.cy] = shifted
			x = end
		}
	}
	s.put(s.cy, x, t, w)
	x += w
	switch {
	case x < s.w:
		s.cx = x
	case s.wrap:
		s.cx = x - s.w
		m.index(1)
	default:
		s.cx = s.w - 1
	}
}

func (m *Model) mergeChar(t string, w int, only bool) {
	s := m.s()
	if s.cx > 0 {
		a, b := s.charAt(s.cy, s.cx-1)
		joined := s.rows[s.cy][a].T + t
		cl, rest, jw, _ := uniseg.FirstGraphemeClusterInString(joined, -1)
		_ = cl
		if jw < 1 {
			jw = 1
		}
		if rest == "" && jw == b-a && a+jw <= s.w {
			s.rows[s.cy][a].T = joined
			return
		}
	}
	if !only {
		m.putChar(t, w)
	}
}

// laxView reports whether a mode is judged only by what it does: for the key
// and mouse properties the bytes sent decide whether the mode the application
// selected is in force, not the terminal's record of it.
func laxView(lax string, kind byte, id int) bool {
	switch lax {
	case "C12":
		return kind == 'i' && id == viMOK || kind == 'f' && (id == vfAppCursor || id == vfAppKeypad)
	case "C13":
		return kind == 'i' && id != viMOK
	}
	return false
}

func (m *Model) setFlag(id int, v bool) {
	m.flags[id] = v
	n := 0
	if v {
		n = 1
	}
	if !laxView(m.lax, 'f', id) {
		m.events = append(m.events, MEvent{Kind: 'f', Id: id, Val: n})
	}
}

func (m *Model) setInt(id, v int) {
	m.ints[id] = v
	if !laxView(m.lax, 'i', id) {
		m.events = append(m.events, MEvent{Kind: 'i', Id: id, Val: v})
	}
}

func (m *Model) setStr(id int, v string) {
	m.strs[id] = v
	m.events = append(m.events, MEvent{Kind: 's', Id: id, Str: v})
}

func (m *Model) moveTo(x, y int) {
	s := m.s()
	s.cx = clampI(x, 0, s.w-1)
	s.cy = clampI(y, 0, s.h-1)
}

// apply applies the next unit.
func (m *Model) apply(u *Unit) {
	m.unit++
	s := m.s()
	switch u.Kind {
	case uText:
		if u.Merge {
			m.mergeChar(u.Text, u.Width, u.MergeOnly)
		} else {
			m.putChar(u.Text, u.Width)
		}
	case uCtl:
		switch u.B {
		case 7:
			m.events = append(m.events, MEvent{Kind: 'b'})
		case 8, 127:
			m.moveTo(s.cx-1, s.cy)
		case 9:
			m.moveTo(s.cx/8*8+8, s.cy)
		case 10:
			s.cx = 0
			m.index(1)
		case 12:
			m.index(1)
		case 13:
			s.cx = 0
		}
	case uEsc:
		switch u.B {
		case 'D':
			m.index(1)
		case 'M':
			m.index(-1)
		case '=':
			m.setFlag(vfAppKeypad, true)
		case '>':
			m.setFlag(vfAppKeypad, false)
		}
	case uOSC:
		switch u.Num {
		case 0, 2:
			m.setStr(0, u.Text)
		case 6:
			m.setStr(1, u.Text)
		case 7:
			m.setStr(2, u.Text)
		}
	case uCSI:
		if u.Known {
			m.csi(u)
		}
	}
}

// p returns parameter i, or def if it is absent or (for counts) zero.
func (u *Unit) p(i, def int) int {
	if i < len(u.Params) {
		return u.Params[i]
	}
	return def
}

func (u *Unit) count() int {
	if n := u.p(0, 1); n > 0 {
		return n
	}
	return 1
}

func (m *Model) csi(u *Unit) {
	s := m.s()
	switch u.Prefix {
	case 0:
		switch u.B {
		case 'A':
			m.moveTo(s.cx, s.cy-u.count())
		case 'B':
			m.moveTo(s.cx, s.cy+u.count())
		case 'C':
			m.moveTo(s.cx+u.count(), s.cy)
		case 'D':
			m.moveTo(s.cx-u.count(), s.cy)
		case 'G':
			m.moveTo(u.p(0, 1)-1, s.cy)
		case 'd':
			m.moveTo(s.cx, u.p(0, 1)-1)
		case 'H', 'f':
			m.moveTo(u.p(1, 1)-1, u.p(0, 1)-1)
		case 's':
			s.sx, s.sy = s.cx, s.cy
		case 'u':
			s.cx, s.cy = s.sx, s.sy
		case 'c':
			if u.p(0, 0) == 0 {
				m.replies = append(m.replies, "\x1b[?1;2c")
			}
		case 'n':
			switch u.p(0, 0) {
			case 5:
				m.replies = append(m.replies, "\x1b[0n")
			case 6:
				m.replies = append(m.replies, "\x1b["+strconv.Itoa(s.cy+1)+";"+strconv.Itoa(s.cx+1)+"R")
			}
		case 'm':
			s.style = foldSGR(s.style, u.Params)
		case 'K':
			switch u.p(0, 0) {
			case 0:
				s.erase(s.cy, s.cx, s.w)
			case 1:
				s.erase(s.cy, 0, s.cx+1)
			case 2:
				s.erase(s.cy, 0, s.w)
			}
		case 'J':
			switch u.p(0, 0) {
			case 0:
				s.erase(s.cy, s.cx, s.w)
				for y := s.cy + 1; y < s.h; y++ {
					s.erase(y, 0, s.w)
				}
			case 1:
				for y := 0; y < s.cy; y++ {
					s.erase(y, 0, s.w)
				}
				s.erase(s.cy, 0, s.cx+1)
			case 2:
				for y := 0; y < s.h; y++ {
					s.erase(y, 0, s.w)
				}
				s.cx, s.cy = 0, 0
			}
		case 'X':
			n := u.count()
			if n > s.w {
				n = s.w
			}
			s.erase(s.cy, s.cx, s.cx+n)
		case 'P':
			n := u.count()
			if n > s.w-s.cx {
				n = s.w - s.cx
			}
			s.cut(s.cy, s.cx)
			s.cut(s.cy, s.cx+n)
			row := append([]Cell(nil), s.rows[s.cy][:s.cx]...)
			row = append(row, s.rows[s.cy][s.cx+n:]...)
			for len(row) < s.w {
				row = append(row, s.blank())
			}
			s.rows[s.cy] = row
		case 'L', 'M':
			if s.cy >= s.top {
				n := u.count()
				if u.B == 'M' {
					n = -n
				}
				m.scroll(s.cy, s.bot, n, true)
			}
		case 'S':
			m.scroll(s.top, s.bot, -u.count(), false)
		case 'T':
			m.scroll(s.top, s.bot, u.count(), false)
		case 'r':
			top, bot := u.p(0, 1)-1, u.p(1, 0)-1
			if bot < 0 {
				bot = s.h - 1
			}
			if top > bot {
				return
			}
			s.top, s.bot = clampI(top, 0, s.h-1), clampI(bot, 0, s.h-1)
		}
	case '?':
		switch u.B {
		case 'u':
			m.replies = append(m.replies, "\x1b[?"+strconv.Itoa(m.kbd[m.alt].flags)+"u")
		case 'h', 'l':
			for _, p := range u.Params {
				m.decMode(p, u.B == 'h')
			}
		}
	case '>':
		switch u.B {
		case 'c':
			m.replies = append(m.replies, "\x1b[>1;4402;0c")
		case 'm':
			if len(u.Params) > 0 && u.Params[0] == 4 {
				m.setInt(viMOK, u.p(1, 0))
			}
		case 'u':
			k := &m.kbd[m.alt]
			k.stack = append(k.stack, k.flags)
			if len(k.stack) > 32 {
				k.stack = append([]int(nil), k.stack[len(k.stack)-32:]...)
			}
			k.flags = u.p(0, 0)
		}
	case '<':
		if u.B == 'u' {
			k := &m.kbd[m.alt]
			n := u.count()
			if n > len(k.stack) {
				k.stack, k.flags = nil, 0
			} else {
				k.flags = k.stack[len(k.stack)-n]
				k.stack = k.stack[:len(k.stack)-n]
			}
		}
	case '=':
		if u.B == 'u' {
			k := &m.kbd[m.alt]
			f := u.p(0, 0)
			switch u.p(1, 1) {
			case 0, 1:
				k.flags = f
			case 2:
				k.flags |= f
			case 3:
				k.flags &^= f
			}
		}
	}
}

func (m *Model) decMode(p int, v bool) {
	sel := func(id, on int) {
		if v {
			m.setInt(id, on)
		} else {
			m.setInt(id, 0)
		}
	}
	switch p {
	case 1:
		m.setFlag(vfAppCursor, v)
	case 7:
		m.s().wrap = v
	case 9:
		sel(viMouseMode, 1)
	case 12:
		m.setFlag(vfBlink, v)
	case 25:
		m.setFlag(vfShow, v)
	case 1000:
		sel(viMouseMode, 2)
	case 1002:
		sel(viMouseMode, 3)
	case 1003:
		sel(viMouseMode, 4)
	case 1004:
		m.setFlag(vfFocus, v)
	case 1005, 1015:
		sel(viMouseEnc, 1)
	case 1006:
		sel(viMouseEnc, 2)
	case 1049:
		m.alt = 0
		if v {
			m.alt = 1
		}
	case 2004:
		m.setFlag(vfPaste, v)
	}
}

var sgrOn = map[int]uint16{1: smBold, 2: smDim, 3: smItalic, 4: smUnderline, 5: smBlink, 6: smRapid, 7: smReverse,
	8: smInvisible, 9: smStrike, 21: smDouble, 51: smFramed, 52: smEncircled, 53: smOverline}
var sgrOff = map[int]uint16{22: smBold | smDim, 23: smItalic, 24: smUnderline | smDouble, 25: smBlink | smRapid, 27: smReverse,
	28: smInvisible, 29: smStrike, 54: smFramed | smEncircled, 55: smOverline}

func foldSGR(st MStyle, ps []int) MStyle {
	if len(ps) == 0 {
		return MStyle{}
	}
	for i := 0; i < len(ps); i++ {
		p := ps[i]
		switch {
		case p == 0:
			st = MStyle{}
		case p >= 30 && p <= 37:
			st.FG = mcIndexed | MColor(p-30)
		case p >= 40 && p <= 47:
			st.BG = mcIndexed | MColor(p-40)
		case p == 39:
			st.FG = 0
		case p == 49:
			st.BG = 0
		case p >= 90 && p <= 97:
			st.FG = mcBright | MColor(p-90)
		case p >= 100 && p <= 107:
			st.BG = mcBright | MColor(p-100)
		case p == 38 || p == 48 || p == 58:
			c, set, n := extendedColor(p, ps[i+1:])
			i += n
			if set && p == 38 {
				st.FG = c
			} else if set && p == 48 {
				st.BG = c
			}
		default:
			st.Modes |= sgrOn[p]
			st.Modes &^= sgrOff[p]
		}
	}
	return st
}

// extendedColor reads the parameters after 38, 48 or 58. The underline colour
// is not kept; truncated and unknown forms set nothing by this, and how much of
// the list they take with them is open, so it is taken from the terminal, once.
func extendedColor(p int, rest []int) (c MColor, set bool, n int) {
	whole := false
	form := sgrForm{p, -1, 0}
	if len(rest) > 0 {
		form.kind = rest[0]
	}
	switch form.kind {
	case 5:
		if form.n = min(len(rest)-1, 1); form.n == 1 {
			whole, c = true, mcIndexed|MColor(rest[1]&0xff)
		}
	case 2:
		if form.n = min(len(rest)-1, 3); form.n == 3 {
			whole, c = true, mcRGB|MColor(rest[1]&0xff)<<16|MColor(rest[2]&0xff)<<8|MColor(rest[3]&0xff)
		}
	case -1:
		return 0, false, 0
	default:
		form.kind = 0
	}
	if whole && p != 58 {
		return c, true, 1 + form.n
	}
	switch sgrReading(form) {
	case 1: // the type is skipped
		return 0, false, 1
	case 2: // the rest is skipped
		return 0, false, len(rest)
	case 3: // all that belongs to it is skipped
		return 0, false, 1 + form.n
	case 4: // missing values are zero
		v := append(append([]int{}, rest...), 0, 0, 0)
		if form.kind == 5 {
			c = mcIndexed | MColor(v[1]&0xff)
		} else {
			c = mcRGB | MColor(v[1]&0xff)<<16 | MColor(v[2]&0xff)<<8 | MColor(v[3]&0xff)
		}
		return c, form.kind != 0, len(rest)
	}
	return 0, false, 0
}

type sgrForm struct{ p, kind, n int }

var sgrReadings = map[sgrForm]int{}

// sgrReading finds out how the terminal takes a form; one that it takes in no
// acceptable way is read as if the introducer was not there.
func sgrReading(f sgrForm) int {
	if r, ok := sgrReadings[f]; ok {
		return r
	}
	var lists [][]int
	switch f.kind {
	case 0:
		lists = [][]int{{f.p, 9}, {f.p, 3, 4}, {f.p, 7, 53, 35}, {f.p, 1, 46}}
	default:
		for _, tail := range [][]int{{3, 4, 9}, {7, 8, 21}, {35, 46, 51}} {
			l := append([]int{f.p, f.kind}, tail[:f.n]...)
			lists = append(lists, l)
			if f.p == 58 && (f.kind == 5 && f.n == 1 || f.kind == 2 && f.n == 3) {
				lists = append(lists, append(l[:len(l):len(l)], 53))
			}
		}
	}
	first := []int{31, 42, 52}
	readings := []int{0, 1, 2, 3, 4}
	for _, l := range lists {
		var sb strings.Builder
		sb.WriteString("\x1b[31;42;52m\x1b[")
		for i, p := range l {
			if i > 0 {
				sb.WriteByte(';')
			}
			sb.WriteString(strconv.Itoa(p))
		}
		sb.WriteString("mX")
		got, ok := freshStyle(sb.String())
		if !ok {
			readings = nil
			break
		}
		var left []int
		for _, r := range readings {
			sgrReadings[f] = r
			if foldSGR(foldSGR(MStyle{}, first), l) == got {
				left = append(left, r)
			}
		}
		readings = left
	}
	sgrReadings[f] = 0
	if len(readings) > 0 {
		sgrReadings[f] = readings[0]
	}
	return sgrReadings[f]
}

// resize changes the size of both screens.
func (m *Model) resize(w, h int) {
	for _, s := range m.scr {
		rows := make([][]Cell, h)
		for y := range rows {
			if y >= s.h {
				rows[y] = s.blankRow(w)
				continue
			}
			if w < s.w {
				s.cut(y, w)
				rows[y] = s.rows[y][:w:w]
			} else {
				rows[y] = s.rows[y]
				for len(rows[y]) < w {
					rows[y] = append(rows[y], s.blank())
				}
			}
		}
		s.bot = h - (s.h - s.bot)
		if s.bot < s.top {
			s.top, s.bot = 0, h-1
		}
		s.rows, s.w, s.h = rows, w, h
		s.cx, s.cy = clampI(s.cx, 0, w-1), clampI(s.cy, 0, h-1)
		s.sx, s.sy = clampI(s.sx, 0, w-1), clampI(s.sy, 0, h-1)
	}
}

// hash identifies the visible state.
func (m *Model) hash() uint64 {
	h := uint64(m.alt)
	for _, s := range m.scr {
		h = hashU(h, uint64(s.w)<<40|uint64(s.h)<<20|uint64(s.cx)<<10|uint64(s.cy))
		h = hashU(h, uint64(s.top)<<20|uint64(s.bot)<<8|uint64(s.style.Modes))
		h = hashU(h, uint64(s.style.FG)<<32|uint64(s.style.BG))
		if s.wrap {
			h++
		}
		for y := range s.rows {
			h = hashRow(h, s.rows[y])
		}
	}
	for _, k := range m.kbd {
		h = hashU(h, uint64(k.flags)<<8|uint64(len(k.stack)))
	}
	for _, v := range m.ints {
		h = hashU(h, uint64(v))
	}
	for i, v := range m.flags {
		if v {
			h = hashU(h, uint64(i))
		}
	}
	return h
}

func hashRow(h uint64, row []Cell) uint64 {
	for x := range row {
		c := &row[x]
		h = (h ^ uint64(c.S.FG)<<32 ^ uint64(c.S.BG)<<8 ^ uint64(c.S.Modes)) * 1099511628211
		if c.T != " " {
			h = hashS(h, c.T)
		}
	}
	return h
}

// histHash identifies everything the frontend and the application were told.
func (m *Model) histHash() uint64 {
	h := uint64(len(m.replies))<<32 | uint64(len(m.events))<<16 | uint64(len(m.scrolled))
	for _, r := range m.replies {
		h = hashS(h, r)
	}
	for _, e := range m.events {
		h = hashS(hashU(h, uint64(e.Kind)<<40|uint64(e.Id)<<32|uint64(e.Val)), e.Str)
	}
	for i := range m.scrolled {
		h = hashU(h, m.scrolled[i].H)
		if m.scrolled[i].Opt {
			h++
		}
	}
	return h
}
