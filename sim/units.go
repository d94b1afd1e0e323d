package main

import (
	"unicode"
	"unicode/utf8"

	"github.com/rivo/uniseg"
)

// A Unit is a piece of the byte stream that takes effect as a whole: one
// character, one control byte or one escape sequence. The division does not
// depend on the state of the screen.
type Unit struct {
	Start, End int
	Ready      int // number of stream bytes needed to recognise it
	Kind       unitKind
	B          byte // control byte, or final byte
	Prefix     byte
	Params     []int
	Known      bool // false: a CSI sequence with unknown parameter or intermediate bytes
	Text       string
	Width      int
	Merge      bool // belongs to the character before it, in grapheme mode
	MergeOnly  bool
	Num        int // OSC number, -1 if invalid
}

type unitKind uint8

const (
	uText unitKind = iota
	uCtl
	uEsc
	uCSI
	uOSC
	uDCS
	uCut // unfinished at the end of the stream
)

const maxParam = 1 << 24

func parseUnits(b []byte, grapheme bool) []Unit {
	var out []Unit
	i := 0
	forceMerge, lastRI := false, false
	for i < len(b) {
		c := b[i]
		switch {
		case c == 27:
			u := parseEsc(b, i)
			out = append(out, u)
			i = u.End
			forceMerge, lastRI = false, false
		case c < 32 || c == 127:
			out = append(out, Unit{Start: i, End: i + 1, Ready: i + 1, Kind: uCtl, B: c})
			i++
			forceMerge, lastRI = false, false
		case !grapheme:
			u := Unit{Start: i, Kind: uText}
			_, n := utf8.DecodeRune(b[i:])
			u.End = i + n
			u.Text = validStr(b[i:u.End])
			u.Width = runeWidth(u.Text)
			u.Ready = runeReady(b, i, u.End)
			out = append(out, u)
			i = u.End
		default:
			j := i
			for j < len(b) && b[j] >= 32 && b[j] != 127 {
				j++
			}
			for i < j {
				cl, _, bounds, _ := uniseg.Step(b[i:j], -1)
				u := Unit{Start: i, End: i + len(cl), Kind: uText}
				u.Text = validStr(cl)
				u.Width = bounds >> uniseg.ShiftWidth
				if u.Width < 1 {
					u.Width = 1
				}
				u.Merge = forceMerge
				forceMerge = false
				switch {
				case allRunes(cl, func(r rune) bool { return r == 0x200d }):
					u.Merge, u.MergeOnly, forceMerge = true, true, true
				case allRunes(cl, func(r rune) bool { return unicode.Is(unicode.Mn, r) || unicode.Is(unicode.Me, r) }):
					u.Merge, u.MergeOnly = true, true
				case allRunes(cl, func(r rune) bool { return r >= 0xfe00 && r <= 0xfe0f || r >= 0xe0100 && r <= 0xe01ef }):
					u.Merge, u.MergeOnly = true, true
				case allRunes(cl, func(r rune) bool { return r >= 0x1f1e6 && r <= 0x1f1ff }):
					switch {
					case utf8.RuneCount(cl) > 1:
						lastRI = false
					case lastRI:
						u.Merge, lastRI = true, false
					default:
						lastRI = true
					}
				default:
					lastRI = false
				}
				// the last character decides when the cluster can be seen whole
				k := u.End - 1
				for k > u.Start && !utf8.RuneStart(b[k]) {
					k--
				}
				u.Ready = runeReady(b, k, u.End)
				out = append(out, u)
				i = u.End
			}
		}
	}
	return out
}

// runeReady returns how much of the stream is needed to know where the
// character at i ends.
func runeReady(b []byte, i, end int) int {
	j := i + 1
	for j <= len(b) && !utf8.FullRune(b[i:j]) {
		j++
	}
	if j < end {
		j = end
	}
	return j // > len(b): never known to be complete
}

func allRunes(b []byte, f func(rune) bool) bool {
	for len(b) > 0 {
		r, n := utf8.DecodeRune(b)
		if r == utf8.RuneError && n <= 1 || !f(r) {
			return false
		}
		b = b[n:]
	}
	return true
}

func validStr(b []byte) string {
	if utf8.Valid(b) {
		return string(b)
	}
	var out []byte
	for len(b) > 0 {
		r, n := utf8.DecodeRune(b)
		out = utf8.AppendRune(out, r)
		b = b[n:]
	}
	return string(out)
}

var widthCache [0x3000]int8

func runeWidth(s string) int {
	r, _ := utf8.DecodeRuneInString(s)
	if int(r) < len(widthCache) && !raceBuild {
		if w := widthCache[r]; w > 0 {
			return int(w)
		}
	}
	w := uniseg.StringWidth(s)
	if w < 1 {
		w = 1
	}
	if int(r) < len(widthCache) && !raceBuild {
		widthCache[r] = int8(w)
	}
	return w
}

func parseEsc(b []byte, i int) Unit {
	u := Unit{Start: i, End: len(b), Ready: len(b) + 1, Kind: uCut}
	j := i + 1
	if j >= len(b) {
		return u
	}
	done := func(kind unitKind, end int) Unit {
		u.Kind, u.End, u.Ready = kind, end, end
		return u
	}
	switch c := b[j]; {
	case c == '[':
		j++
		u.Known = true
		if j < len(b) && (b[j] == '?' || b[j] == '>' || b[j] == '<' || b[j] == '=') {
			u.Prefix = b[j]
			j++
		}
		val, set, any := 0, false, false
		for j < len(b) && (b[j] == ';' || b[j] >= '0' && b[j] <= '9') {
			any = true
			if b[j] == ';' {
				u.Params = append(u.Params, val)
				val, set = 0, false
			} else {
				if val < maxParam {
					val = val*10 + int(b[j]-'0')
				}
				set = true
			}
			j++
		}
		_ = set
		if any {
			u.Params = append(u.Params, val)
		}
		for j < len(b) && b[j] >= 0x20 && b[j] <= 0x3f {
			u.Known = false
			j++
		}
		if j >= len(b) {
			return u
		}
		u.B = b[j]
		return done(uCSI, j+1)
	case c == ']':
		j++
		n0 := j
		num := 0
		for j < len(b) && b[j] >= '0' && b[j] <= '9' {
			if num < 1<<24 {
				num = num*10 + int(b[j]-'0')
			}
			j++
		}
		u.Num = num
		if j == n0 {
			u.Num = -1
		}
		if j < len(b) && b[j] == ';' {
			p0 := j + 1
			end, next, ok := findST(b, p0, true)
			if !ok {
				return u
			}
			u.Text = string(b[p0:end])
			return done(uOSC, next)
		}
		end, next, ok := findST(b, j, true)
		if !ok {
			return u
		}
		if end > j {
			u.Num = -1
		}
		return done(uOSC, next)
	case c == 'P':
		_, next, ok := findST(b, j+1, false)
		if !ok {
			return u
		}
		return done(uDCS, next)
	case c >= 0x20 && c <= 0x2f:
		for j < len(b) && b[j] >= 0x20 && b[j] <= 0x2f {
			j++
		}
		if j >= len(b) {
			return u
		}
		return done(uEsc, j+1) // B stays 0: no effect
	default:
		u.B = c
		return done(uEsc, j+1)
	}
}

// findST finds the end of a string: BEL (if bel), ESC \ or an 0x9c byte that
// is not inside a UTF-8 character.
func findST(b []byte, i int, bel bool) (end, next int, ok bool) {
	for i < len(b) {
		c := b[i]
		switch {
		case bel && c == 7:
			return i, i + 1, true
		case c == 27:
			if i+1 < len(b) && b[i+1] == '\\' {
				return i, i + 2, true
			}
			i++
		case c == 0x9c:
			return i, i + 1, true
		case c >= 0xc2 && c <= 0xf4:
			n := 1
			if c >= 0xe0 {
				n = 2
			}
			if c >= 0xf0 {
				n = 3
			}
			i++
			for n > 0 && i < len(b) && b[i] >= 0x80 && b[i] <= 0xbf {
				i++
				n--
			}
		default:
			i++
		}
	}
	return 0, 0, false
}
