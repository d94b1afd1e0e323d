package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/ricochet1k/termemu"
)

// What a key event may be encoded as, written from keyboard-protocol.rst and
// xterm's documentation. Encodings are compared in a canonical form, so that
// omitted and explicit defaults are the same.

const (
	mShift = 1 << iota
	mAlt
	mCtrl
	mSuper
	mHyper
	mMeta
	mCaps
	mNum
)

const mLocks = mCaps | mNum

// canonCSI builds the canonical form of a CSI sequence.
func canonCSI(final byte, nums, mods, text []int) string {
	trim := func(a []int, def int) []int {
		a = append([]int(nil), a...)
		if len(a) == 0 {
			a = []int{def}
		}
		for len(a) > 1 && a[len(a)-1] == 0 {
			a = a[:len(a)-1]
		}
		return a
	}
	nums = trim(nums, 1)
	mods = trim(mods, 1)
	if mods[0] == 0 {
		mods[0] = 1
	}
	if len(mods) == 2 && mods[1] == 1 {
		mods = mods[:1]
	}
	t := ""
	if len(text) > 0 {
		t = fmt.Sprint(text)
	}
	return fmt.Sprintf("CSI %c %v %v %s", final, nums, mods, t)
}

func canonRaw(s string) string { return fmt.Sprintf("RAW %q", s) }

// canonKey returns the canonical form of bytes sent for a key.
func canonKey(s string) string {
	if len(s) >= 3 && s[0] == 27 && s[1] == '[' {
		body := s[2 : len(s)-1]
		final := s[len(s)-1]
		ok := final >= 0x40 && final <= 0x7e
		var f [][]int
		for _, part := range strings.Split(body, ";") {
			var sub []int
			if part != "" {
				for _, p := range strings.Split(part, ":") {
					n := 0
					if p != "" {
						v, err := strconv.Atoi(p)
						if err != nil || v < 0 || (len(p) > 1 && p[0] == '0') {
							ok = false
						}
						n = v
					}
					sub = append(sub, n)
				}
			}
			f = append(f, sub)
		}
		if ok && len(f) <= 3 {
			for len(f) < 3 {
				f = append(f, nil)
			}
			if len(f[1]) <= 2 {
				return canonCSI(final, f[0], f[1], f[2])
			}
		}
	}
	return canonRaw(s)
}

func keyShape(s string) string {
	switch {
	case s == "":
		return "silent"
	case strings.HasPrefix(s, "\x1b[") && len(s) > 2:
		if strings.HasPrefix(s, "\x1b[27;") && strings.HasSuffix(s, "~") {
			return "modifyOtherKeys"
		}
		sh := "csi_"
		if strings.Contains(s, ":") {
			sh = "csi_sub_"
		}
		switch c := s[len(s)-1]; c {
		case 'u', '~':
			return sh + string(c)
		}
		return sh + "letter"
	case strings.HasPrefix(s, "\x1bO") && len(s) > 2:
		return "ss3"
	case s[0] == 27 && len(s) > 1:
		return "esc_text"
	case s[0] < 32 || s[0] == 127:
		return "c0"
	}
	return "text"
}

type funcKey struct {
	code  int  // kitty number
	final byte // of the CSI form: '~', 'u' or a letter
	alt   int  // another number with '~' (letter keys)
}

var funcKeys = func() map[termemu.KeyCode]funcKey {
	m := map[termemu.KeyCode]funcKey{
		termemu.KeyEscape: {27, 'u', 0}, termemu.KeyEnter: {13, 'u', 0}, termemu.KeyTab: {9, 'u', 0}, termemu.KeyBackspace: {127, 'u', 0},
		termemu.KeyInsert: {2, '~', 0}, termemu.KeyDelete: {3, '~', 0}, termemu.KeyPageUp: {5, '~', 0}, termemu.KeyPageDown: {6, '~', 0},
		termemu.KeyLeft: {1, 'D', 0}, termemu.KeyRight: {1, 'C', 0}, termemu.KeyUp: {1, 'A', 0}, termemu.KeyDown: {1, 'B', 0},
		termemu.KeyHome: {1, 'H', 7}, termemu.KeyEnd: {1, 'F', 8}, termemu.KeyKPBegin: {1, 'E', 57427},
		termemu.KeyF1: {1, 'P', 11}, termemu.KeyF2: {1, 'Q', 12}, termemu.KeyF3: {13, '~', 0}, termemu.KeyF4: {1, 'S', 14},
		termemu.KeyF5: {15, '~', 0}, termemu.KeyF6: {17, '~', 0}, termemu.KeyF7: {18, '~', 0}, termemu.KeyF8: {19, '~', 0},
		termemu.KeyF9: {20, '~', 0}, termemu.KeyF10: {21, '~', 0}, termemu.KeyF11: {23, '~', 0}, termemu.KeyF12: {24, '~', 0},
	}
	for i, c := range []termemu.KeyCode{termemu.KeyCapsLock, termemu.KeyScrollLock, termemu.KeyNumLock, termemu.KeyPrintScreen, termemu.KeyPause, termemu.KeyMenu} {
		m[c] = funcKey{57358 + i, 'u', 0}
	}
	for i := 13; i <= 35; i++ {
		m[termemu.KeyF13+termemu.KeyCode(i-13)] = funcKey{57376 + i - 13, 'u', 0}
	}
	for i, c := range []termemu.KeyCode{termemu.KeyKP0, termemu.KeyKP1, termemu.KeyKP2, termemu.KeyKP3, termemu.KeyKP4, termemu.KeyKP5,
		termemu.KeyKP6, termemu.KeyKP7, termemu.KeyKP8, termemu.KeyKP9, termemu.KeyKPDecimal, termemu.KeyKPDivide, termemu.KeyKPMultiply,
		termemu.KeyKPSubtract, termemu.KeyKPAdd, termemu.KeyKPEnter, termemu.KeyKPEqual, termemu.KeyKPSeparator, termemu.KeyKPLeft,
		termemu.KeyKPRight, termemu.KeyKPUp, termemu.KeyKPDown, termemu.KeyKPPageUp, termemu.KeyKPPageDown, termemu.KeyKPHome,
		termemu.KeyKPEnd, termemu.KeyKPInsert, termemu.KeyKPDelete} {
		m[c] = funcKey{57399 + i, 'u', 0}
	}
	for i, c := range []termemu.KeyCode{termemu.KeyMediaPlay, termemu.KeyMediaPause, termemu.KeyMediaPlayPause, termemu.KeyMediaReverse,
		termemu.KeyMediaStop, termemu.KeyMediaFastForward, termemu.KeyMediaRewind, termemu.KeyMediaTrackNext, termemu.KeyMediaTrackPrev,
		termemu.KeyMediaRecord, termemu.KeyVolumeDown, termemu.KeyVolumeUp, termemu.KeyVolumeMute, termemu.KeyLeftShift,
		termemu.KeyLeftControl, termemu.KeyLeftAlt, termemu.KeyLeftSuper, termemu.KeyLeftHyper, termemu.KeyLeftMeta, termemu.KeyRightShift,
		termemu.KeyRightControl, termemu.KeyRightAlt, termemu.KeyRightSuper, termemu.KeyRightHyper, termemu.KeyRightMeta,
		termemu.KeyISOLevel3Shift, termemu.KeyISOLevel5Shift} {
		m[c] = funcKey{57428 + i, 'u', 0}
	}
	return m
}()

var keypadEq = map[termemu.KeyCode]Key{
	termemu.KeyKP0: {Rune: '0'}, termemu.KeyKP1: {Rune: '1'}, termemu.KeyKP2: {Rune: '2'}, termemu.KeyKP3: {Rune: '3'},
	termemu.KeyKP4: {Rune: '4'}, termemu.KeyKP5: {Rune: '5'}, termemu.KeyKP6: {Rune: '6'}, termemu.KeyKP7: {Rune: '7'},
	termemu.KeyKP8: {Rune: '8'}, termemu.KeyKP9: {Rune: '9'}, termemu.KeyKPDecimal: {Rune: '.'}, termemu.KeyKPDivide: {Rune: '/'},
	termemu.KeyKPMultiply: {Rune: '*'}, termemu.KeyKPSubtract: {Rune: '-'}, termemu.KeyKPAdd: {Rune: '+'}, termemu.KeyKPEqual: {Rune: '='},
	termemu.KeyKPSeparator: {Rune: ','}, termemu.KeyKPEnter: {Code: int(termemu.KeyEnter)}, termemu.KeyKPLeft: {Code: int(termemu.KeyLeft)},
	termemu.KeyKPRight: {Code: int(termemu.KeyRight)}, termemu.KeyKPUp: {Code: int(termemu.KeyUp)}, termemu.KeyKPDown: {Code: int(termemu.KeyDown)},
	termemu.KeyKPPageUp: {Code: int(termemu.KeyPageUp)}, termemu.KeyKPPageDown: {Code: int(termemu.KeyPageDown)},
	termemu.KeyKPHome: {Code: int(termemu.KeyHome)}, termemu.KeyKPEnd: {Code: int(termemu.KeyEnd)},
	termemu.KeyKPInsert: {Code: int(termemu.KeyInsert)}, termemu.KeyKPDelete: {Code: int(termemu.KeyDelete)},
}

// anyText stands for any text at the end of an admissible encoding.
const anyText = "*"

func isModKey(c termemu.KeyCode) bool {
	switch c {
	case termemu.KeyLeftShift, termemu.KeyLeftControl, termemu.KeyLeftAlt, termemu.KeyLeftSuper, termemu.KeyLeftHyper, termemu.KeyLeftMeta,
		termemu.KeyRightShift, termemu.KeyRightControl, termemu.KeyRightAlt, termemu.KeyRightSuper, termemu.KeyRightHyper, termemu.KeyRightMeta,
		termemu.KeyISOLevel3Shift, termemu.KeyISOLevel5Shift:
		return true
	}
	return false
}

func isLockKey(c termemu.KeyCode) bool {
	return c == termemu.KeyCapsLock || c == termemu.KeyScrollLock || c == termemu.KeyNumLock
}

// shiftedRune is what shift and the key produce.
func shiftedRune(k *Key) rune {
	if k.Shifted != 0 {
		return k.Shifted
	}
	return unicode.ToUpper(k.Rune)
}

// keyAccept returns the canonical encodings that are right for k, or nil if the
// documents leave it open.
func keyAccept(k *Key, ms modeState) []string {
	code := termemu.KeyCode(k.Code)
	fl := ms.kbd
	if fl < 0 || fl > 31 {
		return nil
	}
	silent := canonRaw("")
	if k.Event == 3 && fl&2 == 0 {
		return []string{silent}
	}
	if isModKey(code) && fl&8 == 0 {
		return []string{silent}
	}
	var out []string
	switch {
	case fl == 0:
		out = legacyAccept(k, ms)
	case fl&16 != 0 && fl&8 == 0:
		// report text without report all is undefined: there may be text or not
		ms.kbd &^= 16
		out = kittyAccept(k, ms)
		if ms.kbd == 0 && out != nil {
			ms.mok = 0
			out = append(out, legacyAccept(k, ms)...)
		}
		for _, a := range out {
			if strings.HasPrefix(a, "CSI ") {
				out = append(out, a+anyText)
			}
		}
	default:
		out = kittyAccept(k, ms)
	}
	if out != nil && isLockKey(code) && fl&8 == 0 {
		out = append(out, silent)
	}
	return out
}

// modsField returns modifiers and event for the flags in force.
func modsField(k *Key, mods, fl int) []int {
	ev := 1
	if fl&2 != 0 && k.Event > 1 {
		ev = k.Event
	}
	return []int{1 + mods, ev}
}

func kittyAccept(k *Key, ms modeState) []string {
	fl := ms.kbd
	code := termemu.KeyCode(k.Code)
	legacy := func() []string {
		if k.Event == 3 {
			return []string{canonRaw("")}
		}
		return legacyAccept(k, ms)
	}
	if code == termemu.KeyRune {
		if k.Rune == 0 || unicode.IsControl(k.Rune) {
			return nil
		}
		if k.Mod&mShift != 0 && unicode.IsUpper(k.Rune) {
			// the key is the unshifted one
			a := *k
			a.Rune = unicode.ToLower(k.Rune)
			if a.Shifted == 0 {
				a.Shifted = k.Rune
			}
			b := *k
			b.Rune = a.Rune
			return append(kittyAccept(&a, ms), kittyAccept(&b, ms)...)
		}
		nums := [][]int{{int(unicode.ToLower(k.Rune))}}
		if fl&4 != 0 {
			nums[0] = append(nums[0], 0, int(k.Base))
			if k.Mod&mShift != 0 {
				nums[0][1] = int(k.Shifted)
			}
			if k.Mod&mShift != 0 && k.Shifted == 0 && unicode.ToUpper(k.Rune) != k.Rune || unicode.IsUpper(k.Rune) {
				// the caller did not say what the shifted key is
				nums = append(nums, []int{nums[0][0], int(unicode.ToUpper(k.Rune)), int(k.Base)})
			}
		}
		each := func(mods []int, texts ...[]int) (out []string) {
			for _, num := range nums {
				for _, text := range texts {
					out = append(out, canonCSI('u', num, mods, text))
				}
			}
			return out
		}
		if fl&8 != 0 {
			texts := [][]int{nil}
			if fl&16 != 0 && k.Event != 3 {
				of := func(rs ...rune) (text []int) {
					for _, r := range rs {
						if !unicode.IsControl(r) {
							text = append(text, int(r))
						}
					}
					return text
				}
				if len(k.Text) > 0 || k.Mod&^(mShift|mLocks) != 0 {
					texts[0] = of(k.Text...)
				} else {
					r := k.Rune
					if k.Mod&mShift != 0 {
						r = shiftedRune(k)
					}
					texts[0] = of(r)
					if k.Mod&mShift != 0 && k.Shifted == 0 && !unicode.IsLetter(k.Rune) {
						texts = append(texts, nil) // the caller did not say
					}
					if k.Mod&mCaps != 0 {
						texts = append(texts, of(unicode.ToUpper(r)), of(unicode.ToLower(r)))
					}
				}
			}
			return each(modsField(k, k.Mod, fl), texts...)
		}
		m := k.Mod &^ mLocks
		if fl&1 != 0 && m&(mAlt|mCtrl|mSuper|mHyper|mMeta) != 0 {
			return each(modsField(k, m, fl), nil)
		}
		l := legacy()
		if fl&1 == 0 && fl&2 != 0 && m&^mShift != 0 && l != nil {
			// events of ambiguous keys can only be reported with CSI u
			l = append(l, each(modsField(k, m, fl), nil)...)
		}
		return l
	}
	fk, ok := funcKeys[code]
	if !ok {
		return nil
	}
	if eq, isKP := keypadEq[code]; isKP && fl&9 == 0 {
		eq.Mod, eq.Event = k.Mod, k.Event
		return kittyAccept(&eq, ms) // not told apart
	}
	out := []string{}
	mf := modsField(k, k.Mod, fl)
	switch code {
	case termemu.KeyEnter, termemu.KeyTab, termemu.KeyBackspace:
		if fl&8 == 0 {
			return legacy()
		}
	case termemu.KeyEscape:
		if fl&9 == 0 {
			return legacy()
		}
	}
	out = append(out, canonCSI(fk.final, []int{fk.code}, mf, nil))
	if fk.alt != 0 {
		f := byte('~')
		if fk.alt > 50000 {
			f = 'u'
		}
		out = append(out, canonCSI(f, []int{fk.alt}, mf, nil))
	}
	if eq, isKP := keypadEq[code]; isKP {
		if eq.Rune != 0 {
			if fl&8 != 0 && fl&16 != 0 && k.Event != 3 {
				out = append(out, canonCSI('u', []int{fk.code}, mf, []int{int(eq.Rune)}))
			}
			if fl&8 == 0 && k.Mod&^mLocks == 0 && k.Event != 3 {
				out = append(out, canonRaw(string(eq.Rune)))
			}
		}
	}
	if ms.appCursor && fl&9 == 0 && k.Mod == 0 && fk.final >= 'A' && fk.final <= 'H' {
		out = append(out, canonRaw("\x1bO"+string(fk.final)))
	}
	return out
}

const legacyText = "abcdefghijklmnopqrstuvwxyz0123456789`-=[]\\;',./"

func ctrlOf(r rune) (string, bool) {
	if r >= 'a' && r <= 'z' {
		return string(r - 'a' + 1), true
	}
	switch r {
	case ' ', '@', '2':
		return "\x00", true
	case '[', '3':
		return "\x1b", true
	case '\\', '4':
		return "\x1c", true
	case ']', '5':
		return "\x1d", true
	case '^', '~', '6':
		return "\x1e", true
	case '_', '/', '7':
		return "\x1f", true
	case '?', '8':
		return "\x7f", true
	case '0', '1', '9':
		return string(r), true
	}
	return "", false
}

func legacyAccept(k *Key, ms modeState) []string {
	code := termemu.KeyCode(k.Code)
	m := k.Mod &^ mLocks
	esc := ""
	if m&mAlt != 0 {
		esc = "\x1b"
	}
	mok := 0
	if ms.kbd == 0 {
		mok = ms.mok
	}
	if mok > 0 && m&(mSuper|mHyper|mMeta) != 0 {
		// xterm doesn't know these: the form of either mode will do
		n := int(unicode.ToLower(k.Rune))
		ns := []int{n, int(k.Rune), int(k.Shifted), int(unicode.ToUpper(k.Rune))}
		if code != termemu.KeyRune {
			ns = []int{funcKeys[code].code}
		}
		out := legacyAccept(k, modeState{appCursor: ms.appCursor})
		for _, n := range ns {
			out = append(out, canonCSI('~', []int{27}, []int{1 + m}, []int{n}), canonCSI('u', []int{n}, []int{1 + m}, nil))
		}
		if eq := keypadEq[code]; eq.Rune != 0 || eq.Code != 0 {
			if eq.Code != 0 {
				eq.Rune = rune(funcKeys[termemu.KeyCode(eq.Code)].code)
			}
			out = append(out, canonCSI('~', []int{27}, []int{1 + m}, []int{int(eq.Rune)}))
		}
		return out
	}
	if code == termemu.KeyRune {
		r := k.Rune
		if r == 0 || unicode.IsControl(r) || !utf8.ValidRune(r) {
			return nil
		}
		if m&mShift != 0 && (unicode.IsUpper(r) || k.Shifted == 0 && !unicode.IsLetter(r)) {
			// what shift makes of it is not said: it is what was given
			a, b := *k, *k
			a.Rune, a.Shifted = unicode.ToLower(r), r
			b.Mod &^= mShift
			out := append(legacyAccept(&b, ms), canonCSI('u', []int{int(unicode.ToLower(r))}, []int{1 + m}, nil))
			if unicode.IsUpper(r) || !unicode.IsLetter(r) {
				out = append(out, legacyAccept(&a, ms)...)
			}
			if mok > 0 {
				out = append(out, canonCSI('~', []int{27}, []int{1 + m}, []int{int(r)}))
			}
			return out
		}
		low := unicode.ToLower(r)
		u := canonCSI('u', []int{int(low)}, []int{1 + m}, nil)
		if mok > 0 && m != 0 {
			if m == mShift || m&mShift != 0 && k.Shifted != 0 {
				// shifted or unshifted code, and shift alone may be just text
				var out []string
				if m == mShift || mok == 1 {
					out = legacyAccept(k, modeState{})
				}
				for _, n := range []rune{r, shiftedRune(k)} {
					for _, md := range []int{m, m &^ mShift} {
						out = append(out, canonCSI('~', []int{27}, []int{1 + md}, []int{int(n)}))
					}
				}
				return out
			}
			o := canonCSI('~', []int{27}, []int{1 + m}, []int{int(r)})
			if mok == 1 {
				k2 := modeState{}
				return append(legacyAccept(k, k2), o)
			}
			return []string{o}
		}
		if m&^(mShift|mAlt|mCtrl) != 0 {
			return []string{u}
		}
		if m&(mShift|mCtrl) == mShift|mCtrl && strings.ContainsRune(legacyText, low) {
			return []string{u}
		}
		if m&mCtrl != 0 {
			if c, ok := ctrlOf(low); ok && r < 128 {
				out := []string{canonRaw(esc + c)}
				if m&mShift != 0 {
					out = append(out, u)
				}
				return out
			}
			out := []string{u, canonRaw(esc + string(r))}
			if m&mShift != 0 {
				out = append(out, canonRaw(esc+string(shiftedRune(k))))
			}
			return out
		}
		if m&mShift != 0 {
			return []string{canonRaw(esc + string(shiftedRune(k)))}
		}
		return []string{canonRaw(esc + string(r))}
	}
	fk, ok := funcKeys[code]
	if !ok {
		return nil
	}
	if eq, isKP := keypadEq[code]; isKP {
		eq.Mod, eq.Event = k.Mod, k.Event
		out := legacyAccept(&eq, ms)
		if out == nil {
			return nil
		}
		return out
	}
	switch code {
	case termemu.KeyEnter, termemu.KeyTab, termemu.KeyBackspace, termemu.KeyEscape:
		if mok > 0 && m != 0 {
			if code == termemu.KeyTab && m == mShift {
				return []string{canonRaw("\x1b[Z"), canonCSI('Z', nil, nil, nil)}
			}
			o := canonCSI('~', []int{27}, []int{1 + m}, []int{fk.code})
			if mok == 1 {
				return append(legacyAccept(k, modeState{}), o)
			}
			return []string{o}
		}
		if m&^(mShift|mAlt|mCtrl) != 0 || m == mShift|mAlt|mCtrl {
			return []string{canonCSI('u', []int{fk.code}, []int{1 + m}, nil)}
		}
		switch {
		case code == termemu.KeyEnter:
			return []string{canonKey(esc + "\r")}
		case code == termemu.KeyEscape:
			return []string{canonKey(esc + "\x1b")}
		case code == termemu.KeyBackspace && m&mCtrl != 0:
			return []string{canonKey(esc + "\b")}
		case code == termemu.KeyBackspace:
			return []string{canonKey(esc + "\x7f")}
		case m&mShift != 0:
			return []string{canonKey(esc + "\x1b[Z")}
		}
		return []string{canonKey(esc + "\t")}
	case termemu.KeyF1, termemu.KeyF2, termemu.KeyF4, termemu.KeyF3:
		f := map[termemu.KeyCode]string{termemu.KeyF1: "P", termemu.KeyF2: "Q", termemu.KeyF3: "R", termemu.KeyF4: "S"}[code]
		if m == 0 {
			return []string{canonRaw("\x1bO" + f)}
		}
		out := []string{canonCSI(f[0], nil, []int{1 + m}, nil)}
		if code == termemu.KeyF3 {
			out = append(out, canonCSI('~', []int{13}, []int{1 + m}, nil))
		}
		return out
	case termemu.KeyMenu:
		return []string{canonCSI('~', []int{29}, []int{1 + m}, nil)}
	}
	if fk.final >= 'A' && fk.final <= 'H' && m == 0 && ms.appCursor {
		return []string{canonRaw("\x1bO" + string(fk.final))}
	}
	return []string{canonCSI(fk.final, []int{fk.code}, []int{1 + m}, nil)}
}

// mouseReport returns the reports that are acceptable for a mouse event ("" for
// none), or nil if that is left open.
func mouseReport(a []int, ms modeState) []string {
	btn, press, mods, x, y := a[0], a[1] == 1, a[2], a[3], a[4]
	motion, wheel := mods&32 != 0, mods&64 != 0
	if mods&3 != 0 || mods > 127 || btn == 3 && !motion && press || motion && wheel {
		return nil
	}
	none := []string{""}
	switch ms.mouse {
	case 0:
		return none
	case 1:
		if !press || motion {
			return none
		}
	case 2:
		if motion {
			return none
		}
	case 3:
		if motion && btn == 3 {
			return none
		}
		if motion && !press { // whether a button is held is not told
			return nil
		}
	}
	if wheel && !press || motion && !press && btn != 3 {
		return nil
	}
	b := btn&3 | mods
	switch ms.enc {
	case 2:
		if x < 1 || y < 1 {
			return nil
		}
		rep := fmt.Sprintf("\x1b[<%d;%d;%d", b, x, y)
		switch {
		case motion && !press:
			return []string{rep + "M", rep + "m"}
		case press:
			return []string{rep + "M"}
		}
		return []string{rep + "m"}
	case 1:
		if !press {
			b |= 3
		}
		if x < 1 || y < 1 {
			return nil
		}
		out := []string{"\x1b[M" + string(rune(32+b)) + string(rune(32+x)) + string(rune(32+y))}
		if x > 2015 || y > 2015 { // beyond two bytes
			out = append(out, "\x1b[M"+string(rune(32+b))+string(rune(32+min(x, 2015)))+string(rune(32+min(y, 2015))))
		}
		return out
	}
	if !press {
		b |= 3
	}
	return []string{string([]byte{27, '[', 'M', byte(32 + b), byte(32 + clampI(x, 1, 223)), byte(32 + clampI(y, 1, 223))})}
}
