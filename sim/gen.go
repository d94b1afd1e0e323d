package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/ricochet1k/termemu"
)

// Scenario generation. Each property has a profile: which classes of input it
// favours, which operations run beside the stream and which faults occur.

type gen struct {
	r     *Rng
	sc    *Scenario
	w, h  int // largest size in use
	n     int // tokens to make
	big   bool
	simpl bool // text without fragments of characters
}

type cw struct {
	c string
	w int
}

var profiles = map[string][]cw{
	"C01": {{"text", 20}, {"cup", 8}, {"motion", 12}, {"lf", 6}, {"erase", 10}, {"scroll", 10}, {"margin", 6}, {"sgr", 6}, {"mode", 3}, {"alt", 3}, {"wrap", 3}, {"kbd", 3}, {"query", 3}, {"osc", 3}, {"dcs", 2}, {"csi?", 4}, {"esc?", 3}, {"save", 3}, {"c0?", 2}},
	"C02": {{"text", 26}, {"cup", 12}, {"motion", 10}, {"lf", 6}, {"erase", 14}, {"scroll", 10}, {"margin", 7}, {"sgr", 6}, {"alt", 3}, {"wrap", 4}, {"query", 2}, {"save", 4}, {"csi?", 1}},
	"C03": {{"text", 55}, {"cup", 20}, {"wrap", 7}, {"sgr", 7}, {"margin", 3}, {"lf", 3}, {"motion", 3}, {"erase", 2}},
	"C04": {{"motion", 42}, {"text", 14}, {"cup", 14}, {"lf", 12}, {"margin", 9}, {"save", 8}, {"wrap", 2}, {"sgr", 2}, {"query", 3}, {"alt", 1}},
	"C05": {{"erase", 42}, {"text", 24}, {"cup", 20}, {"sgr", 9}, {"lf", 2}, {"margin", 2}, {"wrap", 2}},
	"C06": {{"scroll", 34}, {"margin", 14}, {"text", 18}, {"cup", 14}, {"lf", 10}, {"sgr", 6}, {"wrap", 4}, {"alt", 2}, {"motion", 3}},
	"C07": {{"sgr", 46}, {"text", 22}, {"erase", 14}, {"cup", 14}, {"scroll", 4}, {"alt", 3}, {"wrap", 2}},
	"C08": {{"text", 28}, {"cup", 8}, {"motion", 8}, {"lf", 5}, {"erase", 7}, {"scroll", 6}, {"margin", 3}, {"sgr", 7}, {"mode", 4}, {"alt", 2}, {"wrap", 3}, {"kbd", 4}, {"query", 5}, {"osc", 5}, {"dcs", 3}, {"csi?", 4}, {"esc?", 3}, {"c0?", 2}},
	"C09": {{"text", 26}, {"cup", 5}, {"osc", 20}, {"dcs", 10}, {"csi?", 24}, {"esc?", 12}, {"sgr", 4}, {"erase", 2}, {"motion", 3}, {"mode", 2}, {"c0?", 3}, {"query", 2}},
	"C10": {{"text", 26}, {"cup", 10}, {"motion", 8}, {"lf", 9}, {"erase", 10}, {"scroll", 10}, {"margin", 6}, {"sgr", 6}, {"mode", 5}, {"alt", 5}, {"wrap", 4}, {"save", 4}, {"osc", 3}, {"bell", 1}},
	"C11": {{"text", 34}, {"cup", 14}, {"sgr", 22}, {"erase", 10}, {"scroll", 7}, {"lf", 4}, {"margin", 3}, {"alt", 2}, {"wrap", 3}, {"show", 3}, {"motion", 3}},
	"C12": {{"kbd", 40}, {"keymode", 24}, {"alt", 8}, {"mok", 10}, {"text", 8}, {"cup", 3}, {"query", 4}},
	"C13": {{"mouse", 60}, {"text", 12}, {"alt", 4}, {"mode", 8}, {"cup", 4}, {"query", 6}},
	"C14": {{"query", 40}, {"nonquery", 10}, {"text", 12}, {"cup", 10}, {"motion", 8}, {"lf", 4}, {"kbd", 6}, {"alt", 4}, {"margin", 3}, {"osc", 2}, {"csi?", 4}, {"esc?", 2}, {"c0?", 3}, {"mode", 3}, {"scroll", 2}, {"sgr", 2}},
	"C15": {{"text", 26}, {"cup", 8}, {"motion", 6}, {"lf", 6}, {"erase", 8}, {"scroll", 6}, {"margin", 3}, {"sgr", 6}, {"mode", 4}, {"mouse", 5}, {"alt", 6}, {"wrap", 3}, {"kbd", 6}, {"query", 6}, {"osc", 3}, {"dcs", 2}, {"csi?", 2}, {"esc?", 2}, {"mok", 2}, {"keymode", 3}},
	"C16": {{"text", 46}, {"cup", 8}, {"lf", 8}, {"sgr", 6}, {"query", 10}, {"osc", 5}, {"dcs", 3}, {"csi?", 3}, {"erase", 3}, {"wrap", 3}, {"motion", 3}},
	"C17": {{"mode", 30}, {"alt", 18}, {"mouse", 6}, {"wrap", 6}, {"text", 16}, {"cup", 6}, {"margin", 4}, {"sgr", 4}, {"kbd", 7}, {"save", 4}, {"scroll", 3}, {"lf", 3}, {"query", 3}},
	"C18": {{"text", 30}, {"cup", 16}, {"motion", 7}, {"lf", 7}, {"erase", 7}, {"scroll", 7}, {"margin", 9}, {"sgr", 6}, {"alt", 5}, {"wrap", 4}, {"save", 6}},
	"C19": {{"kbd", 62}, {"kbdq", 22}, {"alt", 12}, {"text", 4}, {"csi?", 1}},
	"C20": {{"text", 34}, {"cup", 14}, {"motion", 8}, {"lf", 7}, {"erase", 12}, {"scroll", 10}, {"margin", 6}, {"sgr", 8}, {"wrap", 5}, {"save", 3}, {"alt", 3}, {"osc", 1}},
}

// common holds, per property, the classes its profile leaves out: the state in
// which the property must hold is reached with them too.
var common = map[string][]cw{}

func init() {
	all := strings.Fields("text cup motion lf erase scroll margin sgr mode alt wrap save osc dcs csi? esc? kbd query bell")
	for p, ws := range profiles {
		for _, c := range all {
			has := false
			for _, w := range ws {
				has = has || w.c == c
			}
			if !has {
				common[p] = append(common[p], cw{c, 3})
			}
		}
	}
}

// swarm drops some classes altogether and changes the weight of others.
func (g *gen) weights() []cw {
	var out []cw
	ps := profiles[g.sc.Prop]
	if g.r.P(3) && len(common[g.sc.Prop]) > 0 { // something of everything else
		ps = append(append([]cw(nil), ps...), common[g.sc.Prop]...)
	}
	for _, c := range ps {
		k := c.w
		switch g.r.N(8) {
		case 0:
			if k < 20 {
				k = 0
			}
		case 1:
			k *= 3
		}
		if k > 0 {
			out = append(out, cw{c.c, k})
		}
	}
	return out
}

func (g *gen) pick(ws []cw) string {
	sum := 0
	for _, c := range ws {
		sum += c.w
	}
	n := g.r.N(sum)
	for _, c := range ws {
		if n < c.w {
			return c.c
		}
		n -= c.w
	}
	return ws[0].c
}

func (g *gen) size() (int, int) {
	r := g.r
	switch r.N(12) {
	case 0:
		return 1, 1
	case 1:
		return 1, r.R(1, 6)
	case 2:
		return r.R(1, 12), 1
	case 3, 4:
		return r.R(2, 4), r.R(2, 9)
	case 5, 6, 7:
		return r.R(4, 12), r.R(2, 6)
	case 8:
		return r.R(10, 40), r.R(3, 12)
	case 9:
		return r.R(7, 9), r.R(7, 18)
	}
	return r.R(2, 20), r.R(2, 10)
}

// num returns a parameter for a dimension of d.
func (g *gen) num(d int) string {
	r := g.r
	switch r.N(16) {
	case 0:
		return ""
	case 1:
		return "0"
	case 2:
		return "1"
	case 3:
		return strconv.Itoa(d)
	case 4:
		return strconv.Itoa(d + 1)
	case 5:
		return strconv.Itoa(max(d-1, 0))
	case 6:
		return []string{"255", "999", "32768", "65536", "16777216", "2147483647", "2147483648", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551617", "99999999999999999999999999"}[r.N(12)]
	case 7:
		return "0" + strconv.Itoa(r.R(0, d))
	}
	return strconv.Itoa(r.R(1, max(d, 2)))
}

func csi(prefix string, final byte, ps ...string) []byte {
	return []byte("\x1b[" + prefix + strings.Join(ps, ";") + string(final))
}

// csi1 is a CSI sequence whose only parameter may be left out.
func (g *gen) csi1(final byte, d int) []byte { return csi("", final, g.num(d)) }

var narrowPool = []string{"é", "ß", "Ж", "λ", "│", "─", "█", "→", "\u00a0", "ñ", "½", "\u2028"}
var widePool = []string{"世", "界", "漢", "😀", "ｗ", "한", "。", "🚀"}
var oddRunePool = []string{"\u0301", "\u200d", "\u00ad", "\u0085", "\u009b", "\ufe0f", "\ufffd", "\U0010ffff", "\U000e0100", "\u200b", "🇺", "\u1100"}
var invalidPool = []string{"\xff", "\xc3", "\xe4\xb8", "\xf0\x9f\x98", "\xc0\x80", "\xed\xa0\x80", "\x80", "\xbf", "\xf5\x80\x80\x80", "\xe4"}

// spacing holds marks that take a column of their own and still belong to the
// character before them.
var spacing = []string{"\u0903", "\u093e", "\u0bbe"}
var clusterPool = []string{"🇿🇦", "🇦🇿", "🏳\ufe0f\u200d🌈", "\u1112\u1161\u11ab", "🙋🏾\u200d♀\ufe0f", "x\u0301\u0302\u0303\u0304", "e\u0301", "a\u0308\u0301", "👍🏽", "👨\u200d👩\u200d👧", "❤\ufe0f", "🇺🇸", "🇩🇪", "n\u0303", "한", "1\ufe0f\u20e3", "a\u0903", "क\u093e\u0903"}
var fragPool = []string{"🇦", "🇿", "\u0301", "\u200d", "\ufe0f", "🇺", "🇸", "\u0308", "🏽", "\u20e3", "\u0903"}

func (g *gen) char() string {
	r := g.r
	n := r.N(100)
	switch {
	case n < 52:
		return string(rune('!' + r.N(94)))
	case n < 60:
		return " "
	case n < 68:
		return narrowPool[r.N(len(narrowPool))]
	case n < 86:
		return widePool[r.N(len(widePool))]
	}
	if g.sc.Mode == 0 {
		if n < 93 {
			return oddRunePool[r.N(len(oddRunePool))]
		}
		if n < 97 {
			return invalidPool[r.N(len(invalidPool))]
		}
		return string(rune(r.R(0xa0, 0x2fff)))
	}
	if n < 95 || g.simpl {
		if g.sc.Grid || g.sc.Kind == "twin" {
			if g.w > 250 && r.P(3) {
				return "a" + strings.Repeat(spacing[0], []int{r.R(1, 20), r.R(100, 130), r.R(240, g.w+2)}[r.N(3)])
			}
			return clusterPool[[]int{0, 1, 4, 7, 8, 10, 11}[r.N(7)]]
		}
		return clusterPool[r.N(len(clusterPool))]
	}
	if n < 99 {
		return fragPool[r.N(len(fragPool))]
	}
	return invalidPool[r.N(len(invalidPool))]
}

func (g *gen) text() []byte {
	r := g.r
	var sb strings.Builder
	n := 1
	switch r.N(8) {
	case 0, 1:
		n = 1
	case 2, 3, 4:
		n = r.R(2, 6)
	case 5:
		n = r.R(g.w/2, g.w+2)
	case 6:
		n = r.R(g.w, 2*g.w+3)
	case 7:
		n = r.R(1, 12)
	}
	if g.big && r.P(4) {
		n = r.R(50, 600)
	}
	if r.P(8) { // as wide as the screen, in one style
		c := g.char()
		if r.P(2) {
			c = string(rune('A' + r.N(26)))
		}
		return []byte("\r" + strings.Repeat(c, g.w+[]int{0, 0, 0, -1, 1}[r.N(5)]))
	}
	if g.sc.Mode == 1 && !g.simpl && !g.sc.Grid && r.P(12) { // pieces, some of them apart
		for i := r.R(2, 8); i > 0; i-- {
			sb.WriteString(fragPool[r.N(len(fragPool))])
			if r.P(3) {
				sb.WriteString([]string{"\x1b[1m", "\x1b[m", "\a", "\x00", "x", "\x1b[C", "\b"}[r.N(7)])
			}
		}
		return []byte(sb.String())
	}
	switch r.N(6) {
	case 0: // one character repeated
		c := g.char()
		for i := 0; i < n; i++ {
			sb.WriteString(c)
		}
	case 1: // plain
		for i := 0; i < n; i++ {
			sb.WriteByte(byte('a' + r.N(26)))
		}
	case 2: // wide and narrow
		for i := 0; i < n; i++ {
			if r.P(2) {
				sb.WriteString(widePool[r.N(len(widePool))])
			} else {
				sb.WriteByte(byte('A' + r.N(26)))
			}
		}
	default:
		for i := 0; i < n; i++ {
			sb.WriteString(g.char())
		}
	}
	return []byte(sb.String())
}

func (g *gen) sgr() []byte {
	r := g.r
	var ps []string
	n := 1
	switch r.N(10) {
	case 0:
		if r.P(2) {
			return csi("", 'm')
		}
		n = r.R(5, 14)
		if r.P(6) {
			n = r.R(15, 90)
			if r.P(5) {
				n = r.R(91, 600)
			}
		}
	case 1, 2, 3:
		n = r.R(2, 4)
	}
	for len(ps) < n {
		switch r.N(15) {
		case 0:
			ps = append(ps, []string{"", "0", "00"}[r.N(3)])
		case 1, 2:
			ps = append(ps, strconv.Itoa(r.R(1, 9)))
		case 3:
			ps = append(ps, strconv.Itoa([]int{21, 22, 23, 24, 25, 27, 28, 29}[r.N(8)]))
		case 4:
			ps = append(ps, strconv.Itoa([]int{51, 52, 53, 54, 55, 21, 6, 5}[r.N(8)]))
		case 5:
			ps = append(ps, strconv.Itoa(30+r.N(8)))
		case 6:
			ps = append(ps, strconv.Itoa(40+r.N(8)))
		case 7:
			ps = append(ps, strconv.Itoa(90+r.N(8)))
		case 8:
			ps = append(ps, strconv.Itoa(100+r.N(8)))
		case 9, 10:
			c := []int{r.N(256), r.N(8), 8 + r.N(8), 0, 255, 7, 15, 16}[r.N(8)]
			ps = append(ps, []string{"38", "48"}[r.N(2)], "5", strconv.Itoa(c))
		case 11:
			f := func() string { return strconv.Itoa([]int{0, 255, 1, 128, 127, r.N(256), r.N(256)}[r.N(7)]) }
			ps = append(ps, []string{"38", "48"}[r.N(2)], "2", f(), f(), f())
		case 12:
			ps = append(ps, []string{"39", "49"}[r.N(2)])
		case 13:
			ps = append(ps, strconv.Itoa(r.N(256)))
		case 14:
			// not a colour that is known, or one that is cut off
			p := []string{"38", "48", "58"}[r.N(3)]
			f := func() string { return strconv.Itoa([]int{0, 1, 4, 31, 107, r.N(256)}[r.N(6)]) }
			switch r.N(6) {
			case 0:
				ps = append(ps, p)
			case 1:
				ps = append(ps, p, strconv.Itoa([]int{0, 1, 3, 4, 9, 31, r.N(256)}[r.N(7)]))
			case 2:
				ps = append(ps, "58", "5", f())
			case 3:
				ps = append(ps, "58", "2", f(), f(), f())
			default:
				ps = append(ps, p, []string{"5", "2", "2"}[r.N(3)])
				if ps[len(ps)-1] == "2" {
					for j := r.N(3); j > 0; j-- {
						ps = append(ps, f())
					}
				}
				return csi("", 'm', ps...)
			}
		}
	}
	return csi("", 'm', ps...)
}

var privModes = []int{1, 7, 9, 12, 25, 1000, 1002, 1003, 1004, 1005, 1006, 1015, 1049, 2004}

func (g *gen) mode(set []int) []byte {
	r := g.r
	n := 1
	if r.P(3) {
		n = r.R(2, 5)
		if r.P(20) {
			n = r.R(6, 40)
		}
	}
	var ps []string
	for i := 0; i < n; i++ {
		if r.P(40) {
			m := r.N(2100)
			known := m == 1034
			for _, k := range privModes {
				known = known || m == k
			}
			if !known {
				ps = append(ps, strconv.Itoa(m))
				continue
			}
		}
		if r.P(14) {
			ps = append(ps, []string{"2026", "47", "1048", "3", "66", "80", "", "0", "1001", "99999"}[r.N(10)])
			continue
		}
		ps = append(ps, strconv.Itoa(set[r.N(len(set))]))
	}
	return csi("?", "hl"[r.N(2)], ps...)
}

func (g *gen) kbd() []byte {
	r := g.r
	fl := func() string {
		switch r.N(8) {
		case 0:
			return ""
		case 1:
			return "0"
		case 2:
			return strconv.Itoa(1 << r.N(5))
		}
		return strconv.Itoa(r.N(32))
	}
	switch r.N(10) {
	case 0, 1, 2:
		b := csi(">", 'u', fl())
		if r.P(12) && g.sc.Prop != "C12" { // deep
			return []byte(strings.Repeat(string(b), r.R(10, 40)))
		}
		if r.P(6) { // deep, with distinct entries
			var out []byte
			for i, n := 0, r.R(28, 40); i < n; i++ {
				out = append(out, csi(">", 'u', strconv.Itoa(r.N(32)))...)
			}
			return out
		}
		return b
	case 3, 4, 5:
		n := []string{"", "0", "1", "1", "2", "3", "5", "31", "32", "33", "99999999999999999999"}[r.N(11)]
		return csi("<", 'u', n)
	}
	switch r.N(8) {
	case 0:
		return csi("=", 'u', fl())
	case 1:
		return csi("=", 'u', fl(), []string{"", "0", "4", "9"}[r.N(4)])
	}
	return csi("=", 'u', fl(), strconv.Itoa(r.R(1, 3)))
}

// what applications send
var oscPool = []string{"file:", "file:/", "file://", "file://host", "file://host/", "file:///tmp/a%20b", "/", "~", "?", "  x  ", " ",
	"user@host: ~/src", "vim - a.go", "c;aGVsbG8=", "c;?", ";", ";;", ";http://a.b/c", "id=1;http://a.b", "A", "D;0", "0;rgb:ff/ff/ff", "?", "?",
	"#ff8800", "rgb:ffff/0000/8080", "1;?", "notify;a;b", "9;4;1;50", "File=name=YQ==;inline=1:", "\u200b", "e\u0301", "\ufeff", "\\", "%s%d%n", "2;b", "]2;"}

var dcsPool = []string{"$qm", "$q q", "$q\"p", "+q544e;524742", "q#0;2;0;0;0#0~~@@vv@@~~$-", "1$r0m", ">|x", "tmux;", "=1s", "0;1|17/ab", "{", "\\", "[", "]", "["}

func (g *gen) osc() []byte {
	r := g.r
	num := []string{"0", "2", "6", "7", "0", "2", "1", "4", "8", "9", "10", "11", "4", "12", "52", "104", "112", "133", "777", "1337", "20", "66", "99999999999"}[r.N(23)]
	var sb strings.Builder
	sb.WriteString("\x1b]" + num)
	if r.N(20) > 0 || len(num) == 1 && strings.Contains("0267", num) {
		sb.WriteByte(';')
		n := []int{0, 1, r.R(2, 10), r.R(2, 30)}[r.N(4)]
		if g.big && r.P(6) || r.P(60) {
			n = r.R(100, 3000)
			if r.P(3) {
				n = r.R(1000, 9000)
			}
			if r.P(25) {
				n = r.R(9000, 140000)
			}
		}
		if r.P(5) {
			if r.P(5) { // palette entries
				fmt.Fprintf(&sb, "%d;%s", []int{r.N(16), r.N(256), 255, 256, r.N(1000), -1}[r.N(6)], []string{"?", "rgb:ff/00/ff", "rgb:ffff/0/8080", "#123456", "red", "#12", "rgb:"}[r.N(7)])
			} else {
				sb.WriteString(oscPool[r.N(len(oscPool))])
			}
			n = min(n, r.N(3))
		}
		for i := 0; i < n; i++ {
			switch r.N(12) {
			case 0:
				sb.WriteString(widePool[r.N(len(widePool))])
			case 1:
				sb.WriteString([]string{"Ü", "ü", "✜", "\u07dc", "🜜", "\u271c", "\u009c", "\U00100700", "\u081c"}[r.N(9)]) // contain 0x9c
			case 2:
				sb.WriteString([]string{";", ":", "/", "\\", "[", "]", "file://"}[r.N(7)])
			case 3:
				sb.WriteString([]string{"\r", "\n", "\t", "\x01", "\x7f", " ", "\x00", "\x18", "\x1a", "\x0e", "\x05", "\x08"}[r.N(12)])
			case 4: // not UTF-8
				sb.WriteString([]string{"\xffz", "\xe4A", "\xc3\x7f", "\xe4\xb8 ", "\xf0\x9f\x98~", "\xc0.", "\xbf-"}[r.N(7)])
			default:
				sb.WriteByte(byte('!' + r.N(94)))
			}
		}
	}
	sb.WriteString([]string{"\a", "\x1b\\", "\x9c", "\a"}[r.N(4)])
	return []byte(sb.String())
}

func (g *gen) dcs() []byte {
	r := g.r
	var sb strings.Builder
	sb.WriteString("\x1bP")
	n := []int{0, 1, r.R(2, 12), r.R(2, 30)}[r.N(4)]
	if r.P(60) {
		n = r.R(100, 9000)
		if r.P(20) {
			n = r.R(9000, 140000)
		}
	}
	if r.P(5) {
		sb.WriteString(dcsPool[r.N(len(dcsPool))])
		n = min(n, r.N(3))
	}
	for i := 0; i < n; i++ {
		switch r.N(10) {
		case 0:
			sb.WriteString(widePool[r.N(len(widePool))])
		case 1:
			sb.WriteString([]string{"$q", "+q", "1;2|", "\a", "\r\n", "Ü", "\u07dc", "\x18", "\x1a", "\x00", "\x7f", "\x05"}[r.N(12)])
		default:
			sb.WriteByte(byte(' ' + r.N(95)))
		}
	}
	sb.WriteString([]string{"\x1b\\", "\x1b\\", "\x9c"}[r.N(3)])
	return []byte(sb.String())
}

// unknownCSI is a well-formed control sequence that means nothing here.
func (g *gen) unknownCSI() []byte {
	r := g.r
	prefix := []string{"", "", "?", ">", "<", "="}[r.N(6)]
	var ps strings.Builder
	n := []int{0, 1, 2, r.R(3, 20), r.R(3, 70)}[r.N(5)]
	if r.P(400) {
		n = r.R(100, 3000)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			ps.WriteByte(';')
		}
		if r.P(300) {
			ps.WriteString(strings.Repeat("9", r.R(1, 600)))
		} else if r.N(5) > 0 {
			ps.WriteString(strconv.Itoa(r.N([]int{200, 8}[r.N(2)])))
		}
	}
	if prefix == ">" && r.P(4) { // XTMODKEYS for another resource
		return []byte("\x1b[>" + []string{"", "0", "1", "2", "3", "5", "14"}[r.N(7)] + []string{"", ";4", ";4;2", ";2", ";" + ps.String() + ";4"}[r.N(5)] + "m")
	}
	switch r.N(5) {
	case 0: // sub-parameters
		return []byte("\x1b[" + prefix + ps.String() + []string{":", "3:1", ":2:255:0:0", "4:3"}[r.N(4)] + string(byte(0x40+r.N(63))))
	case 1, 2: // intermediate bytes
		inter := string(byte(0x20 + r.N(16)))
		if r.P(4) {
			inter += string(byte(0x20 + r.N(16)))
		}
		return []byte("\x1b[" + prefix + ps.String() + inter + string(byte(0x40+r.N(63))))
	case 3: // a prefix that is not the first byte
		return []byte("\x1b[" + prefix + ps.String() + "1" + []string{"?", "<", "=", ">"}[r.N(4)] + string(byte(0x40+r.N(63))))
	}
	finals := "EFINOQRUVWYZ`abeghijkloqtvwxyz{|}~@[\\]^_p"
	switch prefix {
	case "?":
		finals = "ABCDEFGHIJKLMNOPQRSTXZ`abcdefgijkmnopqrstvwxyz{|}~@"
	case ">":
		finals = "ABCDEFGHIJKLMNOPQRSTXZ`abdefghijklnopqrstvwxyz{|}~@"
	case "<":
		finals = "ABCDEFGHIJKLMNOPQRSTXZ`abcdefghijklmnopqrstvwxyz{|}~@"
	case "=":
		finals = "ABCDEFGHIJKLMNOPQRSTXZ`abcdefghijklmnopqrstvwxyz{|}~@"
	}
	return []byte("\x1b[" + prefix + ps.String() + string(finals[r.N(len(finals))]))
}

func (g *gen) unknownEsc() []byte {
	r := g.r
	switch r.N(3) {
	case 0:
		return []byte("\x1b" + string("()*+-./ #%&"[r.N(11)]) + string(byte(0x30+r.N(0x4f))))
	case 1:
		return []byte("\x1b" + string(byte(0x20+r.N(16))) + string(byte(0x20+r.N(16))) + string(byte(0x30+r.N(0x4f))))
	}
	return []byte("\x1b" + string("678<cnofgl|}~1230NOZABFGQRSTUV\\`abk"[r.N(34)]))
}

// token makes one token of class c.
func (g *gen) token(c string) []byte {
	r := g.r
	w, h := g.w, g.h
	switch c {
	case "text":
		return g.text()
	case "cup":
		switch r.N(8) {
		case 0:
			return csi("", "Hf"[r.N(2)])
		case 1:
			return csi("", "Hf"[r.N(2)], g.num(h))
		}
		return csi("", "Hf"[r.N(2)], g.num(h), g.num(w))
	case "motion":
		switch r.N(12) {
		case 0, 1:
			return []byte{8}
		case 2:
			return []byte{9}
		case 3:
			return []byte{13}
		case 4:
			return g.csi1('A', h)
		case 5:
			return g.csi1('B', h)
		case 6:
			return g.csi1('C', w)
		case 7:
			return g.csi1('D', w)
		case 8:
			return g.csi1('G', w)
		case 9:
			return g.csi1('d', h)
		case 10:
			if r.P(3) {
				return []byte{127}
			}
			return []byte{9}
		}
		return g.csi1("ABCD"[r.N(4)], h)
	case "lf":
		switch r.N(7) {
		case 0:
			return []byte{12}
		case 1, 2:
			return []byte("\x1bM")
		case 3:
			return []byte("\x1bD")
		case 4:
			return []byte("\r\n")
		}
		return []byte{10}
	case "save":
		return csi("", "su"[r.N(2)])
	case "erase":
		switch r.N(8) {
		case 0, 1:
			return csi("", 'K', []string{"", "0", "1", "2", "1", "3"}[r.N(6)])
		case 2, 3:
			return csi("", 'J', []string{"", "0", "1", "2", "1", "0", "3"}[r.N(7)])
		case 4, 5:
			return g.csi1('X', w)
		}
		return g.csi1('P', w)
	case "scroll":
		return g.csi1("LMSTLM"[r.N(6)], h)
	case "margin":
		switch r.N(6) {
		case 0:
			return csi("", 'r')
		case 1:
			return csi("", 'r', g.num(h))
		case 2:
			return csi("", 'r', g.num(h), g.num(h))
		}
		a := r.R(1, h)
		return csi("", 'r', strconv.Itoa(a), strconv.Itoa(r.R(a, h)))
	case "sgr":
		return g.sgr()
	case "mode":
		return g.mode(privModes)
	case "keymode":
		if r.P(4) {
			return []byte("\x1b" + string("=>"[r.N(2)]))
		}
		return g.mode([]int{1, 1, 1, 2004})
	case "mouse":
		return g.mode([]int{9, 1000, 1002, 1003, 1005, 1006, 1015, 1000, 1006, 1003})
	case "mok":
		if r.P(6) {
			return csi(">", 'm', "4")
		}
		return csi(">", 'm', "4", []string{"", "0", "1", "2", "2", "2"}[r.N(6)])
	case "alt":
		return csi("?", "hl"[r.N(2)], "1049")
	case "wrap":
		return csi("?", "hhl"[r.N(3)], "7")
	case "show":
		return csi("?", "hl"[r.N(2)], "25")
	case "kbd":
		return g.kbd()
	case "kbdq":
		return csi("?", 'u')
	case "query":
		return [][]byte{csi("", 'c'), csi("", 'c', "0"), csi(">", 'c'), csi(">", 'c', "0"), csi("", 'n', "5"), csi("", 'n', "6"), csi("?", 'u'),
			csi("", 'n', "6"), csi("?", 'u')}[r.N(9)]
	case "nonquery":
		return [][]byte{csi("", 'c', "1"), csi("?", 'c'), csi("=", 'c'), csi("?", 'n', "6"), csi("", 'n', "7"), csi("", 'n', "0"), csi("", 'n'),
			csi("", 't', "18"), csi("?", 'n', "5"), csi(">", 'n', "6"), csi("", 'c', "2"), csi(">", 'q'), csi("?$", 'p', "1")}[r.N(13)]
	case "osc":
		return g.osc()
	case "dcs":
		return g.dcs()
	case "csi?":
		return g.unknownCSI()
	case "esc?":
		return g.unknownEsc()
	case "bell":
		return []byte{7}
	case "c0?":
		return []byte{[]byte{0, 1, 2, 3, 4, 5, 6, 7, 11, 14, 15, 16, 17, 24, 26, 28, 31}[r.N(17)]}
	}
	panic("class " + c)
}

// fill makes tokens that give the screen distinct content.
func (g *gen) fill() {
	r := g.r
	for y := 1; y <= g.h && y <= 12; y++ {
		if r.P(4) {
			continue
		}
		g.add("cup", csi("", 'H', strconv.Itoa(y), strconv.Itoa(r.R(1, max(g.w/2, 1)))))
		if r.P(2) {
			g.add("sgr", g.sgr())
		}
		g.add("text", g.text())
	}
}

func (g *gen) add(c string, b []byte) { g.sc.Tokens = append(g.sc.Tokens, Token{C: c, B: b}) }

// cuts decides how the stream is divided into reads.
func (g *gen) cuts() {
	r := g.r
	style := r.N(6)
	if g.sc.Prop == "C08" || g.sc.Prop == "C16" || g.sc.Prop == "C15" {
		style = []int{1, 2, 3, 3, 4, 4, 5}[r.N(7)]
	}
	for i := range g.sc.Tokens {
		t := &g.sc.Tokens[i]
		switch style {
		case 0: // one read
		case 1, 2: // a read per token
			t.Cuts = []int{0}
		case 3: // byte by byte
			if len(t.B) <= 200 {
				for j := range t.B {
					t.Cuts = append(t.Cuts, j)
				}
			}
		case 4: // here and there
			for n := r.N(3); n > 0; n-- {
				t.Cuts = append(t.Cuts, r.N(len(t.B)))
			}
		case 5:
			if r.P(3) {
				t.Cuts = []int{0}
			}
			if r.P(4) {
				t.Cuts = append(t.Cuts, r.N(len(t.B)))
			}
		}
		if style == 1 && r.P(6) || r.P(25) {
			t.Zero = r.R(1, 3)
			if g.sc.Prop == "C16" && r.P(20) {
				t.Zero = r.R(90, 300)
			}
		}
	}
}

// align makes the last read as long as the buffers it may go through, or nearly.
func (g *gen) align() {
	r := g.r
	sc := g.sc
	i := 0
	if r.P(2) {
		i = r.N(len(sc.Tokens))
	}
	n := 0
	for j := i; j < len(sc.Tokens); j++ {
		n += len(sc.Tokens[j].B)
		sc.Tokens[j].Cuts = nil
	}
	unit := []int{4096, 4096, 8192, 1024, 512}[r.N(5)]
	pad := unit - n%unit + []int{0, 0, 0, 1, -1}[r.N(5)]
	if pad < 1 {
		return
	}
	b := make([]byte, pad)
	for j := range b {
		b[j] = "abcdefghijklmnopqrstuvwxyz "[j%27]
		if j%50 == 49 {
			b[j] = '\r'
		}
	}
	sc.Tokens = append(sc.Tokens[:i:i], append([]Token{{C: "text", B: b, Cuts: []int{0}}}, sc.Tokens[i:]...)...)
	if sc.End == "eof" || sc.End == "err" {
		sc.End = []string{"dataeof", "dataerr"}[r.N(2)]
	}
}

func (g *gen) sched() {
	r := g.r
	s := &g.sc.Sched
	s.Seed = r.U64()
	s.CbYield = []int{0, 0, 5, 30}[r.N(4)]
	switch r.N(6) {
	case 0:
		s.Kind = "default"
		s.CbYield = 0
	case 1, 2:
		s.Kind, s.Depth = "pct", r.R(1, 6)
	default:
		s.Kind, s.Switch = "random", []int{4, 15, 40, 70}[r.N(4)]
	}
}

func (g *gen) at() (tok, off int) {
	tok = g.r.N(len(g.sc.Tokens) + 1)
	if tok < len(g.sc.Tokens) && g.r.P(2) {
		off = g.r.N(len(g.sc.Tokens[tok].B) + 1)
	}
	return
}

func (g *gen) op(actor int, kind string, a ...int) *Op {
	tok, off := g.at()
	g.sc.Ops = append(g.sc.Ops, Op{Actor: actor, Kind: kind, Tok: tok, Off: off, A: a})
	return &g.sc.Ops[len(g.sc.Ops)-1]
}

func (g *gen) resizes(n int) {
	actor := 1
	if g.sc.Kind != "pty" && g.r.P(5) {
		actor = 10 // another task than the one that resizes otherwise
	}
	for i := 0; i < n; i++ {
		w, h := g.size()
		switch g.r.N(5) {
		case 0:
			w, h = max(1, g.sc.W+g.r.R(-2, 2)), max(1, g.sc.H+g.r.R(-2, 2))
		case 1:
			w = g.sc.W
		case 2:
			h = g.sc.H
		}
		switch {
		case g.sc.Kind == "pty" && g.r.P(2):
			w, h = g.huge()
		case g.r.P(60):
			if g.r.P(2) {
				w = g.r.R(100, 400)
			} else {
				h = g.r.R(100, 300)
			}
		}
		g.op(actor, "resize", w, h)
	}
}

// huge is a size that does not fit in a byte.
func (g *gen) huge() (w, h int) {
	w, h = g.r.R(1, 3), g.r.R(1, 3)
	v := []int{255, 256, 257, 300, 511, 512, 1000, g.r.R(256, 3000), g.r.R(256, 3000), g.r.R(1000, 65535), 32767, 32768, 65535}[g.r.N(13)]
	if v < 1100 && g.r.P(3) {
		return v, g.r.R(200, 300)
	}
	if g.r.P(2) {
		return v, h
	}
	return w, v
}

func (g *gen) wfaults(n int) {
	for i := 0; i < n; i++ {
		g.sc.WF = append(g.sc.WF, WFault{Call: g.r.N(12), Kind: []string{"short", "short", "err", "zero"}[g.r.N(4)], N: g.r.N(6)})
	}
}

func (g *gen) key() *Key {
	r := g.r
	k := &Key{}
	if r.P(2) {
		k.Code = int(termemu.KeyRune)
		switch r.N(8) {
		case 0:
			k.Rune = []rune{'é', 'ж', 'ß', '世', 'ı', 'λ', 0x1f600, 0xffff, 0x10ffff, 'ñ', 'ö'}[r.N(11)]
		case 1, 2, 3:
			k.Rune = rune('a' + r.N(26))
		case 4:
			k.Rune = rune('A' + r.N(26))
		default:
			k.Rune = rune(' ' + r.N(95))
		}
	} else {
		k.Code = r.R(1, int(termemu.KeyISOLevel5Shift))
		if r.P(3) {
			k.Code = r.R(1, int(termemu.KeyF12))
		}
	}
	switch r.N(5) {
	case 0, 1:
	case 2:
		k.Mod = 1 << r.N(8)
	case 3:
		k.Mod = r.N(256)
	case 4:
		k.Mod = r.N(8)
	}
	k.Event = []int{0, 1, 1, 2, 3}[r.N(5)]
	if k.Code == int(termemu.KeyRune) {
		if k.Mod&mShift != 0 {
			if r.N(4) > 0 {
				if u := unicode.ToUpper(k.Rune); u != k.Rune {
					k.Shifted = u
				} else if i := strings.IndexRune("`1234567890-=[]\\;',./", k.Rune); i >= 0 {
					k.Shifted = rune("~!@#$%^&*()_+{}|:\"<>?"[i])
				}
			}
			if k.Shifted == 0 && unicode.IsUpper(k.Rune) {
				k.Rune = unicode.ToLower(k.Rune)
				k.Shifted = unicode.ToUpper(k.Rune)
			}
		} else if r.P(12) { // not to be reported without shift
			k.Shifted = unicode.ToUpper(k.Rune)
		}
		if r.P(4) {
			k.Base = rune('a' + r.N(26))
		}
		if r.P(5) {
			for n := r.R(1, 3); n > 0; n-- {
				k.Text = append(k.Text, []rune{'a', 'Z', 'é', '世', 1, 27, 0x7f, 0x9b, 0x301, 0x1f600}[r.N(10)])
			}
		}
	}
	return k
}

func (g *gen) mouseOp(actor int) {
	r := g.r
	xs := []int{1, 2, 94, 95, 96, 97, 127, 128, 159, 160, 222, 223, 224, 225, 255, 256, 257, 500, 2014, 2015, 2016, 5000, 70000}
	c := func() int {
		if r.P(3) {
			return r.R(1, 300)
		}
		if r.P(15) {
			return -r.N(3)
		}
		return xs[r.N(len(xs))]
	}
	btn, press := r.N(3), r.N(3) > 0
	mods := 0
	if r.P(2) {
		mods = r.N(8) << 2
	}
	switch r.N(5) {
	case 0:
		mods |= 32
		press = r.N(3) > 0
		btn = r.N(4)
		if !press && r.P(2) {
			btn = 3
		}
	case 1:
		mods |= 64
		press = !r.P(8)
		btn = r.N(2)
	}
	p := 0
	if press {
		p = 1
	}
	g.op(actor, "mouse", btn, p, mods, c(), c())
}

// garble damages the stream: the result has no reference model.
func (g *gen) garble() {
	r := g.r
	g.sc.Raw = true
	switch r.N(6) {
	case 4, 5: // any control sequences between the tokens
		for n := r.R(2, 25); n > 0; n-- {
			var sb strings.Builder
			sb.WriteString("\x1b[" + []string{"", "", "", "?", ">", "<", "=", "1?"}[r.N(8)])
			m := []int{0, 1, 2, 3, r.R(1, 10), r.R(3, 70)}[r.N(6)]
			for i := 0; i < m; i++ {
				if i > 0 {
					sb.WriteString([]string{";", ";", ";", ":"}[r.N(4)])
				}
				switch r.N(6) {
				case 0:
				case 1:
					sb.WriteString([]string{"38", "48", "58", "4", "5", "2"}[r.N(6)])
				default:
					sb.WriteString(g.num([]int{g.w, g.h}[r.N(2)]))
				}
			}
			fin := "ABCDGHJKLMPSTXdfhlmmmmnrsuc"
			c := fin[r.N(len(fin))]
			if r.P(6) {
				c = byte(0x40 + r.N(63))
			}
			sb.WriteByte(c)
			i := r.N(len(g.sc.Tokens) + 1)
			g.sc.Tokens = append(g.sc.Tokens[:i:i], append([]Token{{C: "raw", B: []byte(sb.String())}}, g.sc.Tokens[i:]...)...)
		}
	case 0:
		n := r.R(1, 200)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.U64())
		}
		g.sc.Tokens = nil
		for len(b) > 0 {
			k := min(r.R(1, 12), len(b))
			g.add("raw", b[:k])
			b = b[k:]
		}
	case 1:
		al := "\x1b\x1b[[];;?><=0123456789ABCDGHJKLMPSTXdfhlmnrsu\a\n\r\b\t\x9cP]\\ !世é\u0301\u200d🇺"
		n := r.R(5, 150)
		for i := 0; i < n; i++ {
			k := r.N(len(al))
			g.add("raw", []byte(al[k:k+1]))
		}
	default:
		for n := r.R(1, 6); n > 0; n-- {
			t := &g.sc.Tokens[r.N(len(g.sc.Tokens))]
			b := append([]byte(nil), t.B...)
			if len(b) == 0 {
				continue
			}
			k := r.N(len(b))
			switch r.N(4) {
			case 0:
				b[k] ^= 1 << r.N(8)
			case 1:
				b = append(b[:k], b[k+1:]...)
			case 2:
				b = append(b[:k:k], append([]byte{byte(r.U64())}, b[k:]...)...)
			case 3:
				b = b[:k]
			}
			if len(b) == 0 {
				b = []byte{27}
			}
			t.B, t.C = b, "raw"
		}
	}
}

// generate returns run number run of property prop.
func generate(prop string, seed uint64, run int) *Scenario {
	h := hashU(hashS(14695981039346656037, prop), seed)
	r := NewRng(hashU(h, uint64(run)))
	sc := &Scenario{Prop: prop, Seed: r.U64(), Run: run, End: "eof"}
	g := &gen{r: r, sc: sc}
	sc.W, sc.H = g.size()
	if prop == "C05" && r.P(2) && sc.W > sc.H {
		sc.W, sc.H = sc.H, sc.W
	}
	if r.P(40) { // never resized before the stream
		sc.W, sc.H, sc.NoSize = 80, 14, true
	}
	if r.P(60) {
		sc.NoSize = false
		sc.W, sc.H = r.R(1, 4), r.R(1, 3)
		if r.P(2) {
			sc.W = []int{100, 127, 128, 132, 133, 255, 256, 257, 300, 511, 512, 513}[r.N(12)]
			if r.P(20) {
				sc.W = []int{1000, 1023, 1024, 1025, 2049, 4097}[r.N(6)]
			}
		} else {
			sc.H = []int{100, 127, 128, 129, 255, 256, 257, 300}[r.N(8)]
			if r.P(20) {
				sc.H = []int{1000, 1024, 1025, 2049}[r.N(4)]
			}
		}
	}
	g.w, g.h = sc.W, sc.H
	sc.Mode = r.N(2)
	switch prop {
	case "C20":
		sc.Kind = "twin"
		sc.Mode = 0
		if r.P(3) {
			sc.Mode = 1
		}
		g.simpl = true
	case "C08":
		sc.Kind = "diff"
	case "C11":
		g.simpl = true
	case "C12", "C13", "C19":
		sc.Mode = 0
	case "C16":
		g.big = r.P(3)
		switch r.N(8) {
		case 0:
			sc.Kind = "nopty"
		case 1:
			sc.Kind = "pty"
		}
	}
	if sc.W > 600 {
		sc.Mode = 0 // no clusters longer than a read buffer
	}
	if prop != "C20" && r.P(4) {
		sc.Grid = true
		if sc.Mode == 1 {
			g.simpl = true
		}
	}
	ws := g.weights()
	n := r.R(4, 40)
	if r.P(5) {
		n = r.R(30, 90)
	}
	if g.big {
		n = r.R(20, 120)
	}
	// for text-heavy profiles the screen starts with content
	if prop != "C12" && prop != "C13" && prop != "C19" && r.P(2) {
		if r.P(4) {
			g.add("alt", csi("?", 'h', "1049"))
		}
		g.fill()
		if r.P(3) {
			g.add("sgr", csi("", 'm'))
		}
	}
	if r.P(3) {
		g.add("wrap", csi("?", 'h', "7"))
	}
	rep := -1
	if r.P(25) {
		rep = r.N(n)
	}
	for i := 0; i < n; i++ {
		c := g.pick(ws)
		b := g.token(c)
		if i == rep && len(b) > 0 && (c != "kbd" || prop != "C12") { // many times over
			k := min([]int{r.R(3, 40), r.R(20, 300), 256}[r.N(3)], 3000/len(b))
			if r.P(30) && len(b) < 20 && sc.W*sc.H < 300 && (sc.Mode == 0 || b[0] < ' ') {
				k = r.R(300, 70000/len(b))
			}
			if prop == "C12" || prop == "C16" {
				k = min(k, 40)
			}
			b = []byte(strings.Repeat(string(b), max(k, 1)))
		}
		g.add(c, b)
	}
	if prop == "C01" && r.P(2) || prop == "C08" && r.P(4) {
		g.garble()
		if prop == "C08" {
			sc.Mode = 0
		}
	}
	g.cuts()
	g.sched()
	switch {
	case prop == "C16":
		sc.End = []string{"eof", "err", "dataeof", "dataerr"}[r.N(4)]
	case r.P(6):
		sc.End = []string{"err", "dataeof", "dataerr"}[r.N(3)]
	}
	if r.P(8) && !sc.Raw { // the stream ends inside something
		g.add("cut", [][]byte{{27}, []byte("\x1b["), []byte("\x1b[3"), []byte("\x1b]0;abc"), []byte("\x1bP1"), {0xe4, 0xb8}, []byte("\x1b]2;x\x1b"), []byte("\x1b(")}[r.N(8)])
		if sc.Mode == 1 && sc.Tokens[len(sc.Tokens)-1].B[0] == 0xe4 {
			sc.Tokens = sc.Tokens[:len(sc.Tokens)-1]
		}
	}
	if !sc.Raw && (r.P(100) || (prop == "C16" || prop == "C08" || prop == "C01") && r.P(20)) {
		g.align()
	}
	g.ops()
	sc.Quiet = len(sc.Ops) > 0 && r.P(2)
	if sc.Kind == "" && r.P(12) {
		g.near(ws)
	}
	sort.SliceStable(sc.Ops, func(i, j int) bool {
		a, b := &sc.Ops[i], &sc.Ops[j]
		if a.Tok != b.Tok {
			return a.Tok < b.Tok
		}
		return a.Off < b.Off
	})
	return sc
}

func (g *gen) ops() {
	r, sc := g.r, g.sc
	switch sc.Prop {
	case "C01":
		if r.P(2) {
			g.resizes(r.R(1, 5))
		}
	case "C02", "C10":
		if r.P(2) {
			g.resizes(r.R(1, 4))
		}
		if r.P(4) {
			for i := 0; i < 3; i++ {
				g.op(2, "read")
			}
		}
		if sc.Prop == "C10" && r.P(6) {
			for i := r.R(1, 3); i > 0; i-- {
				g.op(8, "setfrontend")
			}
		}
	case "C03", "C04", "C05", "C06", "C07", "C09", "C14", "C17", "C19":
		if r.P(5) {
			g.resizes(r.R(1, 2))
		}
		if r.P(6) {
			g.op(2, "read")
		}
		if sc.Prop == "C14" {
			if r.P(3) {
				g.wfaults(r.R(1, 3))
			}
			if r.P(3) {
				for i := 0; i < 3; i++ {
					g.op(3, "write").B = []byte(fmt.Sprintf("<%d>", i))
				}
			}
			if r.P(4) {
				g.op(4, "key").Key = g.key()
			}
		}
	case "C08":
	case "C20":
		if r.P(3) {
			g.resizes(r.R(1, 3))
		}
	case "C11":
		if r.P(2) {
			sc.TTY = true
			for i, n := 0, r.R(1, 5); i < n; i++ {
				x, y := r.R(0, g.w-1), r.R(0, g.h-1)
				switch {
				case i == 0 || r.P(3):
					if r.P(3) {
						x, y = 0, 0
						g.op(1, "tty", 0, 0, 0, g.w, g.h)
					} else {
						if r.P(8) {
							x, y = x-r.R(1, g.w), y-r.N(3)
						}
						g.op(1, "tty", 0, x, y, r.R(x+1, g.w+2), r.R(y+1, g.h+2))
					}
				default:
					g.op(1, "tty", r.R(1, 3), r.N(2))
				}
				if i == 0 && r.P(2) {
					sc.Ops[len(sc.Ops)-1].Tok, sc.Ops[len(sc.Ops)-1].Off = 0, 0
				}
			}
			if r.P(5) {
				g.resizes(1)
			}
		} else {
			for i, n := 0, r.R(1, 4); i < n; i++ {
				g.op(1, "ansi")
			}
			sc.Ops[0].Tok = len(sc.Tokens)
		}
	case "C12":
		for i, n := 0, r.R(4, 30); i < n; i++ {
			g.op(1, "key").Key = g.key()
		}
		if r.P(6) {
			g.wfaults(r.R(1, 2))
		}
		if r.P(8) {
			g.resizes(1)
		}
	case "C13":
		for i, n := 0, r.R(3, 20); i < n; i++ {
			g.mouseOp(1)
		}
		if r.P(3) {
			g.wfaults(r.R(1, 4))
		}
	case "C15":
		sc.Tee = r.P(2)
		if r.P(3) {
			sc.TTY = true
		}
		n := r.R(3, 14)
		for i := 0; i < n; i++ {
			switch r.N(9) {
			case 0, 1:
				g.op(2+r.N(2), "read")
			case 2:
				g.resizes(1)
			case 3:
				g.op(4, "key").Key = g.key()
			case 4:
				g.mouseOp(5)
			case 5:
				g.op(6, "write").B = []byte(fmt.Sprintf("<%d>", i))
			case 6:
				if sc.Tee {
					g.op(7, "tee", r.N(4))
				}
			case 7:
				if r.P(2) {
					g.op(8, "setfrontend")
				} else {
					g.op(4, "write").B = []byte("[paste]")
				}
			case 8:
				if sc.TTY {
					x, y := r.R(0, g.w-1), r.R(0, g.h-1)
					g.op(9, "tty", r.N(4), x, y, g.w, g.h)
				}
			}
		}
		if r.P(4) {
			g.wfaults(r.R(1, 2))
		}
	case "C16":
		sc.Tee = r.P(2)
		if sc.Tee {
			g.op(7, "tee", 1)
			sc.Ops[len(sc.Ops)-1].Tok, sc.Ops[len(sc.Ops)-1].Off = 0, 0
			for i := r.N(4); i > 0; i-- {
				g.op(7, "tee", r.N(5))
			}
		}
		if r.P(2) {
			g.wfaults(r.R(1, 5))
		}
		for i := r.N(6); i > 0; i-- {
			b := make([]byte, r.R(1, 30))
			if r.P(8) {
				b = make([]byte, []int{r.R(100, 3000), r.R(100, 3000), r.R(3000, 9000), r.R(9000, 70000)}[r.N(4)])
			}
			for j := range b {
				b[j] = byte('a' + r.N(26))
			}
			g.op(3+r.N(2), "write").B = b
		}
		if r.P(3) || sc.Kind == "pty" {
			g.resizes(r.R(1, 3))
		}
	case "C18":
		g.resizes(r.R(1, 8))
		if r.P(4) {
			g.op(2, "read")
		}
	}
}
