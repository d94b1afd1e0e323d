package main

import (
	"fmt"
	"io"

	"github.com/ricochet1k/termemu"
)

// Near is another terminal in the same process, with its own backend and
// tasks. Nothing that happens to it may show in the one under observation.
type Near struct {
	W      int     `json:"w"`
	H      int     `json:"h"`
	Mode   int     `json:"mode"`
	Grid   bool    `json:"grid,omitempty"`
	Tokens []Token `json:"tokens"`
	Ops    []Op    `json:"ops,omitempty"` // Tok and Off do not matter
}

func (n *Near) clone() *Near {
	if n == nil {
		return nil
	}
	c := *n
	c.Tokens = append([]Token(nil), n.Tokens...)
	c.Ops = append([]Op(nil), n.Ops...)
	return &c
}

func (n *Near) describe() []string {
	out := []string{fmt.Sprintf("another terminal in the same process: %dx%d mode=%d grid=%v", n.W, n.H, n.Mode, n.Grid)}
	for _, t := range n.Tokens {
		out = append(out, fmt.Sprintf("  %s %q", t.C, t.B))
	}
	for _, o := range n.Ops {
		out = append(out, fmt.Sprintf("  op there: %s %v %q", o.Kind, o.A, o.B))
	}
	return out
}

type nearBackend struct {
	k    *Kernel
	toks []Token
	off  int
	sum  int
}

func (b *nearBackend) Read(p []byte) (int, error) {
	b.k.guard("Read")
	if b.k.aborted {
		b.k.bail()
	}
	b.k.yield(yRead)
	for len(b.toks) > 0 && b.off >= len(b.toks[0].B) {
		b.toks, b.off = b.toks[1:], 0
	}
	if len(b.toks) == 0 {
		return 0, io.EOF
	}
	t := &b.toks[0]
	end := len(t.B)
	for _, c := range t.Cuts {
		if c > b.off && c < end {
			end = c
		}
	}
	n := min(end-b.off, len(p))
	for i := 0; i < n; i++ {
		p[i] = t.B[b.off+i]
	}
	b.off += n
	return n, nil
}

func (b *nearBackend) Write(p []byte) (int, error) {
	b.k.guard("Write")
	if b.k.aborted {
		b.k.bail()
	}
	b.k.yield(yWrite)
	return len(p), nil
}

func (b *nearBackend) SetSize(w, h int) error { return nil }

// start creates the other terminal and its tasks.
func (n *Near) start(k *Kernel) {
	mode := termemu.TextReadModeRune
	if n.Mode == 1 {
		mode = termemu.TextReadModeGrapheme
	}
	be := &nearBackend{k: k, toks: n.Tokens}
	term := termemu.VerifNew(nil, be, mode, n.Grid)
	term.Resize(n.W, n.H)
	if len(n.Ops) == 0 {
		return
	}
	k.newTask("near", func() {
		for i := range n.Ops {
			o := &n.Ops[i]
			k.yield(yOp)
			switch o.Kind {
			case "resize":
				term.Resize(o.A[0], o.A[1])
			case "read":
				term.WithLock(func() {
					w, h := term.Size()
					for y := 0; y < h; y++ {
						be.sum += len(term.Line(y)) + len(term.ANSILine(y)) + len(term.StyledLine(w/2, w-w/2, y).Spans)
					}
				})
			case "key":
				term.SendKey(termemu.KeyEvent{Code: termemu.KeyCode(o.Key.Code), Rune: o.Key.Rune, Mod: termemu.KeyMod(o.Key.Mod),
					Event: termemu.KeyEventType(o.Key.Event), Shifted: o.Key.Shifted, BaseLayout: o.Key.Base, Text: o.Key.Text})
			case "mouse":
				term.(mouseSender).SendMouseRaw(termemu.MouseBtn(o.A[0]), o.A[1] == 1, termemu.MouseFlag(o.A[2]), o.A[3], o.A[4])
			case "write":
				term.Write(o.B)
			}
		}
	})
}

// near makes another terminal with the same kind of input.
func (g *gen) near(ws []cw) {
	r, sc := g.r, g.sc
	n := &Near{W: sc.W, H: sc.H, Mode: sc.Mode, Grid: sc.Grid}
	if r.P(2) {
		n.W, n.H = g.size()
	}
	if r.P(3) {
		n.Mode, n.Grid = r.N(2), r.P(2)
	}
	for i := r.R(3, 30); i > 0; i-- {
		c := g.pick(ws)
		b := g.token(c)
		if len(b) == 0 {
			continue
		}
		t := Token{C: c, B: b}
		if r.P(3) {
			t.Cuts = []int{r.N(len(b))}
		}
		n.Tokens = append(n.Tokens, t)
	}
	ops := sc.Ops
	sc.Ops = nil
	if r.P(2) {
		for i := r.R(1, 5); i > 0; i-- {
			switch r.N(6) {
			case 0:
				w, h := g.size()
				g.op(1, "resize", w, h)
			case 1, 2:
				g.op(1, "key").Key = g.key()
			case 3:
				g.mouseOp(1)
			case 4:
				g.op(1, "write").B = []byte("near by")
			default:
				g.op(1, "read")
			}
		}
	}
	n.Ops, sc.Ops = sc.Ops, ops
	sc.Near = n
}
