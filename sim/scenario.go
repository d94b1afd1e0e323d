package main

import (
	"encoding/json"
	"fmt"
	"os"
)

// Token is a piece of the input stream, with the places inside it where a read
// is cut.
type Token struct {
	C    string `json:"c"` // class
	B    []byte `json:"b"`
	Cuts []int  `json:"cuts,omitempty"` // offsets; 0 is before the token
	Zero int    `json:"zero,omitempty"` // empty reads before it
}

// Op is an operation by another task, possible once the stream is delivered up
// to offset Off of token Tok.
type Op struct {
	Actor int    `json:"actor"`
	Kind  string `json:"kind"`
	Tok   int    `json:"tok"`
	Off   int    `json:"off,omitempty"`
	A     []int  `json:"a,omitempty"`
	B     []byte `json:"b,omitempty"`
	Key   *Key   `json:"key,omitempty"`
}

type Key struct {
	Code    int    `json:"code"`
	Rune    rune   `json:"rune,omitempty"`
	Mod     int    `json:"mod,omitempty"`
	Event   int    `json:"event,omitempty"`
	Shifted rune   `json:"shifted,omitempty"`
	Base    rune   `json:"base,omitempty"`
	Text    []rune `json:"text,omitempty"`
}

type WFault struct {
	Call int    `json:"call"`
	Kind string `json:"kind"` // "short", "err", "zero"
	N    int    `json:"n,omitempty"`
}

type Scenario struct {
	Prop   string   `json:"property"`
	Seed   uint64   `json:"seed"`
	Run    int      `json:"run"`
	W      int      `json:"w"`
	H      int      `json:"h"`
	NoSize bool     `json:"nosize,omitempty"` // w and h are the size the terminal starts with: no Resize
	Mode   int      `json:"mode"`             // 0 rune, 1 grapheme
	Grid   bool     `json:"grid,omitempty"`
	Tee    bool     `json:"tee,omitempty"`
	TTY    bool     `json:"tty,omitempty"`
	Dense  bool     `json:"dense,omitempty"` // compare everything at every boundary
	Quiet  bool     `json:"quiet,omitempty"` // input comes only after the operations due have returned
	Raw    bool     `json:"raw,omitempty"`   // arbitrary bytes: no reference model
	Kind   string   `json:"kind,omitempty"`  // "", "diff", "twin", "pty"
	Tokens []Token  `json:"tokens"`
	Ops    []Op     `json:"ops,omitempty"`
	WF     []WFault `json:"wfaults,omitempty"`
	End    string   `json:"end"` // eof, err, dataeof, dataerr
	Sched  Sched    `json:"sched"`
	Near   *Near    `json:"near,omitempty"`
}

func (s *Scenario) clone() *Scenario {
	c := *s
	c.Tokens = append([]Token(nil), s.Tokens...)
	c.Ops = append([]Op(nil), s.Ops...)
	c.WF = append([]WFault(nil), s.WF...)
	c.Near = s.Near.clone()
	c.Sched.Devs = append([][2]int(nil), s.Sched.Devs...)
	return &c
}

// Viol is a property violation, or a mismatch not attributed yet.
type Viol struct {
	Cat   string `json:"cat"`
	Msg   string `json:"msg"`
	Step  int    `json:"step"`
	Tok   int    `json:"tok"` // last token delivered
	Unit  int    `json:"unit"`
	Hints string `json:"hints,omitempty"`
}

func (v *Viol) String() string {
	if v == nil {
		return "none"
	}
	return fmt.Sprintf("%s: %s (token %d)", v.Cat, v.Msg, v.Tok)
}

// Replay is the file written for a violation.
type Replay struct {
	Property string    `json:"property"`
	Verdict  *Viol     `json:"verdict"`
	Trace    string    `json:"trace"`
	Desc     []string  `json:"description"`
	Scenario *Scenario `json:"scenario"`
	Race     bool      `json:"race,omitempty"`
}

func (s *Scenario) describe() []string {
	out := []string{fmt.Sprintf("%dx%d mode=%d grid=%v end=%s sched=%s devs=%v", s.W, s.H, s.Mode, s.Grid, s.End, s.Sched.Kind, s.Sched.Devs)}
	for i, t := range s.Tokens {
		l := fmt.Sprintf("token %d %s %q", i, t.C, t.B)
		if len(t.Cuts) > 0 {
			l += fmt.Sprintf(" cuts=%v", t.Cuts)
		}
		if t.Zero > 0 {
			l += fmt.Sprintf(" after %d empty reads", t.Zero)
		}
		out = append(out, l)
	}
	if s.Quiet {
		out = append(out, "input comes only after the operations due have returned")
	}
	for _, o := range s.Ops {
		l := fmt.Sprintf("op by task %d at token %d+%d: %s %v %q", o.Actor, o.Tok, o.Off, o.Kind, o.A, o.B)
		if o.Key != nil {
			l += fmt.Sprintf(" %+v", *o.Key)
		}
		out = append(out, l)
	}
	if s.Near != nil {
		out = append(out, s.Near.describe()...)
	}
	for _, f := range s.WF {
		out = append(out, fmt.Sprintf("backend write %d: %s %d", f.Call, f.Kind, f.N))
	}
	return out
}

func saveJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func loadReplay(path string) (*Replay, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, err
	}
	return &r, nil
}
