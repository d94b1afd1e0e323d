package main

import (
	"strings"
	"time"
)

// execute runs a scenario of any kind.
func execute(sc *Scenario, st *Stats) (*Viol, uint64) {
	switch sc.Kind {
	case "diff":
		return runDiff(sc, st)
	case "twin":
		return runTwin(sc, st)
	}
	w := newWorld(sc, st)
	v := w.run()
	w.account()
	return v, w.traceHash()
}

// shrinker minimises a failing scenario while the same kind of failure remains.
type shrinker struct {
	best  *Scenario
	v     *Viol
	trace uint64
	tries int
	limit int
	until time.Time
	exec  func(*Scenario) (*Viol, uint64)
	w     bool // in this process
}

func sameFailure(a, b *Viol) bool {
	if a.Cat != b.Cat {
		return false
	}
	if a.Cat == "panic" { // same place
		f := func(s string) string {
			if i := strings.LastIndexByte(s, '\n'); i >= 0 {
				s = s[i+1:]
			}
			if i := strings.Index(s, " < "); i >= 0 {
				s = s[:i]
			}
			return s
		}
		return f(a.Msg) == f(b.Msg)
	}
	return true
}

func (s *shrinker) try(c *Scenario) bool {
	if s.tries >= s.limit || time.Now().After(s.until) {
		return false
	}
	s.tries++
	v, tr := s.exec(c)
	if v == nil || !sameFailure(v, s.v) {
		return false
	}
	s.best, s.v, s.trace = c, v, tr
	return true
}

func dropToken(c *Scenario, i int) {
	c.Tokens = append(c.Tokens[:i:i], c.Tokens[i+1:]...)
	for j := range c.Ops {
		o := &c.Ops[j]
		if o.Tok > i {
			o.Tok--
		} else if o.Tok == i {
			o.Off = 0
		}
	}
}

func shrink(sc *Scenario, v *Viol, trace uint64, limit int, dur time.Duration, exec func(*Scenario) (*Viol, uint64)) *shrinker {
	s := &shrinker{best: sc, v: v, trace: trace, limit: limit, until: time.Now().Add(dur), exec: exec}
	if exec == nil {
		s.w = true
		s.exec = func(c *Scenario) (*Viol, uint64) { return execute(c, newStats()) }
	}
	edit := func(f func(c *Scenario)) bool {
		c := s.best.clone()
		f(c)
		return s.try(c)
	}
	// nothing after the failure matters, usually
	if v.Tok+1 < len(sc.Tokens) {
		edit(func(c *Scenario) {
			c.Tokens = c.Tokens[:v.Tok+1]
			var ops []Op
			for _, o := range c.Ops {
				if o.Tok <= v.Tok+1 {
					ops = append(ops, o)
				}
			}
			c.Ops = ops
		})
	}
	edit(func(c *Scenario) { c.Dense = true })
	edit(func(c *Scenario) { c.Sched = Sched{Kind: "default"} })
	perToken := func(c *Scenario) {
		for i := range c.Tokens {
			c.Tokens[i].Cuts, c.Tokens[i].Zero = []int{0}, 0
		}
		c.End = "eof"
	}
	if edit(func(c *Scenario) { perToken(c); c.Sched = Sched{Kind: "default"} }) || edit(perToken) {
	} else {
		edit(func(c *Scenario) { c.End = "eof" })
		edit(func(c *Scenario) {
			for i := range c.Tokens {
				c.Tokens[i].Zero = 0
			}
		})
		edit(func(c *Scenario) {
			for i := range c.Tokens {
				c.Tokens[i].Cuts = nil
			}
		})
	}
	edit(func(c *Scenario) { c.WF = nil })
	edit(func(c *Scenario) { c.Quiet = false })
	edit(func(c *Scenario) { c.Ops = nil })
	edit(func(c *Scenario) { c.Tee = false })
	edit(func(c *Scenario) { c.TTY = false })
	edit(func(c *Scenario) { c.Near = nil })
	for i := 0; s.best.Near != nil && i < len(s.best.Near.Tokens); {
		if !edit(func(c *Scenario) { c.Near.Tokens = append(c.Near.Tokens[:i:i], c.Near.Tokens[i+1:]...) }) {
			i++
		}
	}
	for i := 0; s.best.Near != nil && i < len(s.best.Near.Ops); {
		if !edit(func(c *Scenario) { c.Near.Ops = append(c.Near.Ops[:i:i], c.Near.Ops[i+1:]...) }) {
			i++
		}
	}
	for {
		before := s.tries
		changed := false
		// tokens, in blocks
		for n := len(s.best.Tokens) / 2; n >= 1; n /= 2 {
			for i := len(s.best.Tokens) - n; i >= 0; i -= n {
				if i+n > len(s.best.Tokens) {
					continue
				}
				if edit(func(c *Scenario) {
					for j := 0; j < n; j++ {
						dropToken(c, i)
					}
				}) {
					changed = true
				}
			}
		}
		for i := len(s.best.Ops) - 1; i >= 0; i-- {
			if i < len(s.best.Ops) && edit(func(c *Scenario) { c.Ops = append(c.Ops[:i:i], c.Ops[i+1:]...) }) {
				changed = true
			}
		}
		for i := len(s.best.WF) - 1; i >= 0; i-- {
			if edit(func(c *Scenario) { c.WF = append(c.WF[:i:i], c.WF[i+1:]...) }) {
				changed = true
			}
		}
		// shorter tokens
		for i := range s.best.Tokens {
			for n := len(s.best.Tokens[i].B) / 2; n >= 1; n /= 2 {
				if c := s.best.Tokens[i].C; c != "text" && c != "raw" {
					break
				}
				for o := len(s.best.Tokens[i].B) - n; o >= 0; o -= n {
					b := s.best.Tokens[i].B
					if o+n > len(b) || n == len(b) {
						continue
					}
					if edit(func(c *Scenario) {
						c.Tokens[i].B = append(append([]byte(nil), b[:o]...), b[o+n:]...)
						var cuts []int
						for _, x := range c.Tokens[i].Cuts {
							if x <= o {
								cuts = append(cuts, x)
							} else if x >= o+n {
								cuts = append(cuts, x-n)
							}
						}
						c.Tokens[i].Cuts = cuts
					}) {
						changed = true
					}
				}
			}
		}
		for i := range s.best.Tokens {
			if i < len(s.best.Tokens) && s.best.Tokens[i].C == "text" && len(s.best.Tokens[i].Cuts) == 1 && edit(func(c *Scenario) {
				b := append([]byte(nil), c.Tokens[i].B...)
				same := true
				for j := range b {
					if b[j] != 'a' {
						same = false
					}
					b[j] = 'a'
				}
				c.Tokens[i].B = b
				if same {
					c.Tokens = nil
				}
			}) {
				changed = true
			}
		}
		for i := range s.best.Tokens { // fewer cuts
			for j := len(s.best.Tokens[i].Cuts) - 1; j >= 0; j-- {
				if s.best.Tokens[i].Cuts[j] == 0 {
					continue
				}
				if edit(func(c *Scenario) {
					x := c.Tokens[i].Cuts
					c.Tokens[i].Cuts = append(x[:j:j], x[j+1:]...)
				}) {
					changed = true
				}
			}
		}
		if !changed || before == s.tries || s.tries >= s.limit {
			break
		}
	}
	s.schedule(edit)
	// operations exactly at token ends
	for i := range s.best.Ops {
		if s.best.Ops[i].Off != 0 {
			edit(func(c *Scenario) { c.Ops[i].Off = 0 })
		}
	}
	return s
}

// schedule turns the scheduling policy into a list of deviations from the
// default one and minimises that.
func (s *shrinker) schedule(edit func(func(*Scenario)) bool) {
	if s.best.Sched.Kind == "default" || s.best.Kind == "twin" || s.best.Kind == "diff" {
		return
	}
	if edit(func(c *Scenario) { c.Sched = Sched{Kind: "default"} }) {
		return
	}
	edit(func(c *Scenario) { c.Sched.CbYield = 0 })
	if !s.w {
		return
	}
	w := newWorld(s.best, newStats())
	w.run()
	devs := w.k.outDevs
	if !edit(func(c *Scenario) {
		c.Sched = Sched{Kind: "replay", Seed: c.Sched.Seed, CbYield: c.Sched.CbYield, Devs: devs}
	}) {
		return
	}
	for n := (len(s.best.Sched.Devs) + 1) / 2; n >= 1; n /= 2 {
		for i := len(s.best.Sched.Devs) - n; i >= 0; i -= n {
			if i+n > len(s.best.Sched.Devs) {
				continue
			}
			edit(func(c *Scenario) {
				d := c.Sched.Devs
				c.Sched.Devs = append(d[:i:i], d[i+n:]...)
			})
		}
	}
	for i := len(s.best.Tokens) - 1; i >= 0; i-- {
		if i < len(s.best.Tokens) {
			edit(func(c *Scenario) { dropToken(c, i) })
		}
	}
}

// relevant decides whether a minimised failure is one of property p.
func relevant(p string, v *Viol, sc *Scenario) bool {
	cls := map[string]bool{}
	for _, t := range sc.Tokens {
		cls[t.C] = true
	}
	failing := ""
	if v.Tok >= 0 && v.Tok < len(sc.Tokens) {
		failing = sc.Tokens[v.Tok].C
	} else if v.Tok < 0 && len(sc.Tokens) > 0 { // the process died; the last one is needed for it
		failing = sc.Tokens[len(sc.Tokens)-1].C
	}
	has := func(cs ...string) bool {
		for _, c := range cs {
			if cls[c] {
				return true
			}
		}
		return false
	}
	in := func(s string, cs ...string) bool {
		for _, c := range cs {
			if s == c {
				return true
			}
		}
		return false
	}
	resize := v.Hints == "resize"
	key := false
	for _, o := range sc.Ops {
		if o.Kind == "resize" {
			resize = true
		}
		if o.Kind == "key" {
			key = true
		}
	}
	chunky := sc.End != "eof"
	for i, t := range sc.Tokens {
		if t.Zero > 0 || len(t.Cuts) > 1 || len(t.Cuts) == 1 && t.Cuts[0] != 0 || i > 0 && len(t.Cuts) == 0 {
			chunky = true
		}
	}
	state := in(v.Cat, "cells", "style", "cursor", "margin", "wrap", "pen", "alt", "size", "views", "kbd", "struct", "viewstr")
	cells := in(v.Cat, "cells", "style", "cursor", "subline", "struct")
	// what a sequence should do is not done either if interpreting it ends the loop
	dead := in(v.Cat, "panic", "hang", "stopped")
	at := func(cs ...string) bool { return dead && in(failing, cs...) && !resize }
	switch p {
	case "C01":
		return in(v.Cat, "panic", "hang", "stopped") || v.Cat == "deadlock" && len(sc.Ops) == 0
	case "C02":
		return in(v.Cat, "struct", "subline")
	case "C03":
		return cells && failing == "text" && !resize || at("text")
	case "C04":
		return in(failing, "motion", "cup", "save", "lf") && !resize && in(v.Cat, "cells", "cursor", "style", "notifcursor", "struct") || at("motion", "cup", "save", "lf")
	case "C05":
		return has("erase") && !resize && (cells || v.Cat == "pen" || v.Cat == "margin") || at("erase")
	case "C06":
		return (has("scroll", "margin") || strings.Contains(v.Hints, "scroll")) && !resize && (cells || in(v.Cat, "margin", "pen")) || at("scroll", "margin")
	case "C07":
		return in(v.Cat, "pen", "notifstyle") || v.Cat == "style" || has("sgr") && cells && !resize || at("sgr")
	case "C08", "C20":
		return v.Cat == "diff" || v.Cat == "twin"
	case "C09":
		return v.Cat == "viewstr" || has("osc", "dcs", "csi?", "esc?", "c0?", "cut") && (state || in(v.Cat, "reply", "viewnote", "bell", "stopped", "bytes")) || at("osc", "dcs", "csi?", "esc?", "c0?", "cut")
	case "C10":
		return in(v.Cat, "mirror", "notifcursor", "notifstyle", "viewnote", "scrollback", "bell", "stale")
	case "C11":
		return in(v.Cat, "ansi", "tty", "stylebad") || in(v.Cat, "struct", "subline", "panic") && (strings.Contains(v.Msg, "ANSI") || strings.Contains(v.Msg, "TTYFrontend"))
	case "C12":
		return v.Cat == "key" || v.Cat == "write" && key || v.Cat == "panic" && strings.Contains(v.Msg, "SendKey")
	case "C13":
		return v.Cat == "mouse" || v.Cat == "panic" && strings.Contains(v.Msg, "SendMouseRaw")
	case "C14":
		return v.Cat == "reply" || at("query")
	case "C15":
		return in(v.Cat, "lock", "deadlock", "half", "race", "mix") || state && sc.Sched.Kind != "default" && len(sc.Ops) > 0
	case "C16":
		return in(v.Cat, "bytes", "write", "tee", "setsize", "stopped", "mix") || chunky && (state || dead || in(v.Cat, "reply", "viewnote", "bell"))
	case "C17":
		return in(v.Cat, "alt", "views", "viewnote", "wrap") || has("alt", "mode", "wrap", "keymode", "mouse", "show") && !resize && (state || in(v.Cat, "reply", "notifcursor", "notifstyle", "mirror")) || at("alt", "mode", "wrap", "keymode", "mouse", "show")
	case "C18":
		return resize && (state || in(v.Cat, "subline", "panic", "notifcursor", "notifstyle", "mirror", "ansi", "setsize", "hang"))
	case "C19":
		return has("kbd", "kbdq") && in(v.Cat, "kbd", "reply", "key") || at("kbd", "kbdq")
	}
	return false
}
