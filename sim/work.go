package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Config describes the work of one worker process.
type Config struct {
	Prop   string
	Seed   uint64
	From   int
	Stride int
	Total  int
	Until  int64 // unix milliseconds
	Dir    string
	Id     int
	Race   bool
	Skip   []int // runs that crash or hang the process
}

// Result is what a worker reports.
type Result struct {
	Stats  *Stats
	Done   int
	Replay *Replay
	Notes  []string
}

func (c *Config) file(kind string) string {
	return filepath.Join(c.Dir, fmt.Sprintf("%s.%d", kind, c.Id))
}

// executeAny runs a scenario, in the light world if race is set.
func executeAny(sc *Scenario, st *Stats, race bool) (*Viol, uint64) {
	if race {
		return runLight(sc, st)
	}
	return execute(sc, st)
}

// pulse tells the parent which execution is in progress.
type pulse struct {
	f    *os.File
	buf  [24]byte
	exec int64
}

func (p *pulse) beat(run int, phase int64) {
	if p.f == nil {
		return
	}
	p.exec++
	binary.LittleEndian.PutUint64(p.buf[0:], uint64(run))
	binary.LittleEndian.PutUint64(p.buf[8:], uint64(p.exec))
	binary.LittleEndian.PutUint64(p.buf[16:], uint64(phase))
	p.f.WriteAt(p.buf[:], 0)
}

var thePulse pulse

func cmdWork() {
	var c Config
	if err := json.Unmarshal([]byte(arg(2)), &c); err != nil {
		usage()
	}
	runtime.GOMAXPROCS(1)
	limitMemory()
	debug.SetGCPercent(400)
	f, err := os.Create(c.file("pulse"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	thePulse.f = f
	st := newStats()
	res := &Result{Stats: st}
	skip := map[int]bool{}
	for _, r := range c.Skip {
		skip[r] = true
	}
	sigs := map[string]int{}
	var shrinkTime time.Duration
	begin := time.Now()
	for run := c.From; run < c.Total; run += c.Stride {
		if skip[run] {
			continue
		}
		if res.Done%16 == 0 {
			if time.Now().UnixMilli() > c.Until {
				break
			}
			if _, err := os.Stat(filepath.Join(c.Dir, "stop")); err == nil {
				break
			}
		}
		thePulse.beat(run, 0)
		sc := generate(c.Prop, c.Seed, run)
		v, tr := executeAny(sc, st, c.Race)
		res.Done++
		st.Runs++
		for i := range sc.Tokens {
			st.Classes[sc.Tokens[i].C]++
		}
		if nontrivial(sc) {
			st.Nontriv++
			if len(st.nontrivH) < st.statesCap {
				st.nontrivH[tr] = struct{}{}
			}
		}
		if v == nil {
			continue
		}
		sig := v.Cat
		if v.Tok < len(sc.Tokens) {
			sig += "|" + sc.Tokens[v.Tok].C
		}
		n := sigs[sig]
		sigs[sig]++
		if n >= 4 && (n&(n-1) != 0 || shrinkTime > time.Since(begin)/2) {
			st.Foreign["similar failures, not minimised: "+sig]++
			continue
		}
		t0 := time.Now()
		if c.Race { // a deadlock or a panic: the ordinary world can minimise it
			if vv, _ := execute(sc, newStats()); vv == nil {
				st.Foreign["light world only: "+v.Cat]++
				continue
			}
			v, tr = execute(sc, newStats())
		}
		saveJSON(c.file("first"), &Replay{Property: c.Prop, Verdict: v, Trace: hex(tr), Scenario: sc})
		s := shrink(sc, v, tr, 400, 4*time.Second, pulsed(run))
		if !relevant(c.Prop, s.v, s.best) {
			shrinkTime += time.Since(t0)
			st.Foreign[foreignName(s)]++
			if len(res.Notes) < 5 {
				res.Notes = append(res.Notes, fmt.Sprintf("run %d: %v; %s", run, s.v, strings.Join(s.best.describe(), "; ")))
			}
			os.Remove(c.file("first"))
			continue
		}
		s2 := shrink(s.best, s.v, s.trace, 4000, 25*time.Second, pulsed(run))
		if !relevant(c.Prop, s2.v, s2.best) {
			s2 = s
		}
		// the schedule as a list of decisions
		v2, tr2 := execute(s2.best, newStats())
		if v2 == nil {
			v2, tr2 = s2.v, s2.trace
		}
		res.Replay = &Replay{Property: c.Prop, Verdict: v2, Trace: hex(tr2), Desc: s2.best.describe(), Scenario: s2.best}
		break
	}
	dumpSet(c.file("states"), st.states)
	dumpSet(c.file("inter"), st.inter)
	dumpSet(c.file("nontriv"), st.nontrivH)
	if err := saveJSON(c.file("result"), res); err != nil {
		os.Exit(3)
	}
}

func foreignName(s *shrinker) string {
	n := s.v.Cat
	if s.v.Tok < len(s.best.Tokens) {
		n += " at " + s.best.Tokens[s.v.Tok].C
	}
	return n
}

// pulsed executes candidates of the shrinker, telling the parent about each.
func pulsed(run int) func(*Scenario) (*Viol, uint64) {
	return func(c *Scenario) (*Viol, uint64) {
		thePulse.beat(run, 1)
		return execute(c, newStats())
	}
}

func hex(h uint64) string { return fmt.Sprintf("%016x", h) }

// nontrivial says whether a run exercises more than a straight line: something
// beside the stream, a fault, or a stream cut inside of tokens.
func nontrivial(sc *Scenario) bool {
	n := 0
	for i := range sc.Tokens {
		n += len(sc.Tokens[i].Cuts)
		if sc.Tokens[i].Zero > 0 {
			n++
		}
	}
	return len(sc.Tokens) >= 4 && (len(sc.Ops) > 0 || len(sc.WF) > 0 || n > 1 || sc.End != "eof" || sc.Kind != "")
}

func dumpSet(path string, m map[uint64]struct{}) {
	b := make([]byte, 0, 8*len(m))
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	os.WriteFile(path, b, 0o644)
}

func loadSet(path string, m map[uint64]struct{}) {
	b, _ := os.ReadFile(path)
	for ; len(b) >= 8; b = b[8:] {
		m[binary.LittleEndian.Uint64(b)] = struct{}{}
	}
}

// cmdOne executes the scenario of a replay file and prints the outcome.
func cmdOne(path string) {
	r, err := loadReplay(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	runtime.GOMAXPROCS(1)
	limitMemory()
	v, tr := executeAny(r.Scenario, newStats(), r.Race)
	b, _ := json.Marshal(&Replay{Verdict: v, Trace: hex(tr)})
	fmt.Println(string(b))
}

const raceExit = 66

// maxMemory is what a process may use before it counts as growing without
// end; a run needs a few tens of megabytes.
const maxMemory = 2 << 30

const memoryMsg = "the input is not consumed: the process uses more and more memory"

// limitMemory makes an allocation beyond maxMemory fail. The race detector's
// shadow memory does not allow that; the parent watches those processes.
func limitMemory() {
	if !raceBuild {
		const rlimitData = 2
		syscall.Setrlimit(rlimitData, &syscall.Rlimit{Cur: maxMemory, Max: maxMemory})
	}
}

// runOne executes a scenario in a process of its own and classifies how that
// ended. cpu is the processor time after which it counts as a hang.
func runOne(sc *Scenario, race bool, cpu time.Duration) (*Viol, string, error) {
	f, err := os.CreateTemp(buildDir(), "one-*.json")
	if err != nil {
		return nil, "", err
	}
	f.Close()
	defer os.Remove(f.Name())
	if err := saveJSON(f.Name(), &Replay{Scenario: sc, Race: race}); err != nil {
		return nil, "", err
	}
	cmd := exec.Command(programFor(race), "one", f.Name())
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode="+strconv.Itoa(raceExit), "GOTRACEBACK=all")
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	begin := time.Now()
	for {
		select {
		case err := <-done:
			if err == nil {
				var r Replay
				if err := json.Unmarshal(out.Bytes(), &r); err != nil {
					return nil, "", err
				}
				return r.Verdict, r.Trace, nil
			}
			if v := crashViol(err, errb.String()); v != nil {
				v.Tok = len(sc.Tokens) - 1
				return v, hex(hashS(1, v.Cat+v.Msg)), nil
			}
			return nil, "", fmt.Errorf("%v: %s", err, tail(errb.String(), 400))
		case <-time.After(20 * time.Millisecond):
			c, rss := procUse(cmd.Process.Pid)
			msg := ""
			switch {
			case c > cpu:
				msg = "the input is not consumed: the process is busy without end"
			case rss > maxMemory:
				msg = memoryMsg
			case c < time.Second && time.Since(begin) > 4*cpu+10*time.Second:
				msg = "the input is not consumed: every goroutine waits for ever"
			}
			if msg != "" {
				cmd.Process.Kill()
				<-done
				v := &Viol{Cat: "hang", Msg: msg, Tok: len(sc.Tokens) - 1}
				if strings.Contains(msg, "waits for ever") {
					v.Cat = "deadlock"
				}
				return v, hex(hashS(1, v.Cat+v.Msg)), nil
			}
		}
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// crashViol describes how a process died, if the code under test killed it.
func crashViol(err error, stderr string) *Viol {
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return nil
	}
	if ee.ExitCode() == raceExit || strings.Contains(stderr, "WARNING: DATA RACE") {
		return &Viol{Cat: "race", Msg: raceSummary(stderr)}
	}
	if strings.Contains(stderr, "out of memory") && ee.ExitCode() == 2 {
		return &Viol{Cat: "hang", Msg: memoryMsg}
	}
	if strings.Contains(stderr, "all goroutines are asleep") {
		return &Viol{Cat: "deadlock", Msg: "every goroutine waits for ever"}
	}
	if i := strings.Index(stderr, "fatal error: "); i >= 0 && ee.ExitCode() == 2 {
		l := stderr[i:]
		if j := strings.IndexByte(l, '\n'); j >= 0 {
			l = l[:j]
		}
		return &Viol{Cat: "panic", Msg: l + "\n" + trimStack([]byte(stderr))}
	}
	if i := strings.Index(stderr, "panic: "); i >= 0 && ee.ExitCode() == 2 && strings.Contains(stderr, "ricochet1k/termemu") {
		l := stderr[i:]
		if j := strings.IndexByte(l, '\n'); j >= 0 {
			l = l[:j]
		}
		return &Viol{Cat: "panic", Msg: l + "\n" + trimStack([]byte(stderr))}
	}
	return nil
}

func raceSummary(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return "data race"
	}
	s = s[i:]
	if j := strings.Index(s, "Goroutine "); j > 0 {
		s = s[:j]
	}
	var out []string
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Previous") {
			w := strings.Fields(t)
			out = append(out, strings.ToLower(w[0]+" "+w[1])+":")
			if strings.HasPrefix(t, "Previous") {
				out[len(out)-1] = "previous " + strings.ToLower(w[1]) + ":"
			} else {
				out[len(out)-1] = strings.ToLower(w[0]) + ":"
			}
		} else if strings.HasPrefix(t, "github.com/ricochet1k/termemu.") {
			if k := strings.LastIndexByte(t, '('); k > 0 {
				t = t[:k]
			}
			out = append(out, strings.TrimPrefix(t, "github.com/ricochet1k/termemu."))
		}
	}
	return "data race: " + strings.Join(out, " ")
}

// procUse returns the processor time and memory of a child process.
func procUse(pid int) (time.Duration, int64) {
	var cpu time.Duration
	if b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid)); err == nil {
		s := string(b)
		if i := strings.LastIndexByte(s, ')'); i >= 0 {
			f := strings.Fields(s[i+1:])
			if len(f) > 13 {
				u, _ := strconv.Atoi(f[11])
				v, _ := strconv.Atoi(f[12])
				cpu = time.Duration(u+v) * 10 * time.Millisecond
			}
		}
	}
	var rss int64
	if b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid)); err == nil {
		if f := strings.Fields(string(b)); len(f) > 1 {
			n, _ := strconv.ParseInt(f[1], 10, 64)
			rss = n * int64(os.Getpagesize())
		}
	}
	return cpu, rss
}

func buildDir() string {
	d := os.Getenv("TERMSIM_DIR")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

func programFor(race bool) string {
	me, _ := os.Executable()
	dir := filepath.Dir(me)
	if race {
		return filepath.Join(dir, "termsim-race")
	}
	return filepath.Join(dir, "termsim")
}

var errMemory = errors.New("out of memory")

// worker is the parent's view of a worker process.
type worker struct {
	c       Config
	cmd     *exec.Cmd
	errb    *bytes.Buffer
	done    chan error
	last    uint64
	lastRun int
	phase   int64
	since   time.Time
	cpu     time.Duration
	over    bool
}

func (w *worker) start() error {
	b, _ := json.Marshal(&w.c)
	w.cmd = exec.Command(programFor(w.c.Race), "work", string(b))
	w.errb = &bytes.Buffer{}
	w.cmd.Stderr = w.errb
	w.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode="+strconv.Itoa(raceExit), "GOTRACEBACK=all")
	os.Remove(w.c.file("pulse"))
	os.Remove(w.c.file("first"))
	if err := w.cmd.Start(); err != nil {
		return err
	}
	w.done = make(chan error, 1)
	go func(c *exec.Cmd, d chan error) {
		ended := make(chan error, 1)
		go func() { ended <- c.Wait() }()
		for {
			select {
			case err := <-ended:
				d <- err
				return
			case <-time.After(50 * time.Millisecond):
				if _, rss := procUse(c.Process.Pid); rss > maxMemory {
					c.Process.Kill()
					<-ended
					d <- errMemory
					return
				}
			}
		}
	}(w.cmd, w.done)
	w.since, w.cpu, w.last, w.lastRun = time.Now(), 0, 0, w.c.From
	return nil
}

// look reads the worker's pulse and reports whether it is stuck.
func (w *worker) look() bool {
	cpu, rss := procUse(w.cmd.Process.Pid)
	if b, err := os.ReadFile(w.c.file("pulse")); err == nil && len(b) == 24 {
		n := binary.LittleEndian.Uint64(b[8:])
		w.lastRun = int(binary.LittleEndian.Uint64(b[0:]))
		w.phase = int64(binary.LittleEndian.Uint64(b[16:]))
		if n != w.last {
			w.last, w.since, w.cpu = n, time.Now(), cpu
			return rss > maxMemory
		}
	}
	idle := time.Since(w.since)
	return rss > maxMemory || cpu-w.cpu > hangCPU() || idle > 60*time.Second && cpu-w.cpu < time.Second
}

func hangCPU() time.Duration { return 20 * time.Second }

// Tier is how much a check does.
type Tier struct {
	Runs int
	Time time.Duration
}

func tierOf(prop, tier string) Tier {
	t := Tier{300000, 40 * time.Second}
	switch prop { // slower runs
	case "C08", "C11", "C15", "C16", "C20":
		t.Time = 70 * time.Second
	}
	if tier == "thorough" {
		t = Tier{1 << 30, 600 * time.Second}
	}
	if s := os.Getenv("TERMSIM_TIME"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			t.Time = time.Duration(n) * time.Second
		}
	}
	if s := os.Getenv("TERMSIM_RUNS"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			t.Runs = n
		}
	}
	return t
}

func cmdCheck() int {
	prop, dir := arg(2), arg(3) // dir: /verif
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	t := tierOf(prop, tier)
	begin := time.Now()
	tmp, err := os.MkdirTemp(buildDir(), "run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	n := runtime.NumCPU()
	if n > 16 {
		n = 16
	}
	if s := os.Getenv("TERMSIM_WORKERS"); s != "" {
		if k, err := strconv.Atoi(s); err == nil {
			n = k
		}
	}
	if n < 2 {
		n = 2
	}
	nrace := 0
	if prop == "C15" {
		nrace = max(1, n*3/8)
	}
	until := begin.Add(t.Time).UnixMilli()
	var ws []*worker
	for i := 0; i < n; i++ {
		w := &worker{c: Config{Prop: prop, Seed: seed, From: i, Stride: n - nrace, Total: t.Runs, Until: until, Dir: tmp, Id: i}}
		if i >= n-nrace {
			// the light world runs its own range of seeds
			w.c.From, w.c.Stride, w.c.Race = 1<<31+i-(n-nrace), nrace, true
			w.c.Total = 1<<31 + t.Runs
		}
		if err := w.start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		ws = append(ws, w)
	}
	agg := &aggregate{late: begin.Add(t.Time + 200*time.Second), prop: prop, st: newStats(), raceSt: newStats()}
	active := len(ws)
	stop := func() { os.WriteFile(filepath.Join(tmp, "stop"), nil, 0o644) }
	// restart continues a worker after the run that ended it
	restart := func(w *worker) {
		w.c.Skip = append(w.c.Skip, w.lastRun)
		if len(w.c.Skip) > 20 || time.Now().UnixMilli() > until || agg.replay != nil {
			w.over = true
			active--
			return
		}
		w.c.From = w.lastRun + w.c.Stride
		w.c.Id += 1000
		if err := w.start(); err != nil {
			w.over = true
			active--
		}
	}
	for active > 0 {
		time.Sleep(100 * time.Millisecond)
		for _, w := range ws {
			if w.over {
				continue
			}
			select {
			case err := <-w.done:
				w.look()
				if err == nil {
					w.over = true
					active--
					agg.add(&w.c)
					if agg.replay != nil {
						stop()
					}
					continue
				}
				v := crashViol(err, w.errb.String())
				if err == errMemory {
					v = &Viol{Cat: "hang", Msg: memoryMsg}
				}
				if v == nil {
					fmt.Fprintf(os.Stderr, "worker failed: %v\n%s\n", err, tail(w.errb.String(), 2000))
					agg.errors++
					w.over = true
					active--
					continue
				}
				agg.died(w, v)
				if agg.replay != nil {
					stop()
				}
				restart(w)
			default:
				if w.look() {
					w.cmd.Process.Kill()
					<-w.done
					agg.died(w, &Viol{Cat: "hang"})
					if agg.replay != nil {
						stop()
					}
					restart(w)
				}
			}
		}
	}
	agg.wall = time.Since(begin)
	if err := agg.writeEvidence(dir, tier, seed, t); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, s := range agg.notes {
		fmt.Println("note (not this property):", s)
	}
	fmt.Printf("%s %s: %d runs in %.1fs, %d states compared, %d distinct non-trivial runs\n", prop, tier, agg.st.Runs+agg.raceSt.Runs, agg.wall.Seconds(), agg.st.Bounds+agg.st.Resyncs, len(agg.st.nontrivH))
	if agg.replay == nil {
		if agg.errors > 0 || agg.st.Runs == 0 {
			fmt.Println("error: the check did not complete")
			return 3
		}
		return 0
	}
	rd := filepath.Join(dir, "replays")
	os.MkdirAll(rd, 0o755)
	path := filepath.Join(rd, fmt.Sprintf("%s-%d-%d.json", prop, seed, agg.replay.Scenario.Run))
	if err := saveJSON(path, agg.replay); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if !verifyReplay(path) && !verifyReplay(path) && !verifyReplay(path) {
		fmt.Println("error: the failure does not replay:", agg.replay.Verdict)
		return 3
	}
	for _, l := range agg.replay.Desc {
		fmt.Println("  ", cutLine(l))
	}
	fmt.Println("  ", cutLine(fmt.Sprint(agg.replay.Verdict)))
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1
}

// cutLine shortens a line for the console. The replay file has all of it.
func cutLine(s string) string {
	const most = 400
	if len(s) <= most {
		return s
	}
	return fmt.Sprintf("%s … (%d bytes in all)", strings.ToValidUTF8(s[:most], ""), len(s))
}

func verifyReplay(path string) bool {
	r, err := loadReplay(path)
	if err != nil {
		return false
	}
	v, tr, err := runOne(r.Scenario, r.Race, 2*hangCPU())
	if err != nil || v == nil || v.Cat != r.Verdict.Cat {
		return false
	}
	if v.Cat == "hang" || v.Cat == "race" || v.Cat == "deadlock" || v.Cat == "panic" {
		return true
	}
	return tr == r.Trace && v.Msg == r.Verdict.Msg
}

// cmdReplay runs a replay file and compares with what it records.
func cmdReplay(path string) int {
	r, err := loadReplay(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, l := range r.Scenario.describe() {
		fmt.Println("  ", cutLine(l))
	}
	v, tr, err := runOne(r.Scenario, r.Race, 2*hangCPU())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if v == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Println(v)
	if tr == r.Trace {
		fmt.Println("the execution is the recorded one, trace", tr)
	} else {
		fmt.Println("trace", tr, "recorded", r.Trace)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	return 1
}

type aggregate struct {
	prop   string
	st     *Stats
	raceSt *Stats
	replay *Replay
	notes  []string
	errors int
	wall   time.Duration
	late   time.Time // after this, no more runs are repeated and minimised
}

func (a *aggregate) add(c *Config) {
	b, err := os.ReadFile(c.file("result"))
	if err != nil {
		a.errors++
		return
	}
	var r Result
	if err := json.Unmarshal(b, &r); err != nil {
		a.errors++
		return
	}
	st := a.st
	if c.Race {
		st = a.raceSt
	}
	st.merge(r.Stats)
	loadSet(c.file("states"), st.states)
	loadSet(c.file("inter"), st.inter)
	loadSet(c.file("nontriv"), st.nontrivH)
	if len(a.notes) < 6 {
		a.notes = append(a.notes, r.Notes...)
	}
	if r.Replay != nil && a.replay == nil {
		a.replay = r.Replay
	}
}

// died deals with a run that ended its worker.
func (a *aggregate) died(w *worker, v *Viol) {
	if a.replay != nil {
		return
	}
	if w.phase == 1 { // while minimising: use what it started from
		if r, err := loadReplay(w.c.file("first")); err == nil && r.Verdict != nil && relevant(a.prop, r.Verdict, r.Scenario) {
			r.Desc = r.Scenario.describe()
			a.replay = r
		}
		return
	}
	if time.Now().After(a.late) {
		a.notes = append(a.notes, fmt.Sprintf("run %d ended its process (%s); there was no time to repeat it", w.lastRun, v.Cat))
		return
	}
	sc := generate(w.c.Prop, w.c.Seed, w.lastRun)
	got, tr, err := runOne(sc, w.c.Race, hangCPU())
	if err != nil || got == nil {
		a.notes = append(a.notes, fmt.Sprintf("run %d ended its process (%s) but does not when repeated: %s", w.lastRun, v.Cat, v.Msg))
		if os.Getenv("TERMSIM_DEBUG") != "" {
			os.WriteFile(fmt.Sprintf("/tmp/died.%d", w.lastRun), w.errb.Bytes(), 0o644)
		}
		return
	}
	lim := 2 * time.Second
	if got.Cat == "hang" || got.Cat == "deadlock" {
		// short inputs need milliseconds; the final one is confirmed with the full limit
		lim = 3 * time.Second
	}
	s := shrink(sc, got, 0, 200, 60*time.Second, func(c *Scenario) (*Viol, uint64) {
		v, _, err := runOne(c, w.c.Race, lim)
		if err != nil {
			return nil, 0
		}
		return v, 0
	})
	best, bv := s.best, s.v
	if v2, tr2, err := runOne(best, w.c.Race, hangCPU()); err == nil && v2 != nil && sameFailure(v2, got) {
		bv, tr = v2, tr2
	} else {
		best, bv = sc, got
	}
	if relevant(a.prop, bv, best) {
		a.replay = &Replay{Property: a.prop, Verdict: bv, Trace: tr, Desc: best.describe(), Scenario: best, Race: w.c.Race}
		return
	}
	a.notes = append(a.notes, fmt.Sprintf("run %d: %v; %s", w.lastRun, bv, strings.Join(best.describe(), "; ")))
	a.st.Foreign[bv.Cat]++
}

func (a *aggregate) writeEvidence(dir, tier string, seed uint64, t Tier) error {
	st, rs := a.st, a.raceSt
	total := st.Runs + rs.Runs
	var samples []any
	for i := 0; i < 2; i++ {
		d := generate(a.prop, seed, i).describe()
		if len(d) > 40 {
			d = append(d[:40:40], fmt.Sprintf("... %d more lines", len(d)-40))
		}
		samples = append(samples, map[string]any{"run": i, "scenario": d})
	}
	cov := map[string]any{
		"evaluations":         total,
		"distinct_nontrivial": len(st.nontrivH) + len(rs.nontrivH),
		"rule": "A case is one simulated execution generated from hash(seed, property, run number). It is non-trivial if it has at least four stream tokens and something beside an uncut stream: operations by other tasks, faults, " +
			"reads that cut the stream, an abnormal end, or a second execution to compare with. Distinct: by the hash of everything that happened (every scheduling decision, state, write and callback).",
		"samples":               samples,
		"seeds_per_hour":        int64(float64(total) / a.wall.Seconds() * 3600),
		"stream_bytes":          st.Bytes + rs.Bytes,
		"stream_units":          st.Units,
		"backend_reads":         st.Reads + rs.Reads,
		"backend_writes":        st.Writes + rs.Writes,
		"frontend_callbacks":    st.Calls,
		"logical_steps":         st.Steps + rs.Steps,
		"task_switches":         st.Switches + rs.Switches,
		"states_compared":       st.Bounds + st.Resyncs,
		"resyncs_in_mid_stream": st.Resyncs,
		"distinct_states":       len(st.states),
		"distinct_schedules":    len(st.inter) + len(rs.inter),
		"faults_injected":       st.Faults,
		"operations":            st.OpKinds,
		"token_classes":         st.Classes,
		"probes":                st.Probes,
		"failures_of_others":    st.Foreign,
		"simulated_time":        "termemu has no clocks or timers; the extent of a run is its logical steps (lock, read, write and callback points), reported above",
		"real_components":       []string{"terminal, read loop, escape parser, grapheme reader", "span and grid screens", "keyboard and mouse encoders", "TeeBackend, NoPTYBackend, PTYBackend.SetSize (C16)", "TTYFrontend (C11, C15)"},
		"simulated_components":  []string{"application side of the backend (byte stream, reads, writes, sizes)", "frontend", "tee and TTY writers", "locks and goroutine scheduling (verif build tag)"},
	}
	if a.prop == "C15" {
		cov["race_detector_runs"] = rs.Runs
		cov["race_detector_operations"] = rs.OpKinds
	}
	if len(samples) == 0 {
		cov["samples"] = []any{}
	}
	viol := 0
	if a.replay != nil {
		viol = 1
	}
	ev := map[string]any{
		"property": a.prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": a.wall.Seconds(), "violations": viol,
		"assumptions": assumptions(a.prop),
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	return saveJSON(filepath.Join(dir, "evidence", a.prop+".json"), ev)
}

func assumptions(p string) []string {
	out := []string{
		"control changes hands only at lock, backend, tee and callback points; between them the code under test is sequential, which holds if it is free of data races (checked by C15)",
		"the reference model written for this purpose states what the property says; inputs the property leaves open are not generated or accept every reading",
	}
	sort.Strings(out)
	return out
}
