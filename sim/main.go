package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: termsim check|work|one|replay|gen|hashes|selftest ...")
	os.Exit(2)
}

func arg(i int) string {
	if i < len(os.Args) {
		return os.Args[i]
	}
	usage()
	return ""
}

func argN(i int) int {
	n, err := strconv.Atoi(arg(i))
	if err != nil {
		usage()
	}
	return n
}

func main() {
	if f := os.Getenv("TERMSIM_PROF"); f != "" {
		if w, err := os.Create(f); err == nil && pprof.StartCPUProfile(w) == nil {
			defer pprof.StopCPUProfile()
		}
	}
	switch arg(1) {
	case "check":
		os.Exit(cmdCheck())
	case "work":
		cmdWork()
	case "one": // run a scenario file, print the result as JSON
		cmdOne(arg(2))
	case "replay":
		os.Exit(cmdReplay(arg(2)))
	case "gen": // prop seed run: run it and show what happens
		sc := generate(arg(2), uint64(argN(3)), argN(4))
		for _, l := range sc.describe() {
			fmt.Println(l)
		}
		v, tr := execute(sc, newStats())
		fmt.Printf("trace %016x\n%v\n", tr, v)
	case "shrink": // prop seed run
		p := arg(2)
		sc := generate(p, uint64(argN(3)), argN(4))
		v, tr := execute(sc, newStats())
		if v == nil {
			fmt.Println("no failure")
			return
		}
		s := shrink(sc, v, tr, 4000, 60e9, nil)
		for _, l := range s.best.describe() {
			fmt.Println(l)
		}
		fmt.Printf("%v\nrelevant %v\n", s.v, relevant(p, s.v, s.best))
		if f := os.Getenv("TERMSIM_OUT"); f != "" {
			saveJSON(f, &Replay{Property: p, Verdict: s.v, Trace: hex(s.trace), Scenario: s.best})
		}
	case "scan": // prop seed n: all failures, shrunk
		cmdScan(arg(2), uint64(argN(3)), argN(4))
	case "sweep": // seed n: runs of all properties until one fails with a violation of its own
		os.Exit(cmdSweep(uint64(argN(2)), argN(3)))
	case "slow": // prop seed n: the slowest runs
		cmdSlow(arg(2), uint64(argN(3)), argN(4))
	case "hashes": // prop seed n: trace hashes, to compare processes
		for i := 0; i < argN(4); i++ {
			i := i
			if os.Getenv("TERMSIM_BACKWARDS") != "" {
				i = argN(4) - 1 - i
			}
			_, tr := execute(generate(arg(2), uint64(argN(3)), i), newStats())
			fmt.Printf("%016x\n", tr)
		}
	case "selftest":
		os.Exit(cmdSelftest(uint64(argN(2)), argN(3)))
	default:
		usage()
	}
}

// cmdSelftest executes the runs of every property in three processes with
// different garbage collection and processor counts (one of them backwards)
// and compares the hashes of everything that happened in them.
func cmdSelftest(seed uint64, n int) int {
	bad := 0
	for k := 1; k <= 20; k++ {
		prop := fmt.Sprintf("C%02d", k)
		var outs [3][]string
		done := make(chan error)
		for v := range outs {
			go func() {
				cmd := exec.Command(os.Args[0], "hashes", prop, strconv.FormatUint(seed, 10), strconv.Itoa(n))
				cmd.Env = append(os.Environ(), []string{"GOGC=400", "GOGC=5", "GOMAXPROCS=1"}[v], "TERMSIM_BACKWARDS="+[]string{"", "", "1"}[v])
				b, err := cmd.Output()
				outs[v] = strings.Split(strings.TrimSpace(string(b)), "\n")
				done <- err
			}()
		}
		for range outs {
			if err := <-done; err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 3
			}
		}
		for i := range outs[2][:len(outs[2])/2] {
			j := len(outs[2]) - 1 - i
			outs[2][i], outs[2][j] = outs[2][j], outs[2][i]
		}
		diff := 0
		for i := 0; i < n; i++ {
			if outs[0][i] != outs[1][i] || outs[0][i] != outs[2][i] {
				if diff++; diff <= 3 {
					fmt.Printf("%s run %d: %s %s %s\n", prop, i, outs[0][i], outs[1][i], outs[2][i])
				}
			}
		}
		fmt.Printf("%s: %d of %d runs differ\n", prop, diff, n)
		bad += diff
	}
	if bad > 0 {
		return 1
	}
	return 0
}

// cmdSweep is for judging many variants of the code quickly.
func cmdSweep(seed uint64, n int) int {
	st := newStats()
	notes := map[string]int{}
	for from := 0; from < n; from += 100 {
		for k := 1; k <= 20; k++ {
			p := fmt.Sprintf("C%02d", k)
			for i := from; i < from+100 && i < n; i++ {
				sc := generate(p, seed, i)
				v, tr := execute(sc, st)
				if v == nil {
					continue
				}
				if notes[p+v.Cat]++; notes[p+v.Cat] > 3 {
					continue
				}
				s := shrink(sc, v, tr, 300, 3e9, nil)
				if relevant(p, s.v, s.best) {
					fmt.Printf("KILLED %s run %d: %s\n", p, i, s.v)
					return 1
				}
				fmt.Printf("FOREIGN %s run %d: %s\n", p, i, s.v)
			}
		}
	}
	return 0
}

func cmdSlow(p string, seed uint64, n int) {
	type rec struct {
		run int
		d   time.Duration
		mem uint64
	}
	var rs []rec
	var ms runtime.MemStats
	t0 := time.Now()
	for i := 0; i < n; i++ {
		runtime.ReadMemStats(&ms)
		t, m := time.Now(), ms.TotalAlloc
		execute(generate(p, seed, i), newStats())
		d := time.Since(t)
		runtime.ReadMemStats(&ms)
		rs = append(rs, rec{i, d, (ms.TotalAlloc - m) >> 20})
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].d > rs[j].d })
	fmt.Printf("%s: %.2f ms per run; slowest:", p, time.Since(t0).Seconds()*1000/float64(n))
	for _, r := range rs[:min(4, n)] {
		fmt.Printf(" %d %v", r.run, r.d.Round(time.Millisecond))
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].mem > rs[j].mem })
	fmt.Printf("; most memory allocated:")
	for _, r := range rs[:min(4, n)] {
		fmt.Printf(" %d %dM", r.run, r.mem)
	}
	fmt.Println()
}

func cmdScan(p string, seed uint64, n int) {
	st := newStats()
	seen := map[string]int{}
	bad := 0
	for i := 0; i < n; i++ {
		sc := generate(p, seed, i)
		v, tr := execute(sc, st)
		if v == nil {
			continue
		}
		bad++
		seen[v.Cat]++
		if seen[v.Cat] > 3 {
			continue
		}
		s := shrink(sc, v, tr, 2000, 20e9, nil)
		fmt.Printf("--- run %d %s relevant=%v\n", i, p, relevant(p, s.v, s.best))
		for _, l := range s.best.describe() {
			fmt.Println("  ", l)
		}
		fmt.Println("  ", s.v, s.v.Hints)
	}
	b, _ := json.Marshal(seen)
	fmt.Printf("%s: %d of %d runs fail %s\n", p, bad, n, b)
}
