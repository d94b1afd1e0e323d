package main

// Stats is what one worker measured.
type Stats struct {
	Runs      int64
	Reads     int64
	Writes    int64
	Resyncs   int64
	Bounds    int64
	Steps     int64
	Switches  int64
	Bytes     int64
	Units     int64
	Calls     int64 // frontend callbacks
	Nontriv   int64
	Faults    map[string]int64
	Classes   map[string]int64
	OpKinds   map[string]int64
	Probes    map[string]int64
	Foreign   map[string]int64
	states    map[uint64]struct{}
	inter     map[uint64]struct{}
	nontrivH  map[uint64]struct{}
	statesCap int
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int64{}, Classes: map[string]int64{}, OpKinds: map[string]int64{}, Probes: map[string]int64{},
		Foreign: map[string]int64{}, states: map[uint64]struct{}{}, inter: map[uint64]struct{}{}, nontrivH: map[uint64]struct{}{}, statesCap: 400000}
}

func (s *Stats) Fault(name string) { s.Faults[name]++ }
func (s *Stats) Probe(name string) { s.Probes[name]++ }

func (s *Stats) State(h uint64) {
	if len(s.states) < s.statesCap {
		s.states[h] = struct{}{}
	}
}

func (s *Stats) merge(o *Stats) {
	s.Runs += o.Runs
	s.Reads += o.Reads
	s.Writes += o.Writes
	s.Resyncs += o.Resyncs
	s.Bounds += o.Bounds
	s.Steps += o.Steps
	s.Switches += o.Switches
	s.Bytes += o.Bytes
	s.Units += o.Units
	s.Calls += o.Calls
	s.Nontriv += o.Nontriv
	for _, p := range [][2]map[string]int64{{s.Faults, o.Faults}, {s.Classes, o.Classes}, {s.OpKinds, o.OpKinds}, {s.Probes, o.Probes}, {s.Foreign, o.Foreign}} {
		for k, v := range p[1] {
			p[0][k] += v
		}
	}
}
