package main

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"time"

	"simverif/harness"
	"simverif/simrt"
)

var digits = regexp.MustCompile(`0x[0-9a-f]+|\{[^}]*\}|"[^"]*"|[0-9a-f]{8,}|[0-9.]+`)

// signature identifies a failure up to incidental numbers.
func signature(v *simrt.Violation) string {
	m := digits.ReplaceAllString(v.Msg, "#")
	if len(m) > 160 {
		m = m[:160]
	}
	return v.Kind + ":" + m
}

type minimiser struct {
	part  int // subscriber being minimised, 0: the whole
	sig   string
	end   time.Time
	tries int
	prop  string
}

func clone(s *harness.Scenario) *harness.Scenario {
	b, _ := json.Marshal(s)
	c := &harness.Scenario{}
	json.Unmarshal(b, c)
	return c
}

func (m *minimiser) fails(rp *Replay) bool {
	if time.Now().After(m.end) {
		return false
	}
	m.tries++
	r := exec1(rp, false, false)
	return r.Aborted == "" && r.Violation != nil && signature(r.Violation) == m.sig
}

// at is the part of a scenario that is being minimised.
func (m *minimiser) at(s *harness.Scenario) *harness.Scenario {
	if m.part > 0 {
		return s.Multi[m.part-1]
	}
	return s
}

// try applies a change to a copy of the scenario and keeps it if the failure stays.
func (m *minimiser) try(rp *Replay, change func(*harness.Scenario) bool) bool {
	c := clone(rp.Scenario)
	if !change(m.at(c)) {
		return false
	}
	t := *rp
	t.Scenario = c
	for k := uint64(0); k < 3; k++ {
		if k > 0 {
			c.Sched = simrt.Mix(rp.Scenario.Sched, k)
		}
		if m.fails(&t) {
			rp.Scenario = c
			return true
		}
	}
	return false
}

func minimise() {
	runtime.GOMAXPROCS(1)
	rp := readReplay(*in)
	first := exec1(rp, false, false)
	if first.Aborted != "" {
		fatal("%s", first.Aborted)
	}
	if first.Violation == nil {
		fatal("the failure does not occur in a fresh process")
	}
	orig := *rp
	// Slow executions get less effort.
	m := &minimiser{sig: signature(first.Violation), end: time.Now().Add(45 * time.Second), prop: rp.Property}
	m.scenario(rp)
	// From seeds to explicit scheduling decisions.
	m.end = time.Now().Add(30 * time.Second)
	rec := exec1(rp, false, true)
	n0 := len(rec.Decisions)
	if rec.Violation != nil && signature(rec.Violation) == m.sig {
		t := *rp
		t.Scheduled, t.Decisions = true, rec.Decisions
		if m.fails(&t) {
			*rp = t
			m.decisions(rp)
		}
	}
	final := exec1(rp, true, false)
	if final.Violation == nil || signature(final.Violation) != m.sig {
		*rp = orig
		final = exec1(rp, true, false)
	}
	if final.Violation == nil {
		fatal("the failure was lost")
	}
	rp.What, rp.Kind, rp.SimTime, rp.Info = final.Violation.Msg, final.Violation.Kind, final.Violation.Time, final.Violation.Info
	rp.EventHash = fmt.Sprintf("%016x", final.EventHash)
	rp.Minimised = fmt.Sprintf("%d executions tried; %d of %d scheduling decisions kept", m.tries, len(rp.Decisions), n0)
	rp.Trace = final.Events
	if n := len(rp.Trace); n > 3000 {
		rp.Trace = rp.Trace[n-3000:]
	}
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func (m *minimiser) scenario(rp *Replay) {
	for i := len(rp.Scenario.Multi) - 1; i >= 0; i-- {
		i := i
		m.try(rp, func(s *harness.Scenario) bool {
			if len(s.Multi) < 2 {
				return false
			}
			// The others keep their ports.
			s.Multi[i] = &harness.Scenario{Profile: "idle"}
			return true
		})
	}
	for m.part = len(rp.Scenario.Multi); m.part > 0; m.part-- {
		if m.at(rp.Scenario).Profile != "idle" {
			m.reduce(rp)
		}
	}
	m.reduce(rp)
}

func (m *minimiser) reduce(rp *Replay) {
	type ch = func(*harness.Scenario) bool
	set := func(f func(*harness.Scenario)) ch { return func(s *harness.Scenario) bool { f(s); return true } }
	for _, c := range []ch{
		set(func(s *harness.Scenario) { s.Side = nil }),
		set(func(s *harness.Scenario) { s.App.Slow, s.App.EventSlow, s.App.Query = 0, 0, false }),
		set(func(s *harness.Scenario) { s.Net.SegMax, s.Net.Buf = 1<<20, 1<<20 }),
		set(func(s *harness.Scenario) { s.Net.LatMin, s.Net.LatMax = 1000, 2000 }),
		set(func(s *harness.Scenario) { s.Vary = 0 }),
		set(func(s *harness.Scenario) { s.App.Pool = 0 }),
		set(func(s *harness.Scenario) { s.Strat = simrt.Strategy{Name: "quiet"} }),
		set(func(s *harness.Scenario) { s.Strat.PPreempt = 0 }),
		set(func(s *harness.Scenario) { s.Strat.PStall = 0 }),
	} {
		m.try(rp, c)
	}
	for again := true; again && time.Now().Before(m.end); {
		again = false
		for i := len(m.at(rp.Scenario).Side) - 1; i >= 0; i-- {
			i := i
			if m.try(rp, func(s *harness.Scenario) bool { s.Side = append(s.Side[:i], s.Side[i+1:]...); return true }) {
				again = true
				continue
			}
			for j := len(m.at(rp.Scenario).Side[i]) - 1; j >= 0; j-- {
				j := j
				if m.try(rp, func(s *harness.Scenario) bool { s.Side[i] = append(s.Side[i][:j], s.Side[i][j+1:]...); return true }) {
					again = true
				}
			}
		}
		for i := len(m.at(rp.Scenario).Conns) - 1; i >= 0; i-- {
			i := i
			for j := len(m.at(rp.Scenario).Conns[i].Ops) - 1; j >= 0; j-- {
				j := j
				if m.try(rp, func(s *harness.Scenario) bool {
					o := s.Conns[i].Ops
					s.Conns[i].Ops = append(o[:j], o[j+1:]...)
					return true
				}) {
					again = true
					continue
				}
				if m.try(rp, func(s *harness.Scenario) bool {
					o := &s.Conns[i].Ops[j]
					if o.N <= 1 {
						return false
					}
					o.N /= 2
					return true
				}) {
					again = true
				}
			}
			if len(m.at(rp.Scenario).Conns) > 1 && m.try(rp, func(s *harness.Scenario) bool {
				s.Conns = append(s.Conns[:i], s.Conns[i+1:]...)
				for k := range s.Main {
					if o := &s.Main[k]; (o.K == "waitscript" || o.K == "waitdead") && o.N >= i && o.N > 0 {
						o.N--
					}
				}
				return true
			}) {
				again = true
			}
		}
		for i := len(m.at(rp.Scenario).Dials) - 1; i >= 0; i-- {
			i := i
			if m.try(rp, func(s *harness.Scenario) bool { s.Dials = append(s.Dials[:i], s.Dials[i+1:]...); return true }) {
				again = true
			}
		}
		for i := len(m.at(rp.Scenario).Corrupt) - 1; i >= 0; i-- {
			i := i
			if m.try(rp, func(s *harness.Scenario) bool { s.Corrupt = append(s.Corrupt[:i], s.Corrupt[i+1:]...); return true }) {
				again = true
			}
		}
		if t := m.at(rp.Scenario).Thread; t != nil {
			for i := len(t.Callers) - 1; i >= 0; i-- {
				i := i
				for j := len(m.at(rp.Scenario).Thread.Callers[i]) - 1; j >= 0; j-- {
					j := j
					if m.try(rp, func(s *harness.Scenario) bool {
						c := s.Thread.Callers[i]
						s.Thread.Callers[i] = append(c[:j], c[j+1:]...)
						return true
					}) {
						again = true
					}
				}
			}
		}
		if f := m.at(rp.Scenario).FilterS; f != nil {
			for i := len(f.Work) - 1; i >= 0; i-- {
				i := i
				for j := len(m.at(rp.Scenario).FilterS.Work[i]) - 1; j >= 0; j-- {
					j := j
					if m.try(rp, func(s *harness.Scenario) bool {
						c := s.FilterS.Work[i]
						s.FilterS.Work[i] = append(c[:j], c[j+1:]...)
						return true
					}) {
						again = true
					}
				}
			}
		}
	}
}

// decisions removes scheduling decisions by delta debugging.
func (m *minimiser) decisions(rp *Replay) {
	for n := 2; len(rp.Decisions) > 0 && time.Now().Before(m.end); {
		d := rp.Decisions
		size := (len(d) + n - 1) / n
		done := false
		for i := 0; i < len(d) && time.Now().Before(m.end); i += size {
			j := i + size
			if j > len(d) {
				j = len(d)
			}
			t := *rp
			t.Decisions = append(append([]simrt.Decision(nil), d[:i]...), d[j:]...)
			if m.fails(&t) {
				*rp = t
				done = true
				break
			}
		}
		if done {
			if n > 2 {
				n--
			}
			continue
		}
		if size == 1 {
			break
		}
		n *= 2
		if n > len(d) {
			n = len(d)
		}
	}
}
