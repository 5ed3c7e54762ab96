// simcheck runs simulations for one property, reports the first violation with a minimised replay file and writes
// the evidence file.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"simverif/harness"
	"simverif/simrt"
)

var (
	prop    = flag.String("prop", "", "property")
	tier    = flag.String("tier", "quick", "quick or thorough")
	seed    = flag.Int64("seed", 1, "base seed")
	seconds = flag.Float64("seconds", 40, "time for exploring")
	maxRuns = flag.Int("runs", 0, "most runs (0: no limit)")
	workers = flag.Int("workers", 8, "worker processes")
	verif   = flag.String("verif", "", "directory for evidence, replays and known findings")
	mode    = flag.String("mode", "check", "check, worker, run, replay, minimise, hash")
	from    = flag.Int("from", 0, "worker: first index")
	step    = flag.Int("step", 1, "worker: index step")
	in      = flag.String("in", "", "replay file")
	out     = flag.String("out", "", "output file")
	logOn   = flag.Bool("log", false, "print the event log")
	caseNo  = flag.Int("case", -1, "run: index")
	keep    = flag.Bool("keep", false, "worker: go on after a violation")
)

// Replay is a violation that can be executed again.
type Replay struct {
	Property  string            `json:"property"`
	Seed      int64             `json:"seed"`
	Case      int               `json:"case"`
	What      string            `json:"violation"`
	Kind      string            `json:"kind"`
	SimTime   int64             `json:"sim_time_ns"`
	EventHash string            `json:"event_hash"`
	Minimised string            `json:"minimised"`
	Scenario  *harness.Scenario `json:"scenario"`
	Scheduled bool              `json:"replay_decisions"` // follow Decisions instead of the scenario's strategy
	Decisions []simrt.Decision  `json:"decisions,omitempty"`
	Trace     []string          `json:"trace,omitempty"`
	Info      string            `json:"info,omitempty"`
}

type rec struct {
	I       int              `json:"i"`
	Ev      uint64           `json:"e"`
	Sh      uint64           `json:"s"`
	Steps   uint64           `json:"n"`
	Sw      uint64           `json:"w"`
	Pre     uint64           `json:"p"`
	Sim     int64            `json:"t"`
	Tasks   int              `json:"k"`
	Evals   int64            `json:"v"`
	Strat   string           `json:"st"`
	Faults  map[string]int64 `json:"f,omitempty"`
	Probes  map[string]int64 `json:"pr,omitempty"`
	Twice   bool             `json:"tw,omitempty"`
	Viol    string           `json:"viol,omitempty"`
	Kind    string           `json:"kind,omitempty"`
	Cut     bool             `json:"cut,omitempty"`
	Trouble string           `json:"trouble,omitempty"`
	Known   string           `json:"known,omitempty"`
}

// Known is a listed finding.
type Known struct {
	Property string `json:"property"`
	Match    string `json:"match"`
	What     string `json:"what"`
	re       *regexp.Regexp
}

func main() {
	flag.Parse()
	if *verif == "" {
		*verif = "/verif"
	}
	switch *mode {
	case "check":
		os.Exit(check())
	case "worker":
		worker()
	case "run":
		runOne()
	case "hash":
		hashes()
	case "replay":
		os.Exit(replay())
	case "minimise":
		minimise()
	default:
		fatal("unknown mode")
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simcheck: "+f+"\n", a...)
	os.Exit(2)
}

func caseSeed(i int) uint64 { return simrt.Mix(uint64(*seed), uint64(i)+1) }

func gen(i int) *harness.Scenario { return harness.Gen(*prop, caseSeed(i)) }

func known() (ks []*Known) {
	b, err := os.ReadFile(filepath.Join(*verif, "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Known []*Known `json:"known"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("known-findings.json: %v", err)
	}
	for _, k := range f.Known {
		if k.Property != *prop {
			continue
		}
		re, err := regexp.Compile(k.Match)
		if err != nil {
			fatal("known-findings.json: %v", err)
		}
		k.re = re
		ks = append(ks, k)
	}
	return
}

// watchdog ends the process when one run takes too long in real time.
type watchdog struct {
	mu sync.Mutex
	t  *time.Timer
}

func (w *watchdog) arm(what string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.t != nil {
		w.t.Stop()
	}
	w.t = time.AfterFunc(240*time.Second, func() {
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		fmt.Fprintf(os.Stderr, "simcheck: %s does not end in real time\n%s\n", what, buf[:n])
		os.Exit(3)
	})
}

func worker() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(200)
	ks := known()
	o := bufio.NewWriter(os.Stdout)
	end := time.Now().Add(time.Duration(*seconds * float64(time.Second)))
	var w watchdog
	for i := *from; (*maxRuns == 0 || i < *maxRuns) && time.Now().Before(end); i += *step {
		fmt.Fprintf(o, "S %d\n", i)
		o.Flush()
		w.arm(fmt.Sprintf("%s case %d", *prop, i))
		sc := gen(i)
		res := harness.Run(sc, harness.RunOpts{Prop: *prop})
		r := rec{I: i, Ev: res.EventHash, Sh: res.SchedHash, Steps: res.Steps, Sw: res.Switches, Pre: res.Preempts, Sim: res.SimTime, Tasks: res.Tasks, Evals: res.Stats.Evals, Strat: sc.Strat.Name, Faults: res.Stats.Faults, Probes: res.Stats.Probes, Trouble: res.Aborted, Cut: res.Cut}
		if r.Trouble == "" && (i/(*step))%40 == 7 {
			again := harness.Run(gen(i), harness.RunOpts{Prop: *prop})
			r.Twice = true
			if again.EventHash != res.EventHash || again.SchedHash != res.SchedHash || again.Steps != res.Steps {
				r.Trouble = "the same seed gave two different executions"
			}
		}
		if v := res.Violation; v != nil {
			r.Viol, r.Kind = v.Msg, v.Kind
			for _, k := range ks {
				if k.re.MatchString(v.Msg) {
					r.Known = k.What
				}
			}
		}
		b, _ := json.Marshal(&r)
		o.Write([]byte("R "))
		o.Write(b)
		o.WriteByte('\n')
		o.Flush()
		if r.Trouble != "" || r.Viol != "" && r.Known == "" && !*keep {
			break
		}
	}
	o.WriteString("E\n")
	o.Flush()
}

type totals struct {
	runs, twice, steps, sw, pre uint64
	cut                         uint64
	evals, sim                  int64
	events, scheds, execs       map[uint64]bool
	trivial                     int
	nontrivial                  map[uint64]bool
	faults, probes, faultRuns   map[string]int64
	probeRuns, strats           map[string]int64
	maxTasks                    int
	known                       map[string]int
	sample                      []rec
}

func check() int {
	start := time.Now()
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	if *maxRuns == 0 {
		*maxRuns = 2_000_000 // bounds the memory for telling executions apart
	}
	t := totals{events: map[uint64]bool{}, scheds: map[uint64]bool{}, execs: map[uint64]bool{}, nontrivial: map[uint64]bool{}, faults: map[string]int64{}, probes: map[string]int64{}, faultRuns: map[string]int64{}, probeRuns: map[string]int64{}, strats: map[string]int64{}, known: map[string]int{}}
	var mu sync.Mutex
	var viol []rec
	var trouble []string
	crashed, crash := -1, ""
	var procs []*exec.Cmd
	stopped := false
	stop := func() {
		if !stopped {
			stopped = true
			for _, p := range procs {
				p.Process.Kill()
			}
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		c := exec.Command(exe, "-mode", "worker", "-prop", *prop, "-tier", *tier, "-seed", strconv.FormatInt(*seed, 10), "-seconds", fmt.Sprint(*seconds), "-runs", strconv.Itoa(*maxRuns), "-from", strconv.Itoa(w), "-step", strconv.Itoa(*workers), "-verif", *verif)
		c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=3GiB", "GOTRACEBACK=all")
		p, err := c.StdoutPipe()
		if err != nil {
			fatal("%v", err)
		}
		var eb bytes.Buffer
		c.Stderr = &eb
		if err := c.Start(); err != nil {
			fatal("%v", err)
		}
		mu.Lock()
		procs = append(procs, c)
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rd := bufio.NewReaderSize(p, 1<<20)
			last, ended := "", false
			for {
				line, err := rd.ReadString('\n')
				if err != nil {
					break
				}
				switch line[0] {
				case 'S':
					last = strings.TrimSpace(line[2:])
				case 'E':
					ended = true
				case 'R':
					var r rec
					if err := json.Unmarshal([]byte(line[2:]), &r); err != nil {
						mu.Lock()
						trouble = append(trouble, "unreadable worker output")
						mu.Unlock()
						continue
					}
					mu.Lock()
					t.add(&r)
					if r.Trouble != "" {
						trouble = append(trouble, fmt.Sprintf("case %d: %s", r.I, r.Trouble))
						stop()
					} else if r.Viol != "" && r.Known == "" {
						viol = append(viol, r)
						stop()
					}
					mu.Unlock()
				}
			}
			err := c.Wait()
			mu.Lock()
			if !stopped && (err != nil || !ended) {
				tail := eb.String()
				if m := fatalRE.FindString(tail); m != "" {
					crashed, _ = strconv.Atoi(last)
					crash = m
				}
				if len(tail) > 6000 {
					tail = tail[:6000]
				}
				trouble = append(trouble, fmt.Sprintf("worker ended unexpectedly in case %s: %v\n%s", last, err, tail))
				stop()
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	explore := time.Since(start).Seconds()
	code := 0
	path := ""
	if len(viol) == 0 && crashed >= 0 {
		// The whole process died. It counts only if a fresh process dies of the same in the same case.
		if p, ok := reportCrash(exe, crashed, crash); ok {
			fmt.Printf("violated: the process died: %s\n", crash)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
			t.evidence(start, explore, 1)
			return 1
		}
	}
	if len(viol) > 0 {
		sort.Slice(viol, func(i, j int) bool { return viol[i].I < viol[j].I })
		path, err = report(exe, viol[0])
		if err != nil {
			trouble = append(trouble, err.Error())
			code = 2
		} else {
			code = 1
		}
	} else if len(trouble) > 0 {
		code = 2
	} else if t.runs == 0 {
		trouble = append(trouble, "no run was completed")
		code = 2
	} else if t.cut > 2 && t.cut*50 > t.runs {
		trouble = append(trouble, fmt.Sprintf("%d of %d runs reached the step limit", t.cut, t.runs))
		code = 2
	}
	if code != 2 {
		t.evidence(start, explore, len(viol))
	}
	for _, x := range trouble {
		fmt.Fprintf(os.Stderr, "simcheck: trouble: %s\n", x)
	}
	var names []string
	for k := range t.known {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
	}
	fmt.Printf("%s: %d runs, %d distinct executions, %d oracle evaluations, %s simulated, %.0f s\n", *prop, t.runs, len(t.execs), t.evals, time.Duration(t.sim).Round(time.Second), time.Since(start).Seconds())
	if code == 1 {
		fmt.Printf("violated: %s\n", viol[0].Viol)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	}
	return code
}

func (t *totals) add(r *rec) {
	t.runs++
	t.steps += r.Steps
	t.sw += r.Sw
	t.pre += r.Pre
	t.evals += r.Evals
	t.sim += r.Sim
	t.events[r.Ev] = true
	exec := simrt.Mix(simrt.Mix(r.Ev, r.Sh), r.Steps)
	t.execs[exec] = true
	t.scheds[r.Sh] = true
	t.strats[r.Strat]++
	if r.Twice {
		t.twice++
	}
	if r.Cut {
		t.cut++
	}
	if r.Evals > 0 && (len(r.Faults) > 0 || r.Sw > 20) {
		t.nontrivial[exec] = true
	}
	for k, v := range r.Faults {
		t.faults[k] += v
		t.faultRuns[k]++
	}
	for k, v := range r.Probes {
		t.probes[k] += v
		t.probeRuns[k]++
	}
	if r.Tasks > t.maxTasks {
		t.maxTasks = r.Tasks
	}
	if r.Known != "" {
		t.known[r.Known]++
	}
	if len(t.sample) < 4 && r.Evals > 0 {
		t.sample = append(t.sample, *r)
	}
}

func (t *totals) evidence(start time.Time, explore float64, violations int) {
	type sample struct {
		Case      int               `json:"case"`
		EventHash string            `json:"event_hash"`
		SimTime   string            `json:"simulated_time"`
		Steps     uint64            `json:"steps"`
		Switches  uint64            `json:"task_switches"`
		Evals     int64             `json:"oracle_evaluations"`
		Faults    map[string]int64  `json:"faults,omitempty"`
		Scenario  *harness.Scenario `json:"scenario"`
	}
	var ss []any
	for _, r := range t.sample {
		x := sample{r.I, fmt.Sprintf("%016x", r.Ev), time.Duration(r.Sim).String(), r.Steps, r.Sw, r.Evals, r.Faults, gen(r.I)}
		if b, _ := json.Marshal(x); len(b) > 6000 {
			x.Scenario = nil
		}
		ss = append(ss, x)
	}
	type fc struct {
		Count int64 `json:"count"`
		Runs  int64 `json:"runs"`
	}
	fm := map[string]fc{}
	for k, v := range t.faults {
		fm[k] = fc{v, t.faultRuns[k]}
	}
	pm := map[string]fc{}
	for k, v := range t.probes {
		pm[k] = fc{v, t.probeRuns[k]}
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration",
		"wall_s": time.Since(start).Seconds(), "violations": violations,
		"assumptions": []string{
			"the simulated network, clock and scheduler behave as the real ones do where the property depends on them",
			"only executions reachable from the generated scenarios are judged",
			"tasks interleave between statements: effects of torn or reordered memory accesses are not produced; the unordered accesses behind them are what C25 looks for",
		},
		"coverage": map[string]any{
			"evaluations":               t.runs,
			"distinct_nontrivial":       len(t.nontrivial),
			"rule":                      "One evaluation is one complete simulated execution of a scenario generated from (VERIF_SEED, case number). It is non-trivial if an oracle judged something in it and a fault was injected or tasks were switched more than 20 times; distinct means a different combined hash of schedule and history.",
			"samples":                   ss,
			"distinct_executions":       len(t.execs),
			"distinct_histories":        len(t.events),
			"history_measure":           "hash over the sequence of application steps, handler calls, messages and publisher observations with their simulated times",
			"distinct_schedules":        len(t.scheds),
			"schedule_measure":          "hash over the sequence of (task, statement counter) at every task switch",
			"oracle_evaluations":        t.evals,
			"seeds_per_hour":            float64(t.runs) / explore * 3600,
			"simulated_seconds":         float64(t.sim) / 1e9,
			"simulated_per_real_second": float64(t.sim) / 1e9 / explore,
			"statements_interleaved":    t.steps,
			"task_switches":             t.sw,
			"forced_preemptions":        t.pre,
			"most_tasks_in_a_run":       t.maxTasks,
			"runs_executed_twice":       t.twice,
			"runs_cut_at_step_limit":    t.cut,
			"strategies":                t.strats,
			"faults":                    fm,
			"rare_conditions":           pm,
			"real_code":                 []string{"sttp", "sttp/transport", "sttp/transport/tssc", "sttp/thread", "sttp/metadata", "sttp/data (with sttp/data/parser)", "sttp/xml", "sttp/guid", "sttp/ticks", "sttp/format", "sttp/hashset", "sttp/queue", "sttp/version"},
			"simulated":                 []string{"goroutine scheduler, channels, select, sync, atomic and abool primitives", "clock, timers, tickers, contexts", "TCP and UDP sockets, name resolution", "publisher (independent encoder and protocol model)", "random source of UUIDs", "standard output and standard error"},
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	p := filepath.Join(*verif, "evidence", *prop+".json")
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

// report reproduces a violation in a fresh process, minimises it and writes the replay file.
func report(exe string, r rec) (string, error) {
	dir := filepath.Join(*verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-seed%d-case%d.json", *prop, *seed, r.I))
	rp := Replay{Property: *prop, Seed: *seed, Case: r.I, Scenario: gen(r.I), Minimised: "no"}
	b, _ := json.Marshal(&rp)
	tmp := p + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		return "", err
	}
	defer os.Remove(tmp)
	c := exec.Command(exe, "-mode", "minimise", "-prop", *prop, "-in", tmp, "-out", p, "-verif", *verif, "-seed", strconv.FormatInt(*seed, 10))
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=3GiB")
	var eb bytes.Buffer
	c.Stderr = &eb
	if err := c.Run(); err != nil {
		return "", fmt.Errorf("case %d failed (%s) but the failure could not be reproduced: %v %s", r.I, r.Viol, err, eb.String())
	}
	c = exec.Command(exe, "-mode", "replay", "-in", p, "-verif", *verif)
	c.Env = append(os.Environ(), "GOMAXPROCS=1")
	ob, err := c.CombinedOutput()
	if c.ProcessState == nil || c.ProcessState.ExitCode() != 1 {
		return "", fmt.Errorf("case %d: the replay file does not reproduce the failure: %v %s", r.I, err, ob)
	}
	return p, nil
}

// fatalRE matches what the Go runtime prints when a program dies of something that cannot be recovered from.
var fatalRE = regexp.MustCompile(`(?:runtime: goroutine stack exceeds [0-9]+-byte limit|fatal error: (?:stack overflow|runtime: out of memory|runtime: cannot allocate memory|all goroutines are asleep.*|sync: .*|concurrent map .*))`)

// reportCrash writes a replay file for a case in which the process itself dies.
func reportCrash(exe string, i int, what string) (string, bool) {
	dir := filepath.Join(*verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", false
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-seed%d-case%d.json", *prop, *seed, i))
	rp := Replay{Property: *prop, Seed: *seed, Case: i, Scenario: gen(i), Minimised: "no: the process dies", What: what, Kind: "process died"}
	b, _ := json.MarshalIndent(&rp, "", " ")
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		return "", false
	}
	return p, diesOf(exe, p) == what
}

// diesOf executes a replay file in another process and returns what it died of.
func diesOf(exe, p string) string {
	c := exec.Command(exe, "-mode", "run", "-in", p, "-verif", *verif)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=3GiB")
	var eb bytes.Buffer
	c.Stderr = &eb
	c.Run()
	return fatalRE.FindString(eb.String())
}

func readReplay(p string) *Replay {
	b, err := os.ReadFile(p)
	if err != nil {
		fatal("%v", err)
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fatal("%s: %v", p, err)
	}
	return rp
}

func exec1(rp *Replay, log, record bool) harness.Outcome {
	o := harness.RunOpts{Prop: rp.Property, Log: log, Record: record, ReplayOn: rp.Scheduled}
	if rp.Scheduled {
		o.Replay = rp.Decisions
	}
	return harness.Run(rp.Scenario, o)
}

func replay() int {
	runtime.GOMAXPROCS(1)
	rp := readReplay(*in)
	if rp.Kind == "process died" {
		exe, err := os.Executable()
		if err != nil {
			fatal("%v", err)
		}
		if what := diesOf(exe, *in); what != "" {
			fmt.Printf("violated: the process died: %s\n", what)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, *in)
			return 1
		}
		fmt.Println("the execution holds: no violation")
		return 0
	}
	res := exec1(rp, true, false)
	if *logOn {
		for _, e := range res.Events {
			fmt.Println(e)
		}
	}
	if res.Aborted != "" {
		fmt.Println("trouble:", res.Aborted)
		return 2
	}
	if res.Violation == nil {
		fmt.Println("the execution holds: no violation")
		return 0
	}
	fmt.Printf("violated at %s: %s\n", time.Duration(res.Violation.Time), res.Violation.Msg)
	h := fmt.Sprintf("%016x", res.EventHash)
	if rp.EventHash != "" && (h != rp.EventHash || res.Violation.Msg != rp.What) {
		fmt.Printf("the execution differs from the recorded one (%s instead of %s)\n", h, rp.EventHash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, *in)
	return 1
}

func runOne() {
	runtime.GOMAXPROCS(1)
	var sc *harness.Scenario
	if *in != "" {
		rp := readReplay(*in)
		*prop, sc = rp.Property, rp.Scenario
	} else {
		sc = gen(*caseNo)
	}
	b, _ := json.MarshalIndent(sc, "", " ")
	if *logOn {
		fmt.Println(string(b))
	}
	t := time.Now()
	res := harness.Run(sc, harness.RunOpts{Prop: *prop, Log: true})
	if *logOn {
		for _, e := range res.Events {
			fmt.Println(e)
		}
	}
	fmt.Printf("steps %d switches %d preempts %d simtime %s real %s faults %v probes %v evals %d\n", res.Steps, res.Switches, res.Preempts, time.Duration(res.SimTime), time.Since(t), res.Stats.Faults, res.Stats.Probes, res.Stats.Evals)
	if res.Aborted != "" {
		fmt.Println("trouble:", res.Aborted)
	}
	if v := res.Violation; v != nil {
		fmt.Printf("violated at %s: %s: %s\n%s\n", time.Duration(v.Time), v.Kind, v.Msg, v.Info)
		os.Exit(1)
	}
}

// hashes prints the hashes of many runs, for comparing processes.
func hashes() {
	runtime.GOMAXPROCS(1)
	for i := *from; i < *maxRuns; i += *step {
		r := harness.Run(gen(i), harness.RunOpts{Prop: *prop})
		v := ""
		if r.Violation != nil {
			v = r.Violation.Msg
		}
		fmt.Printf("%s %d %016x %016x %d %d %s\n", *prop, i, r.EventHash, r.SchedHash, r.Steps, r.SimTime, v)
	}
}
