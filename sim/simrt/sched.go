// Package simrt is a deterministic cooperative scheduler: every goroutine of the code under test is a task,
// exactly one task runs at a time, and a seeded generator (or a recorded trace) decides every switch.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Key names one decision point: the n-th scheduling point of a task.
type Key struct {
	Task int    `json:"t"`
	Step uint64 `json:"s"`
}

// Act is what a decision point decided other than the default.
type Act struct {
	Pick  int   `json:"p,omitempty"` // index into the run queue (0: default)
	Stall int64 `json:"d,omitempty"` // nanoseconds the running task is stalled
	Pre   bool  `json:"x,omitempty"` // preemption of a runnable task
}

type Decision struct {
	Key
	Act
}

// Strategy holds the scheduling parameters of one run.
type Strategy struct {
	Name     string  `json:"name"`
	PPreempt float64 `json:"pp"` // preemption probability per statement
	PSync    float64 `json:"ps"` // preemption probability per synchronisation operation
	PStall   float64 `json:"pd"` // probability that a preemption becomes a stall
	MaxStall int64   `json:"ms"` // longest stall, nanoseconds
	Random   bool    `json:"r"`  // pick a random runnable task (else FIFO)
	PCT      int     `json:"pct"`
	PCTSpan  int     `json:"span"`
}

type Config struct {
	SchedSeed uint64
	Strategy  Strategy
	Replay    []Decision // used instead of Strategy when ReplayOn
	ReplayOn  bool
	Record    bool
	LogEvents bool
	MaxSteps  uint64
}

// Violation describes what a run found wrong.
type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	Task string `json:"task,omitempty"`
	Time int64  `json:"sim_time_ns"`
	Info string `json:"info,omitempty"`
}

type Result struct {
	Violation *Violation
	Steps     uint64
	Switches  uint64
	Preempts  uint64
	Stalls    uint64
	SimTime   int64
	Decisions []Decision
	SchedHash uint64
	EventHash uint64
	Events    []string
	Tasks     int
	Accesses  int64  // accesses of shared memory that were checked for races
	Cut       bool   // stopped at the step limit while simulated time went on: nothing can be concluded
	Aborted   string // machinery trouble, not a finding
}

const (
	stRunnable = iota
	stRunning
	stBlocked
	stDone
)

type task struct {
	id      int
	name    string
	wake    chan struct{}
	state   uint8
	harness bool
	why     string
	step    uint64
	prio    uint64
	slices  int
	done    chan struct{}
	waitGen uint64
	goid    uint64
	vc      vclock
	slot    int
}

type event struct {
	at  int64
	seq uint64
	fn  func()
	off bool
	idx int
}

type sim struct {
	cfg       Config
	now       int64
	steps     uint64
	stop      uint64 // next step at which P takes the slow path
	nextPre   uint64
	sliceEnd  uint64
	cur       *task
	runq      []*task
	tasks     []*task
	live      int
	tracked   map[string]int
	print     func(fd int, b []byte)
	heap      []*event
	seq       uint64
	rng       *Rand
	res       Result
	replay    map[Key]Act
	mainCh    chan struct{}
	ended     bool
	dying     bool
	chans     map[uintptr]*hchan
	pctPoints []uint64
	lowPrio   uint64
	half      int64 // time when half of the steps were used up
	lib       *Rand
	race      raceState
}

var s *sim

// Epoch distinguishes runs; package level primitives reset themselves when it changes.
var epoch uint64

// Active reports whether a simulation is running.
func Active() bool { return s != nil && !s.dying }

const (
	sliceLen  = 4000
	baseTime  = int64(1_700_000_000_000_000_000)
	switchNS  = 500
	syncNS    = 20
	neverStep = ^uint64(0)
)

// Run executes main as the first task of a new simulation and returns what happened.
func Run(cfg Config, main func()) Result {
	epoch++
	ResetAll()
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 40_000_000
	}
	x := &sim{cfg: cfg, now: baseTime, mainCh: make(chan struct{}, 1), chans: map[uintptr]*hchan{}}
	if raceOn {
		x.race = raceState{cells: map[unsafe.Pointer]*cell{}, syncs: map[unsafe.Pointer]vclock{}}
	}
	x.rng = NewRand(Mix(cfg.SchedSeed, 77))
	x.res.SchedHash = 1469598103934665603
	x.res.EventHash = 1469598103934665603
	if cfg.ReplayOn {
		x.replay = make(map[Key]Act, len(cfg.Replay))
		for _, d := range cfg.Replay {
			x.replay[d.Key] = d.Act
		}
	}
	x.lowPrio = 1 << 30
	x.lib = NewRand(Mix(cfg.SchedSeed, 99))
	if cfg.Strategy.PCT > 0 {
		span := cfg.Strategy.PCTSpan
		if span <= 0 {
			span = 20000
		}
		for i := 0; i < cfg.Strategy.PCT; i++ {
			x.pctPoints = append(x.pctPoints, uint64(x.rng.Intn(span)))
		}
		sort.Slice(x.pctPoints, func(i, j int) bool { return x.pctPoints[i] < x.pctPoints[j] })
	}
	s = x
	x.nextPre = x.gap()
	x.sliceEnd = sliceLen
	x.setStop()
	t := x.spawn("main", main, true)
	x.inherit(t)
	x.runq = x.runq[:0]
	t.state = stRunning
	x.cur = t
	t.wake <- struct{}{}
	<-x.mainCh
	// Tear down: every remaining task is unwound, one at a time.
	x.dying = true
	x.stop = neverStep
	for i := 0; i < len(x.tasks); i++ {
		t := x.tasks[i]
		if t.state == stDone {
			continue
		}
		x.cur = t
		t.wake <- struct{}{}
		<-t.done
	}
	x.res.Steps = x.steps
	x.res.SimTime = x.now - baseTime
	x.res.Tasks = len(x.tasks)
	if raceOn {
		x.res.Accesses = x.race.n
	}
	s = nil
	return x.res
}

func (x *sim) setStop() {
	x.stop = x.sliceEnd
	if x.nextPre < x.stop {
		x.stop = x.nextPre
	}
	if len(x.pctPoints) > 0 && x.pctPoints[0] < x.stop {
		x.stop = x.pctPoints[0]
	}
	if x.cfg.ReplayOn {
		x.stop = x.steps + 1
	}
}

// gap draws the distance to the next statement level preemption.
func (x *sim) gap() uint64 {
	p := x.cfg.Strategy.PPreempt
	if x.cfg.ReplayOn || p <= 0 {
		return neverStep
	}
	mean := 1 / p
	g := uint64(x.rng.Float()*2*mean) + 1
	return x.steps + g
}

func (x *sim) spawn(name string, fn func(), harness bool) *task {
	t := &task{id: len(x.tasks), name: name, wake: make(chan struct{}, 1), harness: harness, done: make(chan struct{})}
	t.prio = x.rng.Uint64()>>24 + (1 << 39)
	x.tasks = append(x.tasks, t)
	x.live++
	go func() {
		<-t.wake
		defer close(t.done)
		defer func() {
			if x.dying || x.ended {
				t.state = stDone
				return
			}
		}()
		if x.dying {
			t.state = stDone
			return
		}
		func() {
			defer func() {
				if x.dying || x.ended {
					return
				}
				if r := recover(); r != nil {
					x.crash(fmt.Sprint(r), string(debug.Stack()))
				}
			}()
			fn()
		}()
		if x.dying {
			t.state = stDone
			return
		}
		if x.ended {
			t.state = stDone
			return
		}
		t.state = stDone
		x.unslot(t)
		x.live--
		if t.id == 0 {
			x.finish()
			return
		}
		n := x.next(t)
		if n != nil {
			x.handTo(n)
		}
	}()
	t.state = stRunnable
	x.runq = append(x.runq, t)
	return t
}

// finish ends the run. The caller must return or park right away.
func (x *sim) finish() {
	if !x.ended {
		x.ended = true
		x.mainCh <- struct{}{}
	}
}

func (x *sim) violate(kind, msg, info string) {
	if x.res.Violation == nil {
		name := ""
		if x.cur != nil {
			name = x.cur.name
		}
		x.res.Violation = &Violation{Kind: kind, Msg: msg, Task: name, Time: x.now - baseTime, Info: info}
	}
}

func (x *sim) crash(msg, stack string) {
	x.violate("crash", "panic: "+msg, trimStack(stack))
	x.finish()
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "simrt") || strings.HasPrefix(l, "goroutine ") || strings.Contains(l, "runtime/") || strings.HasPrefix(l, "panic(") {
			continue
		}
		l = strings.TrimSpace(l)
		if i := strings.Index(l, " +0x"); i > 0 {
			l = l[:i]
		}
		if i := strings.Index(l, "(0x"); i > 0 {
			l = l[:i]
		}
		if i := strings.Index(l, "({0x"); i > 0 {
			l = l[:i]
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (x *sim) handTo(n *task) {
	n.state = stRunning
	x.cur = n
	n.wake <- struct{}{}
}

// park waits until this task is handed the processor, or unwinds it when the run is over.
func (x *sim) park(t *task) {
	<-t.wake
	if x.dying {
		runtime.Goexit()
	}
}

// next removes and returns the task to run next; nil when the run is over. from is the task giving up the
// processor.
func (x *sim) next(from *task) *task {
	for {
		if x.ended {
			return nil
		}
		x.fire()
		n := len(x.runq)
		if n > 0 {
			i := 0
			if n > 1 {
				i = x.decidePick(from, n)
			}
			t := x.runq[i]
			x.runq = append(x.runq[:i], x.runq[i+1:]...)
			if t != from {
				x.res.Switches++
				x.now += switchNS
				x.hashSwitch(t)
				x.sliceEnd = x.steps + sliceLen
			}
			x.setStop()
			return t
		}
		if len(x.heap) == 0 {
			x.violate("deadlock", "all tasks are blocked and no event is pending", x.dump())
			x.finish()
			return nil
		}
		if x.heap[0].at > x.now {
			x.now = x.heap[0].at
		}
	}
}

func (x *sim) hashSwitch(t *task) {
	h := x.res.SchedHash
	h = (h ^ uint64(t.id)) * 1099511628211
	h = (h ^ uint64(len(t.why))) * 1099511628211
	h = (h ^ t.step) * 1099511628211
	x.res.SchedHash = h
}

func (x *sim) decidePick(from *task, n int) int {
	from.step++
	k := Key{from.id, from.step}
	if x.cfg.ReplayOn {
		if a, ok := x.replay[k]; ok {
			return a.Pick % n
		}
		return 0
	}
	i := 0
	if x.cfg.Strategy.PCT > 0 {
		for j := 1; j < n; j++ {
			if x.runq[j].prio > x.runq[i].prio {
				i = j
			}
		}
	} else if x.cfg.Strategy.Random {
		i = x.rng.Intn(n)
	}
	if i != 0 && x.cfg.Record {
		x.res.Decisions = append(x.res.Decisions, Decision{k, Act{Pick: i}})
	}
	return i
}

func (x *sim) push(at int64, fn func()) *event {
	x.seq++
	e := &event{at: at, seq: x.seq, fn: fn}
	x.heap = append(x.heap, e)
	i := len(x.heap) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !evLess(x.heap[i], x.heap[p]) {
			break
		}
		x.heap[i], x.heap[p] = x.heap[p], x.heap[i]
		i = p
	}
	return e
}

func evLess(a, b *event) bool { return a.at < b.at || (a.at == b.at && a.seq < b.seq) }

func (x *sim) pop() *event {
	e := x.heap[0]
	n := len(x.heap) - 1
	x.heap[0] = x.heap[n]
	x.heap[n] = nil
	x.heap = x.heap[:n]
	i := 0
	for {
		l, r, m := 2*i+1, 2*i+2, i
		if l < n && evLess(x.heap[l], x.heap[m]) {
			m = l
		}
		if r < n && evLess(x.heap[r], x.heap[m]) {
			m = r
		}
		if m == i {
			break
		}
		x.heap[i], x.heap[m] = x.heap[m], x.heap[i]
		i = m
	}
	return e
}

// fire runs the events that are due. Event functions never block.
func (x *sim) fire() {
	for len(x.heap) > 0 && (x.heap[0].off || x.heap[0].at <= x.now) {
		e := x.pop()
		if !e.off {
			e.fn()
		}
	}
}

func (x *sim) ready(t *task) {
	if t.state == stBlocked {
		t.state = stRunnable
		t.why = ""
		x.runq = append(x.runq, t)
	}
}

// block parks the running task until ready is called for it.
func (x *sim) block(why string) {
	t := x.cur
	if x.ended {
		x.park(t)
	}
	t.state = stBlocked
	t.why = why
	t.slices = 0
	n := x.next(t)
	if n == t {
		t.state = stRunning
		return
	}
	if n != nil {
		x.handTo(n)
	}
	x.park(t)
}

// yield puts the running task back on the run queue and runs the next one.
func (x *sim) yield() {
	t := x.cur
	t.state = stRunnable
	x.runq = append(x.runq, t)
	n := x.next(t)
	if n == t {
		t.state = stRunning
		return
	}
	if n != nil {
		x.handTo(n)
	}
	x.park(t)
}

// stall suspends the running task for d nanoseconds although it could run.
func (x *sim) stall(d int64) {
	t := x.cur
	x.res.Stalls++
	x.push(x.now+d, func() { x.ready(t) })
	x.block("stalled by the scheduler")
}

// P is the preemption point placed in front of every statement of the code under test.
func P() {
	x := s
	if x == nil {
		return
	}
	x.steps++
	x.cur.step++
	if x.steps >= x.stop {
		x.slow(false)
	}
}

// SP is a scheduling point at a synchronisation operation.
func SP() {
	x := s
	if x == nil {
		return
	}
	x.steps++
	x.cur.step++
	x.now += syncNS
	if x.dying {
		return
	}
	x.slow(true)
}

func (x *sim) slow(sync bool) {
	if x.dying {
		return
	}
	if x.ended {
		x.park(x.cur)
	}
	t := x.cur
	if x.half == 0 && x.steps > x.cfg.MaxSteps/2 {
		x.half = x.now
	}
	if x.steps > x.cfg.MaxSteps {
		if x.now-x.half < 15_000_000_000 {
			x.violate("runaway", fmt.Sprintf("no end after %d steps", x.steps), x.dump())
		} else {
			x.res.Cut = true
		}
		x.finish()
		x.park(t)
	}
	if x.steps >= x.sliceEnd {
		x.quantum(t)
		return
	}
	if x.cfg.ReplayOn {
		x.stop = x.steps + 1
		if a, ok := x.replay[Key{t.id, t.step}]; ok && a.Pre {
			if a.Stall > 0 {
				x.res.Preempts++
				x.stall(a.Stall)
			} else if x.othersReady() {
				x.res.Preempts++
				x.yield()
			}
		}
		return
	}
	if sync {
		if p := x.cfg.Strategy.PSync; p > 0 && x.rng.Float() < p {
			x.preempt(t)
			return
		}
		if x.cfg.Strategy.PCT > 0 {
			for _, o := range x.runq {
				if o.prio > t.prio {
					x.preempt(t)
					return
				}
			}
		}
	} else if x.steps >= x.nextPre {
		x.nextPre = x.gap()
		x.preempt(t)
		return
	}
	if len(x.pctPoints) > 0 && x.steps >= x.pctPoints[0] {
		x.pctPoints = x.pctPoints[1:]
		x.lowPrio--
		t.prio = x.lowPrio
		x.preempt(t)
		return
	}
	x.setStop()
}

func (x *sim) othersReady() bool {
	return len(x.runq) > 0 || (len(x.heap) > 0 && x.heap[0].at <= x.now)
}

// quantum rotates a task that never blocks, letting simulated time pass ever faster.
func (x *sim) quantum(t *task) {
	t.slices++
	if t.slices > 1500 {
		x.violate("runaway", "task "+t.name+" keeps running without blocking or making progress", x.dump())
		x.finish()
		x.park(t)
	}
	d := int64(1_000_000)
	if t.slices > 8 {
		d = 100_000_000
	}
	x.now += d
	x.sliceEnd = x.steps + sliceLen
	x.setStop()
	if x.cfg.Strategy.PCT > 0 {
		x.lowPrio--
		t.prio = x.lowPrio
	}
	if x.othersReady() {
		x.yield()
	}
}

func (x *sim) preempt(t *task) {
	st := &x.cfg.Strategy
	var d int64
	if st.PStall > 0 && x.rng.Float() < st.PStall {
		d = x.rng.LogRange(1000, st.MaxStall)
	}
	if d == 0 && !x.othersReady() {
		x.setStop()
		return
	}
	x.res.Preempts++
	if x.cfg.Record {
		x.res.Decisions = append(x.res.Decisions, Decision{Key{t.id, t.step}, Act{Pre: true, Stall: d}})
	}
	if d > 0 {
		x.stall(d)
	} else {
		x.yield()
	}
}

// Progress tells the scheduler that the running task did useful input or output.
func Progress() {
	if s != nil && s.cur != nil {
		s.cur.slices = 0
	}
}

// Calm switches scheduling noise off for the rest of the run.
func Calm() {
	if x := s; x != nil {
		x.cfg.Strategy.PStall = 0
		if x.cfg.Strategy.PPreempt > 0.001 {
			x.cfg.Strategy.PPreempt = 0.001
		}
	}
}

func (x *sim) dump() string {
	var b strings.Builder
	stacks := allStacks()
	for _, t := range x.tasks {
		if t.state == stDone {
			continue
		}
		st := [...]string{"runnable", "running", "blocked", "done"}[t.state]
		fmt.Fprintf(&b, "task %d %s: %s %s\n", t.id, t.name, st, t.why)
	}
	if len(stacks) > 0 {
		b.WriteString(stacks)
	}
	return b.String()
}

// allStacks lists the frames of the code under test of every goroutine.
func allStacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var b strings.Builder
	for _, g := range strings.Split(string(buf), "\n\n") {
		var fr []string
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "simverif/goapi/") || strings.HasPrefix(l, "simverif/harness.") {
				f := strings.TrimPrefix(strings.TrimPrefix(l, "simverif/goapi/"), "simverif/")
				if i := strings.LastIndex(f, "("); i > 0 {
					f = f[:i]
				}
				if f != "" {
					fr = append(fr, f)
				}
			}
		}
		if len(fr) > 0 {
			b.WriteString("  stack: " + strings.Join(fr, " <- ") + "\n")
		}
	}
	return b.String()
}

// Go starts a goroutine of the code under test.
func Go(fn func()) { spawnTask("go", fn, false) }

// GoHarness starts a task of the harness.
func GoHarness(name string, fn func()) { spawnTask(name, fn, true) }

func spawnTask(name string, fn func(), harness bool) {
	x := s
	if x == nil {
		go fn()
		return
	}
	if x.dying || x.ended {
		return
	}
	if !harness {
		if pc, _, line, ok := runtime.Caller(2); ok {
			f := runtime.FuncForPC(pc).Name()
			if i := strings.LastIndex(f, "/"); i >= 0 {
				f = f[i+1:]
			}
			name = fmt.Sprintf("go@%s", f)
			_ = line
		}
	}
	x.inherit(x.spawn(name, fn, harness))
	SP()
}

// TaskID identifies the running task.
func TaskID() int {
	if s == nil || s.cur == nil {
		return -1
	}
	return s.cur.id
}

// LiveTasks lists goroutines of the code under test that have not ended.
func LiveTasks() []string {
	var out []string
	for _, t := range s.tasks {
		if t.state != stDone && !t.harness {
			out = append(out, fmt.Sprintf("%s (%s)", t.name, t.why))
		}
	}
	return out
}

// Track changes the number of things of a kind that the code under test holds.
func Track(kind string, n int) {
	if s == nil {
		return
	}
	if s.tracked == nil {
		s.tracked = map[string]int{}
	}
	s.tracked[kind] += n
}

// Tracked returns the number of things of a kind that the code under test holds.
func Tracked(kind string) int { return s.tracked[kind] }

// Fail reports a violation and ends the run.
func Fail(kind, format string, a ...any) {
	x := s
	if x == nil || x.dying {
		return
	}
	if x.ended {
		x.park(x.cur)
	}
	x.violate(kind, fmt.Sprintf(format, a...), "")
	x.finish()
	x.park(x.cur)
}

// FailDump is Fail with a listing of all tasks.
func FailDump(kind, format string, a ...any) {
	x := s
	if x == nil || x.dying {
		return
	}
	if x.ended {
		x.park(x.cur)
	}
	x.violate(kind, fmt.Sprintf(format, a...), x.dump())
	x.finish()
	x.park(x.cur)
}

// Abort ends the run because of trouble in the machinery.
func Abort(format string, a ...any) {
	x := s
	if x == nil || x.dying {
		return
	}
	if !x.ended {
		x.res.Aborted = fmt.Sprintf(format, a...)
	}
	x.finish()
	x.park(x.cur)
}

// Log appends to the run's event log (hashed; kept only when asked for).
func Log(format string, a ...any) {
	x := s
	if x == nil || x.dying {
		return
	}
	m := fmt.Sprintf(format, a...)
	h := x.res.EventHash
	for i := 0; i < len(m); i++ {
		h = (h ^ uint64(m[i])) * 1099511628211
	}
	h = (h ^ uint64(x.now)) * 1099511628211
	x.res.EventHash = h
	if x.cfg.LogEvents {
		x.res.Events = append(x.res.Events, fmt.Sprintf("%12.6fs task %d %s: %s", float64(x.now-baseTime)/1e9, x.cur.id, x.cur.name, m))
	}
}

// Now is the simulated time in nanoseconds since the start of the run.
func Now() int64 {
	if s == nil {
		return 0
	}
	return s.now - baseTime
}

// WallNow is the simulated wall clock.
func WallNow() time.Time {
	if s == nil {
		return time.Unix(0, baseTime)
	}
	return time.Unix(0, s.now)
}

// Sleep blocks the running task for d of simulated time.
func Sleep(d time.Duration) {
	x := s
	if x == nil || x.dying {
		return
	}
	SP()
	if d <= 0 {
		x.yieldIfOthers()
		return
	}
	t := x.cur
	x.push(x.now+int64(d), func() { x.ready(t) })
	x.block("sleep")
}

func (x *sim) yieldIfOthers() {
	if !x.ended && len(x.runq) > 0 {
		x.yield()
	}
}

// Gosched yields.
func Gosched() {
	if s == nil || s.dying {
		return
	}
	SP()
	s.yieldIfOthers()
}

// At runs fn (which must not block) at simulated time t.
func At(t int64, fn func()) (cancel func()) {
	x := s
	if x == nil || x.dying {
		return func() {}
	}
	e := x.push(t+baseTime, fn)
	return func() { e.off = true }
}

// WaitQ is a queue of waiting tasks for harness and network code.
type WaitQ struct{ q []*task }

// Wait blocks the running task until woken.
func (w *WaitQ) Wait(why string) {
	x := s
	if x == nil || x.dying {
		runtime.Goexit()
	}
	w.q = append(w.q, x.cur)
	x.block(why)
}

// WaitUntil blocks until woken or the deadline (simulated ns); it reports whether it was woken.
func (w *WaitQ) WaitUntil(why string, deadline int64) bool {
	x := s
	if x == nil || x.dying {
		runtime.Goexit()
	}
	if deadline+baseTime <= x.now {
		return false
	}
	t := x.cur
	w.q = append(w.q, t)
	t.waitGen++
	gen := t.waitGen
	timedOut := false
	e := x.push(deadline+baseTime, func() {
		if t.waitGen == gen && t.state == stBlocked {
			timedOut = true
			w.remove(t)
			x.ready(t)
		}
	})
	x.block(why)
	t.waitGen++
	e.off = true
	return !timedOut
}

func (w *WaitQ) remove(t *task) {
	for i, o := range w.q {
		if o == t {
			w.q = append(w.q[:i], w.q[i+1:]...)
			return
		}
	}
}

// Wake makes every waiting task runnable.
func (w *WaitQ) Wake() {
	if s == nil || s.dying {
		w.q = nil
		return
	}
	q := w.q
	w.q = nil
	for _, t := range q {
		s.ready(t)
	}
}

// WakeOne makes the first waiting task runnable.
func (w *WaitQ) WakeOne() {
	if len(w.q) == 0 {
		return
	}
	t := w.q[0]
	w.q = w.q[1:]
	if s != nil && !s.dying {
		s.ready(t)
	}
}

func (w *WaitQ) Empty() bool { return len(w.q) == 0 }

// Fatal models an unrecoverable runtime error (unlike a panic it cannot be recovered).
func Fatal(msg string) {
	x := s
	if x == nil || x.dying {
		return
	}
	if x.ended {
		x.park(x.cur)
	}
	x.violate("crash", "fatal error: "+msg, trimStack(string(debug.Stack())))
	x.finish()
	x.park(x.cur)
}

const maxAlloc = 256 << 20

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// MakeLen guards the size of an allocation whose length is not constant.
func MakeLen[I integer](n I, size int64) I {
	if s != nil && !s.dying && n > 0 && size > 0 && uint64(n) > uint64(maxAlloc/size) {
		Fatal(fmt.Sprintf("out of memory: allocation of %d elements of %d bytes", uint64(n), size))
	}
	return n
}

// GoEvent starts a task of the code under test from an event function.
func GoEvent(name string, fn func()) {
	if x := s; x != nil && !x.dying && !x.ended {
		x.spawn(name, fn, false)
	}
}

// CloseEvent closes a channel from an event function or a context.
func CloseEvent(ch chan struct{}) {
	if off() {
		return
	}
	h := state((<-chan struct{})(ch))
	if !h.closed {
		h.release()
		h.close()
	}
}

var resets []func()

// OnReset registers a function that gives a package's variables their initial values.
func OnReset(f func()) { resets = append(resets, f) }

// ResetAll re-initialises the packages under test before a run.
func ResetAll() {
	for _, f := range resets {
		f()
	}
}

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
