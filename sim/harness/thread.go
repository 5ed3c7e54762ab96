package harness

import (
	"time"

	"simverif/goapi/sttp/thread"
	"simverif/simrt"
)

// ThreadS is a scenario for worker threads: several callers start and join one worker.
type ThreadS struct {
	Work    int64 // longest run of the worker function
	Yield   bool
	Callers [][]Op
	Self    bool // the function queries and tries to restart its own thread
}

type tstart struct {
	call, ret int
	ok        bool
}

func (h *H) threadMain() {
	t := h.sc.Thread
	runs, active, done := 0, 0, 0
	var starts []*tstart
	okStarts := func() (n int) {
		for _, s := range starts {
			if s.ok {
				n++
			}
		}
		return
	}
	pending := func() (n int) {
		for _, s := range starts {
			if s.ret == 0 {
				n++
			}
		}
		return
	}
	var th *thread.Thread
	th = thread.NewThread(func() {
		runs++
		active++
		h.evals++
		if active > 1 {
			h.fail("C18", "the worker function runs twice at the same time")
		}
		if n := okStarts() + pending(); runs > n {
			h.fail("C18", "run %d of the worker function but only %d starts", runs, n)
		}
		if t.Self {
			if !th.IsRunning() {
				h.fail("C18", "the worker is reported as not running inside its own function")
			}
			if th.TryStart() {
				h.fail("C18", "the worker could be started while running (from inside)")
			}
		}
		if t.Work > 0 {
			simrt.Sleep(time.Duration(h.r.Uint64() % uint64(t.Work+1)))
		} else if t.Yield {
			simrt.Gosched()
		}
		active--
		done++
	})
	start := func(try bool) {
		s := &tstart{call: h.seq()}
		begun := simrt.Now()
		before := len(starts)
		starts = append(starts, s)
		runsBefore := runs
		if try {
			s.ok = th.TryStart()
		} else {
			func() {
				defer func() {
					if e := recover(); e != nil {
						s.ok = false
					} else {
						s.ok = true
					}
				}()
				th.Start()
			}()
		}
		s.ret = h.seq()
		h.evals++
		simrt.Log("start %v", s.ok)
		if s.ok {
			h.probe("worker started")
		} else {
			h.probe("start refused")
		}
		// A refused or accepted start never waits for a run to finish.
		if d := simrt.Now() - begun; d > t.Work/2+h.slack() && t.Work > 10*h.slack() {
			h.fail("C18", "starting a running worker waited %s instead of failing", time.Duration(d))
		}
		if !s.ok && before == 0 && runsBefore == 0 && len(starts) == 1 {
			h.fail("C18", "an idle worker refused to start")
		}
		if s.ok {
			// Started while a run that began before the call is still going on?
			if active > 1 {
				h.fail("C18", "two runs at the same time")
			}
		}
	}
	join := func() {
		at := h.seq()
		n := 0
		for _, s := range starts {
			if s.ok && s.ret > 0 && s.ret < at {
				n++
			}
		}
		th.Join()
		simrt.Log("joined")
		h.evals++
		if n > 0 {
			h.probe("join after a start")
		}
		if done < n {
			h.fail("C18", "join returned after %d finished runs although %d starts had succeeded before it", done, n)
		}
	}
	left := len(t.Callers)
	for _, ops := range t.Callers {
		ops := ops
		simrt.GoHarness("caller", func() {
			for _, op := range ops {
				switch op.K {
				case "start":
					start(false)
				case "try":
					start(true)
				case "join":
					join()
				case "sleep":
					simrt.Sleep(time.Duration(op.D))
				case "run":
					th.IsRunning()
				}
			}
			left--
			h.note()
		})
	}
	bound := int64(len(t.Callers)+2)*(t.Work*40+60*sec) + 100*h.slack()
	if !h.until(bound, func() bool { return left == 0 }) {
		h.failDump("C18", "starting or joining does not return")
	}
	simrt.Calm()
	join()
	simrt.Sleep(time.Duration(t.Work + 5*sec))
	if active > 0 {
		h.fail("C18", "a run is still active after join returned and nobody started another")
	}
	if runs != okStarts() {
		h.fail("C18", "%d successful starts but %d runs", okStarts(), runs)
	}
	if th.IsRunning() {
		h.fail("C18", "an idle worker reports itself as running")
	}
	n := okStarts()
	start(true)
	if okStarts() != n+1 {
		h.fail("C18", "an idle worker cannot be started again")
	}
	th.Join()
	if done != okStarts() {
		h.fail("C18", "joining did not wait for the last start")
	}
	simrt.Sleep(time.Duration(t.Work + 5*sec))
	if l := simrt.LiveTasks(); len(l) > 0 {
		h.failDump("C18", "goroutines left over: %v", l)
	}
}
