package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"simverif/simrt"
)

// census is what the code under test holds in one state of the session.
type census struct {
	tasks, tickers int
	names          []string
}

// takeCensus counts what the code under test holds while nothing is on its way and compares it with the first
// counts in the same state of the session: whatever happened in between must have left nothing behind.
func (h *H) takeCensus() {
	var pc *PConn
	if h.wantConn {
		if pc = h.live(); pc != nil && (!pc.gotModes || !pc.flush()) {
			return
		}
	}
	simrt.Sleep(time.Duration(500*ms + 2*h.sc.App.EventSlow + 2*h.sc.Strat.MaxStall))
	inState := func() bool {
		if h.live() != pc && h.wantConn || h.inStop > 0 || h.inEnter > 0 || pc == nil && h.app.sb.IsConnected() {
			return false
		}
		if pc != nil {
			_, w := pc.pendingWork()
			return w == ""
		}
		return true
	}
	if !inState() {
		return
	}
	// What is only passing is not there at every moment, so the smallest count of several moments is taken.
	var c census
	var tcp, udp, lis int
	var open []string
	for i := 0; i < 8; i++ {
		t := simrt.LiveTasks()
		k := simrt.Tracked("ticker")
		o := h.w.OpenLib()
		a, b, l := sockets(o)
		if i == 0 || len(t) < c.tasks {
			c.tasks, c.names = len(t), t
		}
		if i == 0 || k < c.tickers {
			c.tickers = k
		}
		if i == 0 || len(o) < len(open) {
			open = o
		}
		if i == 0 {
			tcp, udp, lis = a, b, l
		}
		tcp, udp, lis = min(tcp, a), min(udp, b), min(lis, l)
		simrt.Sleep(time.Duration(100*ms + int64(i)*130*ms + h.sc.Strat.MaxStall/2))
	}
	if !inState() {
		return
	}
	key := "ended"
	switch {
	case pc != nil:
		key = fmt.Sprintf("connected, udp %d", udp)
	case h.wantConn:
		key = "waiting for the publisher"
	}
	h.evals++
	h.probe("held resources counted: " + strings.Split(key, ",")[0])
	up, want := 0, 0
	if pc != nil {
		up = 1
	}
	if h.sc.Listen && h.wantConn {
		want = 1
	}
	if tcp > up || udp > up || lis > want {
		h.failDump("C28", "%s: held open: %v", key, open)
	}
	h.census[key] = append(h.census[key], c)
	l := h.census[key]
	if len(l) < 4 {
		return
	}
	h.probe("held resources compared")
	t, k := max(l[0].tasks, l[1].tasks), max(l[0].tickers, l[1].tickers)
	if c.tasks > t+1 {
		h.failDump("C28", "%s: %d goroutines instead of %d after %d rounds: %s", key, c.tasks, t, len(l), more(l[0].names, c.names))
	}
	if c.tickers > k+1 {
		h.failDump("C28", "%s: %d running tickers instead of %d after %d rounds", key, c.tickers, k, len(l))
	}
}

func sockets(open []string) (tcp, udp, lis int) {
	for _, s := range open {
		switch {
		case strings.HasPrefix(s, "tcp"):
			tcp++
		case strings.HasPrefix(s, "udp"):
			udp++
		default:
			lis++
		}
	}
	return
}

// more tells which names occur more often in b than in a.
func more(a, b []string) string {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	for _, x := range a {
		n[x]--
	}
	var out []string
	for x, k := range n {
		if k > 0 {
			out = append(out, fmt.Sprintf("%d more %s", k, x))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}
