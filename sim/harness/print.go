package harness

import (
	"strings"
	"time"

	"simverif/simrt"
)

// console is the terminal of the application: it shows what is written to standard output and standard error.
type console struct {
	task  int    // who is in the middle of a message
	text  []byte // what there is of it
	busy  bool   // and is being written
	lines []printed
	mark  int    // lines before the session
	id    string // the connection established in it
}

type printed struct {
	kind, text string
	task       int
}

// prints tells if handlers of a kind are left out, so that the library prints what they would be given.
func (h *H) prints(kind string) bool {
	switch kind {
	case "status", "error":
		return h.sc.App.Print > 0
	case "est", "term":
		return h.sc.App.Print > 1
	}
	return false
}

// print receives what is written to the console, which takes its time to show it.
func (h *H) print(fd int, b []byte) {
	c := &h.console
	t := simrt.TaskID()
	if (c.busy || len(c.text) > 0) && c.task != t {
		h.fail("C29", "a message (%.60q) is written to the console in the middle of another one (%.60q)", b, c.text)
	}
	c.task, c.busy = t, true
	for len(b) > 0 {
		n := len(b)
		if h.r.P(0.5) {
			n = 1 + h.r.Intn(n)
		}
		c.text = append(c.text, b[:n]...)
		b = b[n:]
		simrt.Sleep(time.Duration(h.r.LogRange(1, h.sc.App.PrintSlow+2)))
	}
	c.busy = false
	if n := len(c.text); n > 0 && c.text[n-1] == '\n' {
		s := string(c.text[:n-1])
		c.text = nil
		kind := "status"
		if fd == 2 {
			kind = "error"
		}
		c.lines = append(c.lines, printed{kind, s, t})
		h.probe("message printed")
		h.app.onMessage(kind, 0, s)
	}
}

// says counts the messages of a kind with a text, of one task or of all.
func (h *H) says(kind, text string, from, task int) (n int) {
	for _, l := range h.console.lines[from:] {
		if l.kind == kind && strings.Contains(l.text, text) && (task < 0 || l.task == task) {
			n++
		}
	}
	return
}

// report lets the library print what it prints about connections when the application has no handlers for that.
func (a *App) report(kind string, f func()) {
	h := a.h
	if h.sc.App.Print != 1 {
		return
	}
	n, id := len(h.console.lines), a.sb.ConnectionID()
	f()
	h.evals++
	if x := h.says(kind, id, n, simrt.TaskID()); x != 1 && a.sb.ConnectionID() == id {
		h.fail("C29", "connection %q was reported to be printed, but there are %d messages about it", id, x)
	}
}

// said requires that what became of the connection was printed, with no handler of the application for that.
func (h *H) said(op Op) {
	c := &h.console
	kind := "error"
	if op.S == "est" {
		kind, c.id = "status", ""
		pc := h.live()
		if pc == nil || !pc.gotModes {
			return
		}
		id := h.app.sb.ConnectionID()
		if h.live() != pc {
			return
		}
		c.id = id
	}
	if c.id == "" || h.sc.App.Print != 2 {
		return
	}
	h.evals++
	if !h.until(60*sec+h.slack()+100*h.sc.App.PrintSlow, func() bool { return h.says(kind, c.id, c.mark, -1) > 0 }) {
		h.fail("C29", "the connection %q was not reported on the console (%s)", c.id, op.S)
	}
	c.mark = len(c.lines)
}
