package harness

import (
	"fmt"
	"net"
	"strconv"
	"strings"
	"time"

	"simverif/simnet"
	"simverif/simrt"
)

// multiMain runs several subscribers with a publisher each; every one is judged as if it were alone.
func (h *H) multiMain() {
	parts := map[int]*H{}
	left := len(h.sc.Multi)
	for i, sc := range h.sc.Multi {
		p := newH(sc, sc.Profile)
		if h.prop == "C25" {
			p.prop = h.prop
		}
		p.w, p.part, p.probes, p.other = h.w, i+1, h.probes, h.other
		parts[p.port()], parts[p.listenPort()] = p, p
	}
	h.w.OnDial = func(n int, addr string) simnet.Plan {
		p, _ := strconv.Atoi(addr[strings.LastIndexByte(addr, ':')+1:])
		if parts[p] == nil {
			h.fail("C24", "connection attempt to %s, which no application asked for", addr)
			return simnet.Plan{Err: simnet.ErrRefused}
		}
		return parts[p].onDial(n, addr)
	}
	h.w.OnPair = func(lib, peer *simnet.TCPConn) {
		p := lib.RemoteAddr().(*net.TCPAddr).Port
		if !lib.Dialed {
			p = lib.LocalAddr().(*net.TCPAddr).Port
		}
		parts[p].onPair(lib, peer)
	}
	for i, sc := range h.sc.Multi {
		if sc.Profile == "idle" {
			left--
			continue
		}
		p := parts[(&H{sc: sc, part: i + 1}).port()]
		simrt.GoHarness(fmt.Sprintf("application %d", i+1), func() {
			simrt.Sleep(time.Duration(p.r.Uint64() % uint64(2*sec)))
			p.sessionMain()
			h.evals += p.evals
			left--
			h.note()
		})
	}
	// Every part has bounds of its own.
	h.until(1<<61, func() bool { return left == 0 })
	h.checkLeft()
}
