package harness

import (
	"fmt"
	"net"
	"strings"
	"time"

	"simverif/simrt"
)

// checkState compares what the subscriber reports about itself with the session, once nothing is on its way.
func (h *H) checkState() {
	h.glance()
	sb := h.app.sb
	pc := h.live()
	if pc == nil || !pc.gotModes || !pc.flush() {
		return
	}
	simrt.Sleep(time.Duration(2*sec + h.slack() + 2*h.sc.App.EventSlow))
	if h.live() != pc || h.inStop > 0 {
		return
	}
	if _, w := pc.pendingWork(); w != "" {
		return
	}
	n, sent := len(pc.rx), pc.sent
	conn, val, sub, lis, id := sb.IsConnected(), sb.IsValidated(), sb.IsSubscribed(), sb.IsListening(), sb.ConnectionID()
	if _, w := pc.pendingWork(); w != "" || h.live() != pc || len(pc.rx) != n || pc.sent != sent || h.inStop > 0 {
		return
	}
	h.evals++
	h.probe("state compared while connected")
	switch {
	case !conn:
		h.fail("C26", "connection %d is up but not reported as connected", pc.id)
	case val != pc.anyValid():
		h.fail("C26", "connection %d: validated is reported as %v, but a response of the publisher arrived: %v", pc.id, val, pc.anyValid())
	case lis != (h.listeners() > 0):
		h.fail("C26", "listening is reported as %v with %d open listening ports", lis, h.listeners())
	case sub != pc.confirmed && !pc.unclear:
		h.fail("C26", "connection %d: subscribed is reported as %v, but the publisher's last answer said %v", pc.id, sub, pc.confirmed)
	}
	if pc.confirmed {
		h.probe("state compared while subscribed")
	} else if pc.everOK {
		h.probe("state compared after the end of a subscription")
	}
	if h.sc.Listen {
		ip, _, _ := net.SplitHostPort(pc.lib.RemoteAddr().String())
		if !strings.Contains(id, ip) {
			h.fail("C26", "connection %d came from %s, but is reported as %q", pc.id, ip, id)
		}
	} else if host := h.hosts[len(h.hosts)-1]; !strings.Contains(id, host) || !strings.Contains(id, fmt.Sprint(h.port())) {
		h.fail("C26", "connection %d to port %d of %s is reported as %q", pc.id, h.port(), host, id)
	}
}

// checkAddr requires every attempt to go to the address dialled last; while a request to dial is being made,
// the attempt may still be one for the address before.
func (h *H) checkAddr(addr string) {
	n := len(h.hosts)
	if n == 0 {
		return
	}
	h.evals++
	host, port, err := net.SplitHostPort(addr)
	if err == nil && port == fmt.Sprint(h.port()) && (host == h.hosts[n-1] || n > 1 && h.dialsOut > 0 && host == h.hosts[n-2]) {
		if host != "publisher" {
			h.probe("connection attempt to another host")
		}
		return
	}
	if h.prop == "C23" {
		return
	}
	h.fail("C27", "connection attempt to %q, asked for were port %d of %q", addr, h.port(), h.hosts[n-1])
}

// glance asks for the state at any moment; what is reported must have been the case at some point of the question.
func (h *H) glance() {
	a := h.app
	sb := a.sb
	h.evals++
	est, term, conns := a.estN, a.termN, len(h.conns)
	var ok, valid bool
	open := 0
	over := map[*PConn]bool{}
	for _, pc := range h.conns {
		over[pc] = true
		if !pc.lib.Closed() || a.est || est > term {
			open++
			over[pc] = false
			ok = ok || pc.everOK
			valid = valid || pc.anyValid() || pc.hostile
		}
	}
	idle := h.inStop == 0 && !h.wantConn
	conn, val, sub, lis := sb.IsConnected(), sb.IsValidated(), sb.IsSubscribed(), sb.IsListening()
	for _, pc := range h.conns {
		// answered, and perhaps even closed again, while the question was being asked
		if !over[pc] {
			ok = ok || pc.everOK
			valid = valid || pc.anyValid() || pc.hostile
		}
	}
	if sub && !ok {
		h.fail("C26", "subscribed is reported, but no open connection has a subscription the publisher confirmed")
	}
	if val && !valid {
		h.fail("C26", "validated is reported, but no open connection has had a response of the publisher")
	}
	if a.estN != est || a.termN != term || len(h.conns) != conns || a.optionalNow("est") || a.optionalNow("term") {
		return
	}
	if open == 0 && h.connCount() == 0 {
		h.probe("state queried without a connection")
		if conn {
			h.fail("C26", "connected is reported, but no connection is open")
		}
		if idle && h.inStop == 0 && !h.wantConn && lis {
			h.fail("C26", "listening is reported after the subscriber was disconnected")
		}
	}
}
