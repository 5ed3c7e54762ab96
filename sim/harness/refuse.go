package harness

import (
	"fmt"
	"time"

	"simverif/goapi/sttp"
	"simverif/goapi/sttp/transport"
	"simverif/simnet"
	"simverif/simrt"
)

var badAddresses = []string{"", "publisher", "publisher:", "publisher:0", "publisher:-1", "publisher:65536", "publisher:http!", "a:b:7165", ":99999999999999999999"}

// otherConfig differs from the configuration in use in everything a session depends on.
func (h *H) otherConfig() *sttp.Config {
	c := h.config()
	c.MaxRetries, c.RetryInterval, c.MaxRetryInterval = 0, c.RetryInterval*50, c.MaxRetryInterval*50
	c.AutoReconnect, c.AutoRequestMetadata, c.AutoSubscribe = false, !c.AutoRequestMetadata, false
	c.CompressPayloadData, c.CompressMetadata, c.CompressSignalIndexCache = !c.CompressPayloadData, !c.CompressMetadata, !c.CompressSignalIndexCache
	c.MetadataFilters += "FILTER Refused WHERE True"
	c.Version, c.RfcGuidEncoding = 3-c.Version, !c.RfcGuidEncoding
	return c
}

// refused makes a request that cannot be carried out: it has to fail and to change nothing.
func (h *H) refused(op Op) {
	sb := h.app.sb
	pc := h.live()
	conn, lis := sb.IsConnected(), sb.IsListening()
	if conn != (pc != nil) && !lis || h.inStop > 0 || !conn && !lis && h.wantConn {
		return
	}
	dials, open := len(h.dialRecs), h.listeners()
	var err error
	what := ""
	call := func(name, address string, f func(string, *sttp.Config) error) {
		what = fmt.Sprintf("%s(%q) while connected=%v, listening=%v", name, address, conn, lis)
		h.bounded("C23", name, h.longBound(), func() { err = f(address, h.otherConfig()) })
	}
	switch op.S {
	case "dial", "listen":
		if !conn && !lis {
			return
		}
		if op.S == "dial" {
			call("Dial", fmt.Sprintf("publisher:%d", h.port()+op.N), sb.Dial)
		} else {
			call("Listen", fmt.Sprintf(":%d", h.listenPort()+op.N), sb.Listen)
		}
	case "baddial":
		call("Dial", badAddresses[op.N%len(badAddresses)], sb.Dial)
	case "badlisten":
		call("Listen", badAddresses[op.N%len(badAddresses)], sb.Listen)
	case "taken":
		if conn || lis {
			return
		}
		l, e := simnet.ListenPeer(h.listenPort())
		if e != nil {
			return
		}
		h.w.Fault("local port taken")
		what = "Listen on a port that is taken"
		h.bounded("C23", "Listen", h.longBound(), func() { err = sb.Listen(fmt.Sprintf(":%d", h.listenPort()), h.config()) })
		l.Close()
	}
	if conn && h.live() != pc {
		return
	}
	h.evals++
	h.probe("request refused: " + op.S)
	if err == nil {
		h.fail("C23", "%s was not refused", what)
		return
	}
	if c, l := sb.IsConnected(), sb.IsListening(); l != lis || pc != nil && h.live() == pc && conn && !c || !lis && c != conn {
		h.fail("C23", "after the refused %s: connected=%v, listening=%v", what, c, l)
	}
	if n := len(h.dialRecs); n != dials {
		h.fail("C23", "the refused %s made %d connection attempts", what, n-dials)
	}
	if n := h.listeners(); n != open {
		h.fail("C23", "the refused %s changed the number of listening sockets from %d to %d", what, open, n)
	}
}

// takeOver makes a request while the subscriber is about to reconnect on its own: either the
// request is refused and reconnecting goes on, or it is carried out instead.
func (h *H) takeOver(op Op) {
	sb := h.app.sb
	if h.inStop > 0 || !h.wantConn || sb.IsListening() {
		return
	}
	if n := len(h.dialRecs); op.N == 1 && h.until(h.healBound(), func() bool { return len(h.dialRecs) > n }) {
		simrt.Sleep(time.Duration(op.D))
	}
	var err error
	up := func() bool { pc := h.live(); return pc != nil && pc.gotModes && sb.IsConnected() }
	h.probe("request during automatic reconnection: " + op.S)
	h.taking = true
	switch op.S {
	case "dial":
		h.bounded("C23", "Dial", h.dialBound(), func() { err = h.dial(op) })
		h.taking = false
		if !h.until(h.healBound(), up) {
			h.failDump("C23", "no connection after Dial during automatic reconnection, which returned %v", err)
		}
	case "taken":
		l, e := simnet.ListenPeer(h.listenPort())
		if e != nil {
			h.taking = false
			return
		}
		h.w.Fault("local port taken")
		h.bounded("C23", "Listen", h.longBound(), func() { err = sb.Listen(fmt.Sprintf(":%d", h.listenPort()), h.newConfig(op)) })
		h.taking = false
		l.Close()
		if err == nil {
			h.fail("C23", "Listen on a port that is taken was not refused")
		}
		if !h.until(h.healBound(), up) {
			h.failDump("C23", "automatic reconnection ended because of a refused request to listen (%v)", err)
		}
	case "listen":
		h.bounded("C23", "Listen", h.longBound(), func() { err = sb.Listen(fmt.Sprintf(":%d", h.listenPort()), h.newConfig(op)) })
		h.taking = false
		if err != nil {
			if !h.until(h.healBound(), up) {
				h.failDump("C23", "automatic reconnection ended because of a refused request to listen (%v)", err)
			}
			break
		}
		h.probe("listening took over from automatic reconnection")
		n := len(h.dialRecs)
		if pc := h.live(); pc != nil && len(pc.rx) > 0 || sb.IsConnected() || !sb.IsListening() {
			h.fail("C23", "after Listen during automatic reconnection: connected=%v, listening=%v", sb.IsConnected(), sb.IsListening())
		}
		simrt.Sleep(time.Duration(h.healBound()))
		if len(h.dialRecs) != n || sb.IsConnected() || h.listeners() == 0 {
			h.fail("C23", "the subscriber listens, but made %d connection attempts, connected=%v", len(h.dialRecs)-n, sb.IsConnected())
		}
		h.op(Op{K: "disconnect"}, false)
		h.op(Op{K: "waitdown"}, false)
		h.op(Op{K: "dial"}, false)
	}
	h.evals++
}

func (h *H) listeners() (n int) {
	for _, l := range h.w.Listeners {
		if !l.Closed() {
			n++
		}
	}
	return
}

// udpTaken asks for a data channel on a port another program uses, then again when the port is free.
func (h *H) udpTaken(i int) {
	pc := h.live()
	u := int(h.sc.Sets[i].UDP)
	if pc == nil || u == 0 || h.w.UDPOpen(u) || h.inStop > 0 {
		return
	}
	h.w.Fault("local UDP port taken")
	h.w.TakeUDP(u, true)
	errs := h.app.errs
	h.subscribe(i)
	ok := h.until(h.longBound(), func() bool { return h.app.errs > errs || h.live() != pc })
	h.w.TakeUDP(u, false)
	if h.live() != pc {
		return
	}
	h.evals++
	h.probe("subscription with a taken UDP port")
	if !ok {
		h.fail("C23", "connection %d: a subscription that needs UDP port %d, which is taken, failed without an error message", pc.id, u)
	}
	if !h.sc.Listen && h.r.P(0.5) {
		// The request was refused, the settings stay: the library repeats the request itself when it reconnects.
		h.probe("reconnected after a subscription with a taken UDP port")
		pc.cut(h.r.P(0.5))
		h.until(h.healBound(), func() bool { c := h.live(); return c != nil && c != pc && c.served })
	} else {
		h.subscribe(i)
	}
	h.checkLastSub()
}

// directRefusals is the same at the transport level.
func (h *H) directRefusals() {
	ds := h.directSetup()
	h.w.OnDial = h.onDial
	con := ds.Connector()
	c := h.sc.Cfg
	con.Hostname, con.Port = "publisher", uint16(h.port())
	con.MaxRetries, con.RetryInterval, con.MaxRetryInterval, con.AutoReconnect = c.MaxRetries, c.RetryInterval, c.MaxRetryInterval, true
	connect := func() transport.ConnectStatusEnum {
		var st transport.ConnectStatusEnum
		h.bounded("C23", "Connect", h.healBound(), func() { st = con.Connect(ds) })
		return st
	}
	working := func(after *PConn) {
		if !h.until(h.healBound(), func() bool { pc := h.live(); return pc != nil && pc != after && pc.gotModes && ds.IsConnected() }) {
			h.failDump("C23", "no working connection within %s", time.Duration(h.healBound()))
		}
	}
	cut := func() *PConn {
		pc := h.live()
		if pc == nil {
			return nil
		}
		pc.cut(h.r.P(0.5))
		return pc
	}
	h.wantConn = true
	if st := connect(); st != transport.ConnectStatus.Success {
		h.fail("C23", "connecting failed: %v", st)
	}
	working(nil)
	for _, op := range h.sc.Main {
		simrt.Log("application: %s %s %d %d", op.K, op.S, op.N, op.D)
		switch op.K {
		case "sleep":
			simrt.Sleep(time.Duration(op.D))
		case "refused":
			pc := h.live()
			if pc == nil || !ds.IsConnected() {
				continue
			}
			dials, open := len(h.dialRecs), h.listeners()
			var err error
			h.bounded("C23", op.S, h.longBound(), func() {
				if op.S == "dial" {
					err = ds.Connect("publisher", uint16(h.port()+op.N))
				} else {
					err = ds.Listen(uint16(h.listenPort()), "")
				}
			})
			if h.live() != pc {
				continue
			}
			h.evals++
			h.probe("request refused: transport " + op.S)
			if err == nil || len(h.dialRecs) != dials || h.listeners() != open || !ds.IsConnected() || ds.IsListening() {
				h.fail("C23", "%s while connected: error %v, %d attempts, %d listeners, connected=%v, listening=%v", op.S, err, len(h.dialRecs)-dials, h.listeners()-open, ds.IsConnected(), ds.IsListening())
			}
		case "cut":
			if pc := cut(); pc != nil {
				working(pc)
			}
		case "cancel":
			// The connector gives up reconnecting until it is reset.
			h.bounded("C23", "Cancel", h.longBound(), con.Cancel)
			h.wantConn = false
			if cut() != nil {
				h.until(h.longBound(), func() bool { return !ds.IsConnected() })
			}
			n := len(h.dialRecs)
			simrt.Sleep(time.Duration(h.healBound()))
			h.evals++
			if len(h.dialRecs) != n || ds.IsConnected() {
				h.fail("C23", "connection attempts continue although they were cancelled")
			}
			if st := connect(); st != transport.ConnectStatus.Canceled || len(h.dialRecs) != n {
				h.fail("C23", "a cancelled connector made %d attempts and returned status %v", len(h.dialRecs)-n, st)
			}
			if err := ds.Subscribe(); err == nil {
				h.fail("C23", "subscribing without a connection was not refused")
			}
			con.ResetConnection()
			h.wantConn = true
			if st := connect(); st != transport.ConnectStatus.Success {
				h.fail("C23", "connecting after a reset of the connector returned status %v", st)
			}
			working(nil)
		}
	}
	h.stops++
	for _, pc := range h.conns {
		pc.excused = true
	}
	h.finishing = true
	h.bounded("C23", "Dispose", h.longBound(), ds.Dispose)
	h.pubQuit = true
	simrt.Sleep(time.Second)
}
