package harness

import (
	"encoding/binary"
	"fmt"
	"math"
	"net"
	"strconv"
	"strings"
	"time"

	"simverif/goapi/sttp"
	"simverif/pub"
	"simverif/simctx"
	"simverif/simnet"
	"simverif/simrt"
)

const (
	ms  = int64(time.Millisecond)
	sec = int64(time.Second)
)

func (h *H) flushBound() int64 { return 600*sec + 30*h.slack() }

func (h *H) longBound() int64 {
	return 300*sec + h.slack() + 20*h.sc.App.EventSlow + 20*h.sc.App.SlowMax
}

func (h *H) sessionMain() {
	sc := h.sc
	h.hostile = sc.Hostile
	h.makeSignals()
	newApp(h)
	if sc.App.Print > 0 {
		simrt.OnPrint(h.print)
	}
	if h.part == 0 {
		h.w.OnDial, h.w.OnPair = h.onDial, h.onPair
		h.w.OnBadAddr = func(addr string) { h.fail("C27", "connection attempt to %q, which is no address", addr) }
	}
	if sc.Listen {
		simrt.GoHarness("connecting publisher", h.pubDialer)
	}
	l, err := simnet.ListenPeer(h.port())
	if err != nil {
		simrt.Abort("publisher cannot listen: %v", err)
	}
	h.listen = l
	simrt.GoHarness("publisher", func() {
		for {
			c, err := l.AcceptTCP()
			if err != nil {
				return
			}
			if pc := h.connOf(c); pc != nil {
				pc.start()
			}
		}
	})
	for i, ops := range sc.Side {
		ops := ops
		h.sides++
		simrt.GoHarness(fmt.Sprintf("application thread %d", i+1), func() {
			for _, op := range ops {
				if h.closed || h.finishing {
					break
				}
				h.op(op, true)
			}
			h.sides--
			h.note()
		})
	}
	for _, op := range sc.Main {
		h.op(op, false)
	}
	h.finish()
}

func (h *H) onPair(lib, peer *simnet.TCPConn) {
	pc := h.newConn(lib, peer)
	pc.rogue = h.nextRogue == simrt.TaskID()+1
	if pc.rogue {
		h.nextRogue = 0
	}
	pc.excused = !h.wantConn
	if h.stops > 0 && lib.Dialed {
		// An attempt of a sequence that has been ended may still succeed; it is over before the next sequence dials.
		s := h.series[len(h.series)-1]
		s.own = s.own || s.task == simrt.TaskID()
		pc.excused = pc.excused || !s.own
	}
	if h.stops > 0 && !lib.Dialed && lib.Listened <= h.stopAt {
		pc.excused = true
	}
	if !lib.Dialed {
		for _, o := range h.conns {
			if o != pc && !o.lib.Closed() {
				pc.mayTurn = true
			}
		}
		// Refused or unfinished accepts are the listener's business.
		if h.acceptFaults {
			pc.mayTurn = true
		}
	}
	lib.OnClose = func() { h.libClosed(pc) }
}

// finish stops everything and checks what is left.
func (h *H) finish() {
	h.finishing = true
	h.note()
	if !h.untilRead(h.longBound()*2, func() bool { return h.sides == h.readerSides }) {
		h.failDump("*", "application threads did not finish")
	}
	// a reading thread ends before or after the subscriber is closed
	if h.r.P(0.5) {
		h.endReading()
	}
	if !h.closed {
		h.op(Op{K: "close"}, false)
	}
	h.endReading()
	h.pubQuit = true
	h.note()
	if h.dialsOut > 0 && !h.until(h.longBound(), func() bool { return h.dialsOut == 0 }) {
		h.failDump("C11", "a pending connection request did not return after close")
	}
	if h.prop == "C10" {
		h.checkRetries()
	}
	h.finalEvents()
}

// endReading cancels what the reading thread is waiting for.
func (h *H) endReading() {
	if h.readCancel == nil {
		return
	}
	h.readCancel()
	if h.sc.App.NilCtx {
		// Only closing the reader ends such a read.
		h.closeReader()
	}
	if !h.until(h.longBound()*2, func() bool { return h.readerSides == 0 }) {
		h.failDump("C16", "a cancelled read does not return")
	}
}

func (h *H) makeSignals() {
	n := h.sc.Signals
	if n <= 0 {
		n = 3
	}
	r := h.r
	if h.sc.SigSeed > 0 {
		r = simrt.NewRand(h.sc.SigSeed)
	}
	for i := 0; i < n; i++ {
		var g pub.GUID
		for j := range g {
			g[j] = byte(r.Uint64())
		}
		h.sigs = append(h.sigs, pub.Rec{ID: g, Source: simrt.Pick(r, "PPA", "SHELBY", "Ünit", "X"), Num: r.Uint64() >> uint(r.Intn(64))})
	}
	for j := range h.subID {
		h.subID[j] = byte(h.r.Uint64())
	}
}

func (h *H) onDial(n int, addr string) simnet.Plan {
	h.dialRecs = append(h.dialRecs, h.w.Dials[n])
	h.checkAddr(addr)
	n = len(h.dialRecs) - 1
	h.note()
	if h.dialsOut > 0 {
		h.dialSeen = true
	}
	if !h.wantConn && !h.closed && h.stopDone > 0 && simrt.Now() > h.stopDone+10*sec+h.slack() {
		h.fail("C11", "connection attempt %s after the disconnect request", time.Duration(simrt.Now()-h.stopDone))
	}
	if h.closed {
		h.fail("C11", "connection attempt after close")
	}
	p := simnet.Plan{Delay: int64(h.r.Uint64() % uint64(5*ms))}
	switch {
	case h.down:
		h.w.Fault("connection refused (publisher down)")
		p.Err = simnet.ErrRefused
	case h.calm:
	case n < len(h.sc.Dials):
		d := h.sc.Dials[n]
		p.Delay = d.Delay
		switch d.Fail {
		case "refused":
			p.Err = simnet.ErrRefused
			h.w.Fault("connection refused")
		case "timeout":
			p.Err = simnet.ErrTimeout
			h.w.Fault("connection attempt timed out")
		}
	}
	return p
}

// pubDialer is the publisher in the listening role: it connects to the subscriber, again and again.
func (h *H) pubDialer() {
	for !h.pubQuit {
		if h.down || h.w.LibListener(h.listenPort()) == nil {
			h.changed.WaitUntil("publisher waits for a listener", simrt.Now()+200*ms)
			continue
		}
		n := len(h.conns)
		if n < len(h.sc.Conns) && h.sc.Conns[n].Pause > 0 {
			simrt.Sleep(time.Duration(h.r.Uint64() % uint64(h.sc.Conns[n].Pause)))
		}
		if h.pubQuit || h.down {
			continue
		}
		if k := len(h.sc.PeerIPs); k > 0 {
			h.w.PeerIP = net.ParseIP(h.sc.PeerIPs[n%k])
		}
		c, err := simnet.DialPeer(h.listenPort())
		if err != nil {
			simrt.Sleep(100 * time.Millisecond)
			continue
		}
		pc := h.connOf(c)
		if pc == nil {
			simrt.Abort("publisher connection unknown")
		}
		pc.start()
		h.until(math.MaxInt64/4, func() bool { return pc.dead || h.pubQuit })
		if pc.rogue || pc.broken {
			simrt.Sleep(time.Duration(h.r.Uint64() % uint64(300*ms)))
		} else {
			simrt.Sleep(10 * time.Millisecond)
		}
	}
}

// libClosed runs when the code under test closes its side of a connection.
func (h *H) libClosed(pc *PConn) {
	pc.libClosedAt = simrt.Now()
	h.note()
	if pc.rogue || pc.broken || pc.excused || pc.hostile || pc.lib.Peer().Closed() {
		return
	}
	if h.taking && len(pc.rx) == 0 {
		// The attempt was overtaken by another request.
		pc.excused = true
		return
	}
	if pc.mayTurn && len(pc.rx) == 0 {
		pc.rogue = true
		h.probe("publisher turned away")
		return
	}
	h.fail("C01 C02 C03 C04 C05 C07 C09 C12 C13 C15 C16 C17 C19 C20 C23", "the subscriber terminated healthy connection %d", pc.id)
}

// stopBegin notes that the application asks to disconnect. It returns how often it had asked for a connection before.
func (h *H) stopBegin() int {
	h.stops++
	h.stopAt = simrt.Now()
	h.inStop++
	h.wantConn = false
	h.stopDone = 0
	if n := len(h.series); n > 0 && h.series[n-1].stop == 0 {
		h.series[n-1].stop = simrt.Now()
		h.series[n-1].stopN = len(h.dialRecs)
	}
	h.app.connectedAllowed = false
	for _, pc := range h.conns {
		pc.excused = true
	}
	h.note()
	return h.asked
}

func (h *H) stopEnd() {
	h.inStop--
	h.stopDone = simrt.Now()
	h.note()
}

func (h *H) config() *sttp.Config {
	c := sttp.NewConfig()
	x := h.sc.Cfg
	c.MaxRetries, c.RetryInterval, c.MaxRetryInterval = x.MaxRetries, x.RetryInterval, x.MaxRetryInterval
	c.AutoReconnect, c.AutoRequestMetadata, c.AutoSubscribe = x.AutoReconnect, x.AutoMeta, x.AutoSub
	c.CompressPayloadData, c.CompressMetadata, c.CompressSignalIndexCache = x.CompPayload, x.CompMeta, x.CompCache
	c.MetadataFilters, c.Version, c.RfcGuidEncoding = x.Filters, x.Version, x.RFC
	return c
}

func (h *H) settings(i int) *sttp.Settings {
	x := h.sc.Sets[i]
	if x.Nil {
		return nil
	}
	s := sttp.NewSettings()
	s.Throttled, s.PublishInterval, s.UdpPort = x.Throttled, x.PublishInterval, x.UDP
	s.IncludeTime, s.EnableTimeReasonabilityCheck, s.LagTime, s.LeadTime = x.IncludeTime, x.Reasonability, x.Lag, x.Lead
	s.UseLocalClockAsRealTime, s.UseMillisecondResolution, s.RequestNaNValueFilter = x.LocalClock, x.Millis, x.NaN
	s.StartTime, s.StopTime, s.ConstraintParameters, s.ProcessingInterval = x.Start, x.Stop, x.Constraint, x.Interval
	s.ExtraConnectionStringParameters = x.Extra
	return s
}

func (h *H) newest() *PConn {
	for i := len(h.conns) - 1; i >= 0; i-- {
		if !h.conns[i].rogue {
			return h.conns[i]
		}
	}
	return nil
}

// live is the connection in use, if it is healthy.
func (h *H) live() *PConn {
	pc := h.newest()
	if pc == nil || pc.dead || pc.broken || pc.excused || pc.hostile || pc.lib.Closed() {
		return nil
	}
	return pc
}

func (h *H) dial(op Op) error {
	host := "publisher"
	if n := len(h.sc.Hosts); n > 0 {
		host = h.sc.Hosts[len(h.hosts)%n]
	}
	h.hosts = append(h.hosts, host)
	return h.app.sb.Dial(net.JoinHostPort(host, strconv.Itoa(h.port())), h.newConfig(op))
}

// newConfig is the configuration to pass with a connection request; nil keeps the one given before.
func (h *H) newConfig(op Op) *sttp.Config {
	if op.S == "keep" {
		return nil
	}
	return h.config()
}

// connecting notes that the application asks for a connection. A request to subscribe that another of its threads is
// still making may find the connection established and send the subscription itself.
func (h *H) connecting() {
	h.wantConn = true
	h.asked++
	for _, c := range h.app.sets {
		if c.ret == 0 {
			h.userSubs++
		}
	}
}

func (h *H) dialBegin() {
	h.connecting()
	h.app.connectedAllowed = true
	h.series = append(h.series, &serie{first: len(h.dialRecs)})
}

// op runs one step of an application thread.
func (h *H) op(op Op, side bool) {
	a := h.app
	sb := a.sb
	simrt.Log("application: %s %s %d %d", op.K, op.S, op.N, op.D)
	switch op.K {
	case "sleep":
		simrt.Sleep(time.Duration(op.D))
	case "dial":
		h.dialBegin()
		stops := h.stops
		var err error
		h.dialsOut++
		run := func() { h.series[len(h.series)-1].task = simrt.TaskID(); err = h.dial(op) }
		if op.S == "long" || h.unlimitedDown() {
			run()
		} else {
			h.boundedWrite("C09 C10 C11 C23", "Dial", h.dialBound(), run)
		}
		h.dialsOut--
		h.dialErr = err
		x := h.series[len(h.series)-1]
		x.ret, x.err = simrt.Now(), err
		h.note()
		if err != nil && h.stops == stops {
			h.checkDialError(err, op)
		}
		if err == nil {
			h.dialOK++
		} else if h.stops == stops {
			h.wantConn = false
			a.connectedAllowed = false
		}
	case "godial":
		h.dialBegin()
		h.dialSeen = false
		h.dialsOut++
		returned := false
		simrt.GoHarness("application dialing", func() {
			x := h.series[len(h.series)-1]
			x.task = simrt.TaskID()
			x.err = h.dial(op)
			h.dialErr, x.ret = x.err, simrt.Now()
			h.dialsOut--
			returned = true
			h.note()
		})
		h.until(600*sec, func() bool { return h.dialSeen || returned })
	case "joindial":
		if !h.until(h.longBound(), func() bool { return h.dialsOut == 0 }) {
			h.failDump("C11", "a pending connection request did not return after disconnect")
		}
	case "listen":
		// A handler of the connection before may be asking to disconnect at the same time.
		stops, stopping := h.stops, h.inStop > 0
		h.connecting()
		a.connectedAllowed = true
		var err error
		h.bounded("C13 C11 C23", "Listen", h.longBound(), func() {
			err = sb.Listen(net.JoinHostPort(h.sc.Iface, strconv.Itoa(h.listenPort())), h.newConfig(op))
		})
		if l := h.w.LibListener(h.listenPort()); l != nil {
			h.evals++
			if l.Host != h.sc.Iface {
				h.fail("C27", "asked to listen at %q, the subscriber listens at %q", h.sc.Iface, l.Host)
			}
		}
		if err != nil && h.stops == stops && !stopping {
			h.fail("C13 C11 C23 C27", "listening on a free port failed: %v", err)
		} else if err != nil {
			h.wantConn = false
			a.connectedAllowed = false
		}
		h.note()
	case "disconnect":
		asked := h.stopBegin()
		h.bounded("C11 C15 C16", "Disconnect", h.longBound(), sb.Disconnect)
		h.stopEnd()
		a.afterDisconnect(asked)
	case "waitdown":
		h.waitDown()
	case "quiet":
		h.quietFor(op.D)
	case "close":
		h.stopBegin()
		h.down = true
		h.bounded("C11 C16 C15 C14", "Close", h.longBound(), sb.Close)
		h.stopEnd()
		if h.inStop == 0 {
			h.closed = true
			h.afterClose()
		}
	case "sub":
		h.subscribe(op.N)
	case "unsub":
		c := &setCall{idx: -1, call: h.seq(), deliv: a.delivered}
		a.unsubs = append(a.unsubs, c)
		h.boundedWrite("C20 C11 C06", "Unsubscribe", h.longBound(), sb.Unsubscribe)
		c.ret = h.seq()
	case "meta":
		if h.sc.Cfg.Filters != "" && a.estN == 0 && h.dialOK == 0 {
			// The configuration with the filters is handed over with the first connection request.
			break
		}
		a.metaCalls++
		sb.RequestMetadata()
	case "waitconn":
		bound := h.healBound()
		if !h.until(bound, func() bool {
			pc := h.live()
			return pc != nil && pc.gotModes && sb.IsConnected() || h.stops > 0 && !h.wantConn
		}) {
			h.failDump("C09 C13 C23", "no working connection within %s", time.Duration(bound))
		}
	case "waitconn2":
		h.until(60*sec, func() bool { return a.est || !h.wantConn })
	case "sides":
		if !h.untilRead(h.longBound()*2, func() bool { return h.sides == h.readerSides }) {
			h.failDump("*", "application threads did not finish")
		}
	case "sethandlers":
		for _, k := range kinds {
			if k == "meas" && h.sc.App.Reader || k == "meta" && h.sc.App.NoMeta || k == h.sc.App.Without || h.prints(k) {
				continue
			}
			a.assign(k, false)
		}
	case "resume":
		h.readResume = true
		h.note()
	case "lastsub":
		h.checkLastSub()
	case "waitsub":
		h.until(60*sec, func() bool { pc := h.live(); return pc != nil && pc.served || !h.wantConn })
	case "waitstream":
		h.waitStream("C09 C13 C14 C15 C16 C20 C11 C23")
	case "heal":
		h.heal()
	case "flush":
		if pc := h.live(); pc != nil {
			pc.flush()
		}
	case "waitscript":
		// until the publisher has finished the script of connection N
		d := int64(900 * sec)
		if op.D > 0 {
			d = op.D
		}
		h.until(d, func() bool {
			return len(h.conns) > op.N && (h.conns[op.N].scriptDone || h.conns[op.N].dead) || !h.wantConn
		})
	case "waitdead":
		h.until(900*sec, func() bool { return len(h.conns) > op.N && h.conns[op.N].dead || !h.wantConn })
	case "set":
		a.assign(op.S, op.N == 1)
	case "down":
		h.down = true
		h.note()
	case "up":
		h.down = false
		h.note()
	case "cut":
		if pc := h.newest(); pc != nil && !pc.dead {
			pc.cut(op.N == 1)
		}
	case "query":
		a.query()
	case "records":
		a.records()
	case "lookup":
		a.lookup()
	case "stats":
		h.checkStats()
	case "poll":
		h.poll(op.N, op.D)
	case "udpport":
		h.checkUDP()
	case "rogue":
		h.rogue(op)
	case "acceptfault":
		if l := h.w.LibListener(h.listenPort()); l != nil {
			l.FailAccepts(op.N)
			h.note()
		}
	case "cmds":
		h.issueCommands(op)
	case "reader":
		h.startReader(op)
	case "readclose":
		h.closeReader()
	case "readcancel":
		h.cancelRead(op.D)
	case "pause":
		h.readPaused = op.N == 1
		h.note()
	case "setup":
		h.checkSetup()
	case "disconnects":
		// N more disconnect requests at once
		for i := 0; i < op.N; i++ {
			asked := h.stopBegin()
			h.sides++
			simrt.GoHarness("application disconnecting", func() {
				h.bounded("C11", "Disconnect", h.longBound(), sb.Disconnect)
				h.stopEnd()
				a.afterDisconnect(asked)
				h.sides--
				h.note()
			})
		}
	case "refused":
		h.refused(op)
	case "takeover":
		h.takeOver(op)
	case "udptaken":
		h.udpTaken(op.N)
	case "mute":
		h.mute()
	case "afterread":
		h.afterRead(op.N > 0)
	case "state":
		h.checkState()
	case "log":
		for i := 0; i < op.N && !h.finishing; i++ {
			a.log()
			simrt.Sleep(time.Duration(op.D))
		}
	case "said":
		h.said(op)
	case "census":
		h.takeCensus()
	case "statepoll":
		for i := 0; i < op.N && !h.finishing; i++ {
			h.glance()
			simrt.Sleep(time.Duration(op.D))
		}
	case "publish":
		// the publisher does one more thing on the live connection
		if pc := h.live(); pc != nil {
			pc.scriptOp(PubOp{K: op.S, N: op.N, M: 3, D: op.D})
		}
	default:
		simrt.Abort("unknown operation %q", op.K)
	}
}

func (h *H) unlimitedDown() bool { return h.sc.Cfg.MaxRetries < 0 }

// dialBound is the longest a connection request with limited retries may take.
func (h *H) dialBound() int64 {
	d := 60*sec + h.slack()*4
	n := int(h.sc.Cfg.MaxRetries)
	for i := 0; i <= n+1; i++ {
		d += int64(h.sc.Cfg.MaxRetryInterval)*ms + 40*sec
		if int64(h.sc.Cfg.RetryInterval) > int64(h.sc.Cfg.MaxRetryInterval) {
			d += int64(h.sc.Cfg.RetryInterval) * ms
		}
	}
	return d
}

// healBound bounds the return of service after everything works again.
func (h *H) healBound() int64 {
	c := h.sc.Cfg
	w := int64(c.MaxRetryInterval)
	if int64(c.RetryInterval) > w {
		w = int64(c.RetryInterval)
	}
	return 2*w*ms + 180*sec + 2*h.slack() + 20*h.sc.App.EventSlow
}

func (h *H) checkDialError(err error, op Op) {
	// With no stop request a dial may only fail when every attempt failed.
	first := h.series[len(h.series)-1].first
	for _, d := range h.dialRecs[first:] {
		if d.OK && h.sc.Cfg.MaxRetries != 0 {
			pc := h.pcOf(d.Conn)
			if pc != nil && !pc.broken && !pc.hostile {
				h.fail("C10 C09 C11 C23", "Dial returned %q although a connection was made", err)
			}
		}
	}
	if n := len(h.dialRecs) - first; n == 0 {
		h.fail("C10 C11 C23", "Dial returned %q without a connection attempt", err)
	}
}

func (h *H) pcOf(c *simnet.TCPConn) *PConn {
	for _, p := range h.conns {
		if p.lib == c {
			return p
		}
	}
	return nil
}

func (h *H) subscribe(i int) {
	a := h.app
	c := &setCall{idx: i, call: h.seq(), deliv: a.delivered}
	a.sets = append(a.sets, c)
	if h.wantConn {
		h.userSubs++
		if pc := h.newest(); pc != nil {
			pc.subCause()
		}
	}
	h.boundedWrite("C20 C11 C06 C16", "Subscribe", h.longBound(), func() { a.sb.Subscribe(h.sc.Sets[i].Filter, h.settings(i)) })
	c.ret = h.seq()
	c.delivRet = a.delivered
	h.note()
}

// heal ends all faults.
func (h *H) heal() {
	h.calm = true
	h.down = false
	simrt.Calm()
	h.w.LookupErr = false
	for _, pc := range h.conns {
		if pc.dead || pc.rogue {
			continue
		}
		s := pc.script
		if s.Modes != "" && s.Modes != "noopfirst" || s.CutAt > 0 || s.CutIn > 0 || pc.subRefused || s.MetaFail || pc.hostile {
			pc.cut(false)
		}
	}
	h.note()
}

// waitStream waits until something published from now on has been delivered.
func (h *H) waitStream(tags string) {
	if !h.wantConn {
		return
	}
	bound := h.healBound()
	from := h.seq()
	h.streamWanted = true
	h.note()
	delivered := func() bool {
		if !h.wantConn {
			return true
		}
		pc := h.live()
		if pc == nil {
			return false
		}
		for _, l := range append([]*elist{pc.tcp}, pc.udp...) {
			if l.next > 0 && l.e[l.next-1].seq > from {
				return true
			}
		}
		return false
	}
	ok := h.until(bound, delivered)
	h.streamWanted = false
	h.evals++
	if !ok {
		what := "no connection"
		if pc := h.newest(); pc != nil {
			what = fmt.Sprintf("connection %d: dead=%v served=%v subs=%d meta=%d sent=%d next=%d", pc.id, pc.dead, pc.served, len(pc.subs), pc.metaReq, len(pc.tcp.e), pc.tcp.next)
		}
		h.failDump(tags, "the data stream did not resume within %s after everything worked again (%s)", time.Duration(bound), what)
	}
}

// waitDown checks that a disconnect takes full effect.
func (h *H) waitDown() {
	ok := h.until(h.longBound(), func() bool {
		return (h.part > 0 || len(h.w.OpenLib()) == 0) && h.app.sb.IsConnected() == false && !h.app.est && h.inStop == 0 && h.inEnter == 0
	})
	if !ok {
		h.failDump("C11 C12 C13", "after disconnect: still open %v, connected=%v, established=%v", h.w.OpenLib(), h.app.sb.IsConnected(), h.app.est)
	}
	h.evals++
}

func (h *H) quietFor(d int64) {
	simrt.Sleep(time.Duration(10*sec + h.slack()))
	n := len(h.dialRecs)
	e := h.app.estN
	simrt.Sleep(time.Duration(d))
	if h.wantConn || h.inStop > 0 {
		return
	}
	if len(h.dialRecs) != n {
		h.fail("C11", "connection attempts continue after disconnect")
	}
	if h.app.estN != e || h.app.sb.IsConnected() {
		h.fail("C11 C12", "connected again after disconnect")
	}
	h.evals++
}

func (h *H) afterClose() {
	// Anything that is still on its way to end gets a moment.
	simrt.Calm()
	if h.part == 0 {
		h.checkLeft()
	}
	if h.app.sb.IsConnected() {
		h.fail("C11 C12", "connected after close")
	}
	if h.app.est && !h.app.optionalNow("term") {
		h.fail("C12", "no terminated event for the last connection")
	}
	if h.app.sb.IsListening() {
		h.fail("C11 C13", "listening after close")
	}
	h.evals++
}

// checkLeft requires that nothing is left of closed subscribers.
func (h *H) checkLeft() {
	h.until(5*sec+h.slack()+10*h.sc.App.EventSlow, func() bool { return len(h.w.OpenLib()) == 0 && len(simrt.LiveTasks()) == 0 && h.dialsOut == 0 })
	if o := h.w.OpenLib(); len(o) > 0 {
		h.failDump("C11 C24", "after close still open: %v", o)
	}
	if t := simrt.LiveTasks(); len(t) > 0 {
		h.failDump("C11 C16 C24", "goroutines left after close: %v", t)
	}
}

func (h *H) finalEvents() {
	a := h.app
	if !a.optionalNow("est") && !a.optionalNow("term") && a.estN != a.termN {
		h.fail("C12", "%d established events but %d terminated events", a.estN, a.termN)
	}
	a.unchanged()
	for _, k := range a.kept {
		a.same(k.copy, *k.p, "although the application had not given it back")
	}
}

// checkModes compares the operational modes with the configuration.
func (h *H) checkModes(pc *PConn) {
	c := h.sc.Cfg
	want := uint32(c.Version) | pub.ModeUTF8 | pub.ModeGZip
	if c.CompMeta {
		want |= pub.ModeCompMetadata
	}
	if c.CompCache {
		want |= pub.ModeCompCache
	}
	var ok []uint32
	for _, v := range h.versions(pc.startSeq, pc.wseq) {
		w := want
		if c.CompPayload && (v < 0 || h.sc.Sets[v].UDP == 0) {
			w |= pub.ModeCompPayload | pub.ModeTSSC
		}
		ok = append(ok, w)
		if pc.modes == w {
			return
		}
	}
	h.fail("C08 C21 C23", "connection %d: operational modes %#x do not match the configuration, expected %#x", pc.id, pc.modes, ok)
}

// versions lists the settings that may be in force at some moment between from and to (-1: the defaults): the last
// call that had returned or any call in progress; which of two overlapping calls prevails is open.
func (h *H) versions(from, to int) []int {
	last := 0
	for _, c := range h.app.sets {
		if c.ret > 0 && c.ret < from && c.call > last {
			last = c.call
		}
	}
	var vs []int
	if last == 0 {
		vs = append(vs, -1)
	}
	for _, c := range h.app.sets {
		if c.call < to && (c.ret == 0 || c.ret >= last) {
			vs = append(vs, c.idx)
		}
	}
	return vs
}

func (h *H) checkMetaReq(pc *PConn, data []byte) {
	f := h.sc.Cfg.Filters
	if f == "" {
		if len(data) != 0 {
			h.fail("C08 C06 C23", "metadata request with unexpected payload of %d bytes", len(data))
		}
		return
	}
	if len(data) < 4 || int(binary.BigEndian.Uint32(data)) != len(data)-4 || string(data[4:]) != f {
		h.fail("C08 C06 C23", "metadata request does not carry the configured filters")
	}
}

func (h *H) checkSub(pc *PConn, s *subReq) {
	vs := h.versions(pc.wseq, pc.wseq)
	why := ""
	for i := len(vs) - 1; i >= 0; i-- {
		var w string
		if vs[i] < 0 {
			w = compareSub(s, "", SetS{PublishInterval: 1, IncludeTime: true, Interval: -1, Lag: 10, Lead: 5})
		} else {
			w = compareSub(s, h.sc.Sets[vs[i]].Filter, h.sc.Sets[vs[i]])
		}
		if w == "" {
			s.version = vs[i]
			return
		}
		if why == "" {
			why = w
		}
	}
	h.fail("C21 C08 C20 C23", "connection %d: subscription request does not match the settings: %s (request %q)", pc.id, why, s.raw)
}

func compareSub(s *subReq, filter string, x SetS) string {
	used := map[string]bool{}
	str := func(k, want string) string {
		used[k] = true
		got, ok := s.kv[k]
		if want == "" && !ok {
			return ""
		}
		if !ok {
			return fmt.Sprintf("%s is missing", k)
		}
		if got != want {
			return fmt.Sprintf("%s is %q, requested %q", k, got, want)
		}
		return ""
	}
	boolean := func(k string, want bool) string {
		used[k] = true
		got, err := strconv.ParseBool(s.kv[k])
		if err != nil || got != want {
			return fmt.Sprintf("%s is %q, requested %v", k, s.kv[k], want)
		}
		return ""
	}
	num := func(k string, want float64) string {
		used[k] = true
		got, err := strconv.ParseFloat(s.kv[k], 64)
		if err != nil || math.Abs(got-want) > 1e-6*math.Max(1, math.Abs(want))/10 {
			return fmt.Sprintf("%s is %q, requested %v", k, s.kv[k], want)
		}
		return ""
	}
	for _, w := range []string{
		boolean("throttled", x.Throttled),
		num("publishinterval", x.PublishInterval),
		boolean("includetime", x.IncludeTime),
		boolean("enabletimereasonabilitycheck", x.Reasonability),
		num("lagtime", x.Lag), num("leadtime", x.Lead),
		boolean("uselocalclockasrealtime", x.LocalClock),
		num("processinginterval", float64(x.Interval)),
		boolean("usemillisecondresolution", x.Millis),
		boolean("requestnanvaluefilter", x.NaN),
		str("filterexpression", filter),
		str("starttimeconstraint", x.Start), str("stoptimeconstraint", x.Stop),
		str("timeconstraintparameters", x.Constraint),
	} {
		if w != "" {
			return w
		}
	}
	used["datachannel"] = true
	if x.UDP == 0 {
		if _, ok := s.kv["datachannel"]; ok {
			return "a data channel is requested"
		}
	} else if s.udp != int(x.UDP) {
		return fmt.Sprintf("data channel port is %d, requested %d", s.udp, x.UDP)
	}
	ai, err := pub.ParseConn(s.kv["assemblyinfo"])
	used["assemblyinfo"] = true
	if err != nil || ai["source"] == "" || ai["version"] == "" || ai["updatedon"] == "" {
		return "assembly information is missing"
	}
	if x.Extra != "" {
		m, _ := pub.ParseConn(x.Extra)
		for _, k := range textKeys(m) {
			used[k] = true
			if s.kv[k] != m[k] {
				return fmt.Sprintf("extra parameter %s is %q, requested %q", k, s.kv[k], m[k])
			}
		}
	}
	for _, k := range textKeys(s.kv) {
		if !used[k] && k != "" {
			return fmt.Sprintf("unexpected key %q", k)
		}
	}
	return ""
}

// checkSetup compares what a connection set up automatically with the configuration.
func (h *H) checkSetup() {
	c := h.sc.Cfg
	// Metadata the application asked for leads to a subscription only when metadata is part of the set-up.
	skip := func() bool { return len(h.app.unsubs) > 0 || h.userSubs > 0 || h.app.metaCalls > 0 && c.AutoMeta }
	if skip() {
		return
	}
	pc := h.live()
	if pc == nil || pc.script.MetaFail {
		return
	}
	wantM, wantS := 0, 0
	reached := func() bool {
		wantM, wantS = 0, 0
		if c.AutoMeta {
			wantM = 1 + pc.confChange
		}
		if c.AutoSub {
			wantS = 1
			if c.AutoMeta {
				wantS += pc.confChange
			}
		}
		return h.live() != pc || pc.metaReq >= wantM && len(pc.subs) >= wantS
	}
	// The publisher must have come to the end of its script.
	h.until(60*sec, func() bool { return h.live() != pc || pc.scriptDone })
	ok := h.until(60*sec+h.slack()+10*h.sc.App.EventSlow, reached)
	simrt.Sleep(time.Duration(2 * sec))
	reached()
	if h.live() != pc || skip() {
		return
	}
	h.evals++
	if h.app.metaCalls > 0 {
		wantM = pc.metaReq
	}
	if !ok || pc.metaReq != wantM || len(pc.subs) != wantS {
		h.failDump("C08 C19 C23", "connection %d: %d metadata requests and %d subscription requests, expected %d and %d", pc.id, pc.metaReq, len(pc.subs), wantM, wantS)
	}
}

// checkOrder is called for every subscription request: metadata first, when so configured.
func (h *H) checkOrder(pc *PConn, s *subReq) {
	c := h.sc.Cfg
	if h.userSubs > 0 || !c.AutoMeta || pc.hostile {
		return
	}
	if len(pc.subs) > pc.metaHandled && !h.app.optionalNow("meta") {
		h.fail("C08", "connection %d: subscription request %d sent before the metadata was processed (%d so far)", pc.id, len(pc.subs), pc.metaHandled)
	}
}

func (h *H) checkStats() {
	pc := h.live()
	if pc == nil {
		return
	}
	if !pc.flush() {
		return
	}
	if h.live() != pc || len(pc.q) > 0 || pc.writing {
		return
	}
	sb := h.app.sb
	sent := pc.sent
	if pc.script.Linger && h.streaming(pc) {
		return
	}
	// Let the receiving thread finish its accounting.
	simrt.Sleep(time.Duration(2*sec + h.slack()))
	if h.live() != pc || pc.sent != sent || len(pc.q) > 0 {
		return
	}
	h.evals++
	h.probe("statistics compared")
	if got := sb.TotalCommandChannelBytesReceived(); got != uint64(sent) {
		h.fail("C17", "connection %d: command channel byte count is %d, the publisher sent %d", pc.id, got, sent)
	}
	wantData := uint64(sent)
	var last *subReq
	if n := len(pc.subs); n > 0 {
		last = pc.subs[n-1]
	}
	if last != nil && last.udp > 0 {
		wantData = 0
		for _, u := range h.w.UDPSockets {
			if u.OpenedAt >= pc.born {
				wantData += uint64(u.Received)
			}
		}
	}
	if last != nil && h.lastSetIs(last) {
		if pc.sub == nil {
			h.probe("statistics compared after an unsubscribe")
		}
		if got := sb.TotalDataChannelBytesReceived(); got != wantData {
			h.fail("C17", "connection %d: data channel byte count is %d, arrived %d", pc.id, got, wantData)
		}
	}
	if n := len(pc.subs); n > 0 && (h.muteEnd == 0 || pc.born > h.muteEnd) {
		s := pc.subs[n-1]
		got := int64(sb.TotalMeasurementsReceived())
		lo := pc.deliv - s.delivAt
		hi := pc.deliv - s.delivFrom
		if got < lo || got > hi {
			h.fail("C17 C03", "connection %d: measurement count is %d but %d..%d were delivered since the subscription was requested", pc.id, got, lo, hi)
		}
	}
}

// afterRead waits for the moment the subscriber has read everything sent so far, but need not have processed it;
// with answer, an answer to a subscription request must be among it.
func (h *H) afterRead(answer bool) {
	pc := h.live()
	if pc == nil {
		return
	}
	n, sent := pc.answers, pc.sent
	pc.lib.OnRead = h.note
	h.until(5*sec, func() bool {
		return h.live() != pc || pc.sent > sent && (!answer || pc.answers > n) && len(pc.q) == 0 && !pc.writing && pc.lib.Read_ == pc.sent
	})
	pc.lib.OnRead = nil
}

// mute lets the publisher send measurements while no handler is set: they are received, and counted, all the same.
func (h *H) mute() {
	pc := h.live()
	a := h.app
	if pc == nil || pc.sub == nil || pc.sub.udp > 0 || pc.script.Linger && h.streaming(pc) || !pc.flush() {
		return
	}
	simrt.Sleep(time.Duration(2*sec + h.slack()))
	subs, n := len(pc.subs), len(pc.tcp.e)
	before := a.sb.TotalMeasurementsReceived()
	a.assign("meas", true)
	pc.scriptOp(PubOp{K: "stream", N: 1 + h.r.Intn(5), M: 3})
	pc.scriptOp(PubOp{K: "notify", N: 1})
	ok := h.live() == pc && pc.flush()
	simrt.Sleep(time.Duration(2*sec + h.slack()))
	got := a.sb.TotalMeasurementsReceived() - before
	want := len(pc.tcp.e) - n
	a.assign("meas", false)
	if !ok || h.live() != pc || len(pc.subs) != subs || len(pc.q) > 0 {
		h.muteEnd = simrt.Now()
		return
	}
	h.evals++
	h.probe("measurements counted without a handler")
	if got != uint64(want) {
		h.fail("C17", "connection %d: the measurement count grew by %d while %d measurements arrived and no handler was set", pc.id, got, want)
	}
	pc.deliv += int64(want)
}

func (h *H) lastSetIs(s *subReq) bool {
	if n := len(h.app.sets); n > 0 {
		return h.app.sets[n-1].idx == s.version && h.app.sets[n-1].ret > 0
	}
	return true
}

// checkLastSub requires the newest settings to have reached the publisher.
func (h *H) checkLastSub() {
	pc := h.live()
	if pc == nil || len(h.app.sets) == 0 || len(h.app.unsubs) > 0 {
		return
	}
	last := h.app.sets[len(h.app.sets)-1].idx
	h.evals++
	ok := h.until(120*sec+h.slack(), func() bool {
		n := len(pc.subs)
		return h.live() != pc || n > 0 && pc.subs[n-1].version == last
	})
	if !ok {
		h.failDump("C21 C20 C23", "connection %d: the settings requested last did not reach the publisher", pc.id)
	}
}

func (h *H) streaming(pc *PConn) bool { return !pc.scriptDone }

// poll reads the counters while traffic flows; within one connection they never go back.
func (h *H) poll(n int, d int64) {
	sb := h.app.sb
	var last uint64
	var lastPC *PConn
	for i := 0; i < n && !h.finishing; i++ {
		pc := h.live()
		v := sb.TotalCommandChannelBytesReceived()
		m := sb.TotalMeasurementsReceived()
		pc2 := h.live()
		if pc != nil && pc == pc2 && pc.gotModes && pc.served {
			if pc == lastPC && v < last {
				h.fail("C17", "command channel byte count went from %d back to %d", last, v)
			}
			if v > uint64(pc.c.Written) {
				h.fail("C17", "command channel byte count %d exceeds the %d bytes sent", v, pc.c.Written)
			}
			if int64(m) > pc.deliv+200000 {
				h.fail("C17", "measurement count %d far exceeds what was delivered", m)
			}
			last, lastPC = v, pc
			h.evals++
		}
		simrt.Sleep(time.Duration(d))
	}
}

// checkUDP compares the state of the UDP ports with what the application asked for last.
func (h *H) checkUDP() {
	simrt.Sleep(time.Duration(5*sec + h.slack()))
	want := map[int]bool{}
	a := h.app
	if h.inStop > 0 {
		return
	}
	pc := h.live()
	for _, c := range append(append([]*setCall(nil), a.sets...), a.unsubs...) {
		if c.ret == 0 {
			return
		}
	}
	if pc != nil {
		if len(pc.subs) == 0 && pc.unsubs == 0 || pc.subRefused {
			return
		}
		// Calls may have overlapped: the request that was sent last counts.
		for i := len(pc.rx) - 1; i >= 0; i-- {
			if c := pc.rx[i].code; c == pub.CmdSubscribe {
				if u := pc.subs[len(pc.subs)-1].udp; u > 0 {
					want[u] = true
				}
				break
			} else if c == pub.CmdUnsubscribe {
				break
			}
		}
	} else if h.wantConn {
		return
	}
	h.evals++
	h.probe("UDP ports compared")
	for _, s := range h.sc.Sets {
		if s.UDP == 0 {
			continue
		}
		if open := h.w.UDPOpen(int(s.UDP)); open != want[int(s.UDP)] {
			if h.live() != pc {
				return
			}
			h.failDump("C20", "UDP port %d is open=%v although wanted=%v", s.UDP, open, want[int(s.UDP)])
		}
	}
}

// rogue connects a second peer while a publisher is being served.
func (h *H) rogue(op Op) {
	if h.w.LibListener(h.listenPort()) == nil {
		return
	}
	act := h.live()
	if act == nil || !act.gotModes || act.lib.Closed() {
		return
	}
	h.nextRogue = simrt.TaskID() + 1
	c, err := simnet.DialPeer(h.listenPort())
	h.nextRogue = 0
	if err != nil {
		return
	}
	h.w.Fault("second publisher connects")
	pc := h.connOf(c)
	pc.rogue = true
	pc.start()
	switch op.S {
	case "garbage":
		pc.push([]byte("GET / HTTP/1.0\r\n\r\n"), nil)
	case "publisher":
		pc.respond(pub.RespOK, pub.CmdOpModes, []byte("hello"))
	case "leave":
		simrt.Sleep(time.Duration(h.r.Uint64() % uint64(5*ms)))
		pc.broken = true
		c.Close()
		return
	}
	stops := h.stops
	ok := h.until(60*sec+h.slack()+h.sc.Net.LookupWait*4, func() bool { return pc.dead || h.stops != stops || act.dead || act.broken })
	h.evals++
	if h.stops != stops || act.dead || act.broken {
		if !pc.dead {
			pc.broken = true
			c.Close()
			pc.markDead()
		}
		return
	}
	if !ok {
		h.failDump("C13", "a second publisher was not turned away while connection %d was active", act.id)
	}
	if len(pc.rx) > 0 {
		h.fail("C13", "a second publisher received commands while connection %d was active", act.id)
	}
}

// issueCommands sends user commands with distinguishable payloads from the calling thread.
func (h *H) issueCommands(op Op) {
	ds := h.ds()
	id := simrt.TaskID()
	for i := 0; i < op.N; i++ {
		if h.finishing {
			return
		}
		n := h.r.LogRange(1, op.D)
		b := make([]byte, 0, n+12)
		b = binary.BigEndian.AppendUint32(b, uint32(id))
		h.cmdNo[id]++
		b = binary.BigEndian.AppendUint32(b, uint32(h.cmdNo[id]))
		x := byte(h.r.Uint64())
		for len(b) < int(n)+8 {
			x = x*29 + 7
			b = append(b, x)
		}
		code := byte(0xD0 + h.r.Intn(16))
		c := &issued{task: id, no: h.cmdNo[id], code: code, body: string(b), pc: h.live(), begin: h.seq()}
		h.issued = append(h.issued, c)
		sendUser(ds, code, b)
		c.end = h.seq()
		if c.pc != nil && h.live() != c.pc {
			c.pc = nil
		}
		if h.r.P(0.3) {
			simrt.Sleep(time.Duration(h.r.Uint64() % uint64(3*ms)))
		}
	}
}

func (h *H) startReader(op Op) {
	a := h.app
	if a.reader == nil && !h.until(h.longBound(), func() bool { return h.readerSides == 0 }) {
		h.failDump("C16", "a pending read does not return although its reader has been closed")
	}
	g := &gen{call: h.seq()}
	a.gens["meas"] = append(a.gens["meas"], g)
	n := len(a.gens["meas"]) - 1
	rd := a.sb.ReadMeasurements()
	g.ret = h.seq()
	a.reader = rd
	h.readers++
	ctx, cancel := simctx.WithCancel(simctx.Background())
	h.readCancel = cancel
	h.readGen = n
	h.sides++
	h.readerSides++
	stop := h.sc.App.ReadStop
	simrt.GoHarness("application reading", func() {
		defer func() { h.sides--; h.readerSides--; h.note() }()
		count := 0
		for !h.closed {
			if a.reader != rd {
				return
			}
			if h.readPaused || stop > 0 && count >= stop && !h.readResume {
				h.probe("consumer stopped reading")
				if !h.until(math.MaxInt64/4, func() bool {
					return h.finishing || h.closed || a.reader != rd || !h.readPaused && (stop == 0 || count < stop || h.readResume)
				}) {
					return
				}
				if h.finishing || h.closed || a.reader != rd {
					return
				}
			}
			own, done := ctx, false
			var cn func()
			if h.r.P(0.15) {
				own, cn = simctx.WithTimeout(ctx, time.Duration(h.r.Uint64()%uint64(300*ms)))
			}
			if h.sc.App.NilCtx && cn == nil && h.r.P(0.7) {
				h.probe("read without a context")
				own = nil
			}
			h.reading = true
			m, done := rd.NextMeasurement(own)
			h.reading = false
			h.readReturns++
			h.note()
			if cn != nil {
				cn()
			}
			if h.finishing && done {
				return
			}
			if done {
				h.probe("pending read cancelled")
				if m != nil {
					h.fail("C16", "a cancelled read returned a measurement")
				}
				if (own == nil || own.Err() == nil) && a.reader == rd {
					h.fail("C16", "a read returned as cancelled although its context is alive")
				}
				if ctx.Err() != nil {
					if a.reader != rd || h.closed || h.finishing {
						return
					}
					ctx, cancel = simctx.WithCancel(simctx.Background())
					h.readCancel = cancel
				}
				continue
			}
			if m == nil {
				h.fail("C16", "a read returned no measurement without being complete")
				return
			}
			count++
			h.readCount++
			h.evals++
			a.readM(n, *m)
			if d := h.sc.App.ReadSlow; d > 0 && !h.calm {
				simrt.Sleep(time.Duration(h.r.Uint64() % uint64(d)))
			}
		}
	})
}

func (h *H) closeReader() {
	a := h.app
	if a.reader == nil {
		return
	}
	h.probe("reader closed")
	rd := a.reader
	g := &gen{call: h.seq(), none: true}
	a.gens["meas"] = append(a.gens["meas"], g)
	a.reader = nil
	h.bounded("C16", "closing the reader", h.longBound(), rd.Close)
	g.ret = h.seq()
	h.readCancel()
	h.note()
}

// cancelRead cancels a pending read, which has to return.
func (h *H) cancelRead(d int64) {
	a := h.app
	if a.reader == nil || h.readCancel == nil {
		return
	}
	was := h.reading
	c := h.readReturns
	h.readCancel()
	if was && !h.until(20*sec+h.slack(), func() bool { return h.readReturns != c }) {
		h.failDump("C16", "a cancelled read does not return")
	}
}

func (a *App) readM(n int, m trMeasurement) {
	a.deliver(n, []trMeasurement{m})
}

func headTail(s string) string {
	if len(s) > 60 {
		return s[:60] + "…"
	}
	return s
}

var _ = strings.Split
