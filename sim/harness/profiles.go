package harness

import (
	"fmt"
	"strings"
	"time"

	"simverif/simrt"
)

// G generates scenarios.
type G struct {
	r  *simrt.Rand
	sc *Scenario
}

// Props lists the properties with a profile.
var Props = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29"}

// Gen builds the scenario of a seed for a property.
func Gen(prop string, seed uint64) *Scenario {
	var pn uint64
	fmt.Sscanf(prop[1:], "%d", &pn)
	r := simrt.NewRand(simrt.Mix(seed, 1000+pn))
	g := &G{r: r, sc: &Scenario{Profile: prop, Seed: r.Uint64(), Sched: r.Uint64()}}
	g.net()
	g.strategy()
	g.config()
	g.profile(prop, seed)
	return g.sc
}

// profile fills in the workload that exercises a property.
func (g *G) profile(prop string, seed uint64) {
	switch prop {
	case "C01":
		g.compressed(seed)
	case "C02":
		g.compact()
	case "C03":
		g.undecodable()
	case "C04":
		g.caches()
	case "C05":
		g.blocks()
	case "C06":
		g.commands()
	case "C07":
		g.metadata()
	case "C08":
		g.setup()
	case "C09":
		g.recovery()
	case "C10":
		g.retries()
	case "C11":
		g.stopping()
	case "C12":
		g.pairing()
	case "C13":
		g.listening()
	case "C14":
		g.hostile()
	case "C15":
		g.handlers()
	case "C16":
		g.reading()
	case "C17":
		g.statistics()
	case "C18":
		g.threads()
	case "C19":
		g.notifications()
	case "C20":
		g.resubscribing()
	case "C21":
		g.requests()
	case "C22":
		g.filters()
	case "C23":
		g.refusals()
	case "C24":
		g.several()
	case "C25":
		g.racing()
	case "C26":
		g.states()
	case "C27":
		g.addresses()
	case "C28":
		g.longUse()
	case "C29":
		g.printing()
	default:
		panic("unknown property " + prop)
	}
	switch prop {
	case "C02", "C08", "C09", "C14", "C17", "C20":
		for i := range g.sc.Conns {
			if g.p(0.3) {
				g.sc.Conns[i].Stray = 1 + g.r.Intn(3)
			}
		}
	}
}

func (g *G) p(x float64) bool { return g.r.P(x) }

func (g *G) d(max time.Duration) int64 { return int64(g.r.Uint64() % uint64(max)) }

// logd picks a duration whose magnitude is uniform.
func (g *G) logd(min, max time.Duration) int64 { return g.r.LogRange(int64(min), int64(max)) }

func (g *G) net() {
	n := &g.sc.Net
	n.LatMin = simrt.Pick(g.r, int64(0), 10_000, 200_000, 5*ms)
	n.LatMax = n.LatMin + simrt.Pick(g.r, int64(1), 50_000, 2*ms, 50*ms)
	n.SegMax = simrt.Pick(g.r, 1, 3, 64, 700, 1460, 1<<20, 1<<20)
	n.Buf = simrt.Pick(g.r, 256, 4096, 65536, 65536, 1<<20)
}

func (g *G) strategy() {
	st := &g.sc.Strat
	switch g.r.Intn(10) {
	case 0:
		*st = simrt.Strategy{Name: "quiet"}
	case 1, 2:
		*st = simrt.Strategy{Name: "switch at synchronisation", PSync: simrt.Pick(g.r, 0.05, 0.2, 0.5), Random: true}
	case 3, 4:
		*st = simrt.Strategy{Name: "switch anywhere", PPreempt: simrt.Pick(g.r, 0.001, 0.01, 0.05), PSync: simrt.Pick(g.r, 0.0, 0.1, 0.3), Random: true}
	case 5, 6:
		*st = simrt.Strategy{Name: "few switches (PCT)", PCT: 1 + g.r.Intn(5), PCTSpan: simrt.Pick(g.r, 2000, 20000, 100000), PSync: simrt.Pick(g.r, 0.0, 0.05)}
	case 7, 8:
		*st = simrt.Strategy{Name: "stalls", PPreempt: simrt.Pick(g.r, 0.0, 0.0005, 0.005), PSync: simrt.Pick(g.r, 0.05, 0.2), PStall: simrt.Pick(g.r, 0.01, 0.1, 0.3), MaxStall: simrt.Pick(g.r, int64(2*ms), 50*ms, 1000*ms), Random: true}
	case 9:
		*st = simrt.Strategy{Name: "round robin", PSync: 1}
	}
}

func (g *G) config() {
	c := &g.sc.Cfg
	c.MaxRetries = -1
	c.RetryInterval = simrt.Pick(g.r, int32(50), 200, 1000)
	c.MaxRetryInterval = c.RetryInterval * simrt.Pick(g.r, int32(1), 4, 30)
	c.AutoReconnect = true
	c.AutoMeta = g.p(0.5)
	c.AutoSub = true
	c.CompPayload = g.p(0.7)
	c.CompMeta = g.p(0.6)
	c.CompCache = g.p(0.6)
	c.Version = simrt.Pick(g.r, byte(2), 2, 2, 1)
	c.RFC = true
	g.sc.Signals = simrt.Pick(g.r, 1, 2, 7, 30, 120)
	g.sc.MetaN = g.r.Intn(6)
	g.sc.Sets = []SetS{g.set(false)}
	g.sc.Vary = simrt.Pick(g.r, 0.0, 0.0, 0.1, 0.5)
	g.sc.App.Pool = simrt.Pick(g.r, 0.0, 0.5, 1.0)
	if g.p(0.3) {
		g.sc.App.Slow, g.sc.App.SlowMax = simrt.Pick(g.r, 0.02, 0.3), simrt.Pick(g.r, int64(1*ms), 30*ms, 500*ms)
	}
	g.sc.App.Query = g.p(0.3)
}

const letters = "FILTER ActiveMeasurements WHERE SignalType='FREQ'"

func (g *G) set(udp bool) SetS {
	s := SetS{PublishInterval: 1, IncludeTime: true, Lag: 10, Lead: 5, Interval: -1, Filter: letters}
	if udp {
		s.UDP = uint16(9600 + g.r.Intn(4))
	}
	return s
}

// timing sets the options that decide how compact measurements carry time.
func (g *G) timing(s *SetS) {
	s.IncludeTime = g.p(0.8)
	s.Millis = g.p(0.5)
}

func (g *G) main(ops ...Op)             { g.sc.Main = append(g.sc.Main, ops...) }
func (g *G) conn(s ConnScript)          { g.sc.Conns = append(g.sc.Conns, s) }
func (g *G) side(ops ...Op)             { g.sc.Side = append(g.sc.Side, ops) }
func op(k string) Op                    { return Op{K: k} }
func opD(k string, d int64) Op          { return Op{K: k, D: d} }
func opN(k string, n int) Op            { return Op{K: k, N: n} }
func (g *G) sleep(max time.Duration) Op { return opD("sleep", g.logd(time.Microsecond, max)) }

// connect appends the ops that start a session in the chosen role.
func (g *G) connect() {
	if g.sc.Listen {
		g.main(op("listen"))
	} else {
		g.main(op("dial"))
	}
}

// mixed builds a publisher script out of weighted kinds of steps.
func (g *G) mixed(n int, pool []PubOp) (ops []PubOp) {
	for i := 0; i < n; i++ {
		o := pool[g.r.Intn(len(pool))]
		if o.K == "stream" {
			o.N = 1 + g.r.Intn(o.N)
			if g.p(0.5) {
				o.D = g.logd(time.Microsecond, 200*time.Millisecond)
			}
		}
		ops = append(ops, o)
	}
	return
}

// losses makes some connections of the scenario break and be replaced; the last one stays.
func (g *G) losses(n int, script func() ConnScript) {
	for i := 0; i <= n; i++ {
		s := script()
		if i < n {
			switch g.r.Intn(4) {
			case 0, 1:
				s.CutAt = g.r.LogRange(1, 60000)
				s.CutRst = g.p(0.5)
			case 2:
				s.CutIn = g.r.LogRange(1, 2000)
				s.CutRst = g.p(0.5)
			case 3:
				s.Ops = append(s.Ops, PubOp{K: simrt.Pick(g.r, "close", "rst")})
			}
		}
		s.Linger = true
		if g.sc.Listen {
			s.Pause = simrt.Pick(g.r, int64(0), 10*ms, 2*sec)
		}
		g.conn(s)
	}
}

// play appends: let the scripts run, heal, stream again, check everything, optionally without the loss part.
func (g *G) play() {
	g.main(opN("waitscript", len(g.sc.Conns)-1), op("heal"), op("waitstream"), op("flush"))
}

func (g *G) noise() {
	for i := g.r.Intn(3); i > 0; i-- {
		var ops []Op
		for j := 1 + g.r.Intn(5); j > 0; j-- {
			ops = append(ops, g.sleep(time.Second), op(simrt.Pick(g.r, "query", "lookup", "query")))
		}
		g.side(ops...)
	}
}

var tsscPool = []PubOp{
	{K: "stream", N: 40, M: 10}, {K: "stream", N: 100, M: 3}, {K: "stream", N: 20, M: 60}, {K: "stream", N: 20, M: 200},
	{K: "big", M: 500}, {K: "cache"}, {K: "tsscreset"}, {K: "noop"}, {K: "notify", N: 1, M: 100}, {K: "sleep", D: 300 * ms}, {K: "stall", D: 3 * sec}, {K: "barrier"}, {K: "conf"},
}

func (g *G) compressed(seed uint64) {
	sc := g.sc
	sc.Cfg.CompPayload = true
	sc.Cfg.RFC = g.p(0.8)
	sc.Listen = g.p(0.15)
	sc.Vary = simrt.Pick(g.r, 0.0, 0.05, 0.3)
	g.main(opN("sub", 0))
	if seed%97 == 13 {
		// Sequence number roll-over: more packets than there are numbers.
		sc.Long = 1
		sc.Strat = simrt.Strategy{Name: "quiet", PSync: simrt.Pick(g.r, 0.0, 0.01)}
		sc.Net.SegMax, sc.Net.Buf = 1<<20, 1<<20
		sc.App.Slow, sc.App.Query = 0, false
		sc.Signals = 2
		g.conn(ConnScript{Ops: []PubOp{{K: "fast", N: 65600 + g.r.Intn(200), M: 1}, {K: "stream", N: 20, M: 20}}, Linger: true})
		g.connect()
		g.main(opN("waitscript", 0), op("flush"))
		return
	}
	n := simrt.Pick(g.r, 0, 0, 1, 2)
	g.losses(n, func() ConnScript {
		return ConnScript{Ops: g.mixed(2+g.r.Intn(8), tsscPool), Delay: simrt.Pick(g.r, int64(0), 20*ms)}
	})
	if g.p(0.03) {
		sc.Conns[len(sc.Conns)-1].Ops = append(sc.Conns[len(sc.Conns)-1].Ops, PubOp{K: "big", M: 12000})
	}
	g.connect()
	g.noise()
	g.play()
}

var compactPool = []PubOp{
	{K: "stream", N: 40, M: 10}, {K: "stream", N: 60, M: 3}, {K: "stream", N: 20, M: 60}, {K: "big", M: 300}, {K: "cache"}, {K: "basetimes"}, {K: "basetimes"}, {K: "keys"},
	{K: "noop"}, {K: "notify", N: 1, M: 50}, {K: "sleep", D: 300 * ms}, {K: "stall", D: 2 * sec}, {K: "barrier"},
}

func (g *G) compact() {
	sc := g.sc
	udp := g.p(0.5)
	sc.Sets = []SetS{g.set(udp)}
	g.timing(&sc.Sets[0])
	sc.Cfg.RFC = g.p(0.8)
	if udp {
		sc.Cfg.Version = 2
		sc.Net.UDPLoss = simrt.Pick(g.r, 0.0, 0.1, 0.4)
		sc.Net.UDPDup = simrt.Pick(g.r, 0.0, 0.1)
		sc.Net.UDPDelay = simrt.Pick(g.r, int64(0), 5*ms, 300*ms)
	} else {
		sc.Cfg.CompPayload = false
		sc.Listen = g.p(0.15)
	}
	g.main(opN("sub", 0))
	n := simrt.Pick(g.r, 0, 0, 0, 1, 2)
	g.losses(n, func() ConnScript {
		ops := g.mixed(3+g.r.Intn(9), compactPool)
		if g.p(0.04) {
			ops = append(ops, PubOp{K: "big", M: simrt.Pick(g.r, 1200, 2500, 4000)})
		}
		return ConnScript{Ops: ops, Delay: simrt.Pick(g.r, int64(0), 20*ms)}
	})
	g.connect()
	g.noise()
	g.play()
}

func (g *G) undecodable() {
	sc := g.sc
	sc.Cfg.Version = simrt.Pick(g.r, byte(2), 2, 2, 1)
	sc.Listen = g.p(0.1)
	if g.p(0.3) {
		g.timing(&sc.Sets[0])
	}
	g.main(opN("sub", 0))
	pool := []PubOp{{K: "stream", N: 20, M: 10}, {K: "gap", N: 1, M: 8}, {K: "gap", N: 3, M: 20}, {K: "resend", N: 4}, {K: "nocache", M: 10}, {K: "overcount", M: 10}, {K: "unknown", M: 10}, {K: "unknown", M: 3},
		{K: "cache"}, {K: "sleep", D: 200 * ms}, {K: "barrier"}, {K: "tsscreset"}, {K: "basetimes"}}
	if !sc.Cfg.CompPayload {
		// Only a compressed packet delimits itself well enough to go on after it.
		pool = append(pool[:5], pool[6:]...)
	}
	n := simrt.Pick(g.r, 0, 0, 1)
	g.losses(n, func() ConnScript {
		ops := g.mixed(3+g.r.Intn(8), pool)
		if g.p(0.3) {
			ops = append([]PubOp{{K: "nocache", M: 10}}, ops...)
		}
		return ConnScript{Ops: ops}
	})
	if !sc.Cfg.CompPayload && n > 0 && g.p(0.6) {
		sc.Conns[0].Ops = append(sc.Conns[0].Ops, PubOp{K: "overcount", M: 12}, PubOp{K: "sleep", D: sec}, PubOp{K: "close"})
	}
	if n > 0 && g.p(0.5) {
		sc.Conns[0].Ops = append(sc.Conns[0].Ops, PubOp{K: "truncated", M: simrt.Pick(g.r, 1, 3, 12)}, PubOp{K: "sleep", D: sec}, PubOp{K: "close"})
	}
	g.connect()
	g.main(opN("waitscript", len(sc.Conns)-1), op("stats"), op("heal"), op("waitstream"), op("flush"))
}

func (g *G) caches() {
	sc := g.sc
	if g.p(0.1) {
		sc.App.Without = "subupd"
	}
	sc.Listen = g.p(0.15)
	sc.Cfg.RFC = g.p(0.7)
	udp := g.p(0.15)
	if udp {
		sc.Sets = []SetS{g.set(true)}
		sc.Cfg.Version = 2
	}
	if g.p(0.06) {
		sc.Signals = simrt.Pick(g.r, 400, 400, 3000)
	}
	g.main(opN("sub", 0))
	pool := []PubOp{{K: "stream", N: 15, M: 10}, {K: "cache"}, {K: "cache"}, {K: "cache"}, {K: "stream", N: 5, M: 30}, {K: "sleep", D: 100 * ms}, {K: "barrier"}, {K: "stall", D: sec}, {K: "nocache", M: 5}, {K: "tsscreset"}}
	g.losses(simrt.Pick(g.r, 0, 1, 2, 3), func() ConnScript {
		ops := g.mixed(3+g.r.Intn(10), pool)
		if g.p(0.3) {
			ops = append([]PubOp{{K: "nocache", M: 10}}, ops...)
		}
		return ConnScript{Ops: ops, Delay: simrt.Pick(g.r, int64(0), 50*ms)}
	})
	g.connect()
	if g.p(0.3) {
		g.side(g.sleep(time.Second), opN("sub", 0), g.sleep(time.Second), opN("sub", 0))
	}
	g.noise()
	g.play()
}

func (g *G) blocks() {
	sc := g.sc
	if g.p(0.1) {
		sc.App.Without = "blocks"
	}
	sc.Listen = g.p(0.15)
	g.main(opN("sub", 0))
	pool := []PubOp{{K: "block", N: 10, M: 3}, {K: "block", N: 30, M: 0}, {K: "block", N: 25, M: 12}, {K: "block", N: 3, M: 1}, {K: "stream", N: 5, M: 5}, {K: "cache"}, {K: "barrier"}, {K: "sleep", D: 100 * ms}}
	if g.p(0.3) {
		for i := 0; i < 8; i++ {
			pool[g.r.Intn(4)].D = 50 * ms
		}
	}
	if g.p(0.01) {
		sc.Net.SegMax, sc.Net.Buf = 1<<20, 1<<20
		g.conn(ConnScript{Ops: append(g.mixed(g.r.Intn(3), pool), PubOp{K: "blockmem", N: 60, M: 120000}), Linger: true})
	} else {
		g.losses(simrt.Pick(g.r, 0, 1, 1, 2), func() ConnScript {
			s := ConnScript{Ops: g.mixed(3+g.r.Intn(8), pool)}
			return s
		})
	}
	g.connect()
	g.play()
}

func (g *G) commands() {
	sc := g.sc
	if g.p(0.6) {
		// Transport level: user defined commands of any size from many threads.
		sc.Direct = true
		sc.Sets[0].Filter = g.filter()
		sc.Strat.PStall = 0
		n := 1 + g.r.Intn(5)
		for i := 0; i < n; i++ {
			var ops []Op
			for j := 1 + g.r.Intn(4); j > 0; j-- {
				max := simrt.Pick(g.r, int64(10), 100, 5000, 40000, 200000)
				switch g.r.Intn(6) {
				case 0:
					ops = append(ops, opN("dmsg", 1+g.r.Intn(5)))
				default:
					ops = append(ops, Op{K: "cmds", N: 1 + g.r.Intn(6), D: max})
				}
			}
			g.side(ops...)
		}
		g.conn(ConnScript{Ops: []PubOp{{K: "notify", N: 1 + g.r.Intn(10)}, {K: "sleep", D: 20 * ms}, {K: "notify", N: 3}}, Linger: true})
		if g.p(0.2) {
			sc.Conns[0].Ops = append(sc.Conns[0].Ops, PubOp{K: "stallin", D: 2 * sec})
		}
		return
	}
	sc.Cfg.Filters = strings.Repeat("FILTER MeasurementDetail WHERE True;", simrt.Pick(g.r, 0, 1, 20, 2000))
	sc.Listen = g.p(0.1)
	sc.Sets = nil
	for i := 0; i < 4; i++ {
		s := g.set(false)
		s.Filter = g.filter()
		sc.Sets = append(sc.Sets, s)
	}
	g.main(opN("sub", 0))
	pool := []PubOp{{K: "notify", N: 5, M: 50}, {K: "block", N: 10, M: 2}, {K: "cache"}, {K: "conf"}, {K: "sleep", D: 50 * ms}, {K: "stream", N: 5, M: 5}, {K: "stallin", D: sec}}
	g.losses(simrt.Pick(g.r, 0, 0, 1), func() ConnScript { return ConnScript{Ops: g.mixed(4+g.r.Intn(6), pool)} })
	g.connect()
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		var ops []Op
		for j := 2 + g.r.Intn(6); j > 0; j-- {
			ops = append(ops, simrt.Pick(g.r, op("meta"), opN("sub", g.r.Intn(4)), g.sleep(100*time.Millisecond), op("meta")))
		}
		g.side(ops...)
	}
	g.play()
}

func (g *G) filter() string {
	n := simrt.Pick(g.r, 0, 30, 300, 5000, 33000, 70000)
	if n == 0 {
		return ""
	}
	var b strings.Builder
	for b.Len() < n {
		fmt.Fprintf(&b, "FILTER Meas WHERE ID = %d", g.r.Uint64())
		if g.p(0.5) {
			b.WriteString(" AND Name LIKE 'x%'")
		}
		b.WriteString(simrt.Pick(g.r, " OR ", " AND ", ", "))
	}
	return b.String()
}

func (g *G) metadata() {
	sc := g.sc
	sc.MetaOdd = simrt.Pick(g.r, 0.0, 0.0, 0.05, 0.3)
	sc.Cfg.AutoMeta = g.p(0.8)
	sc.Cfg.CompMeta = g.p(0.4)
	sc.MetaN = simrt.Pick(g.r, 0, 3, 20, 60)
	sc.Signals = simrt.Pick(g.r, 1, 4, 10)
	sc.Listen = g.p(0.1)
	sc.Cfg.Filters = simrt.Pick(g.r, "", "FILTER MeasurementDetail WHERE SignalAcronym <> 'STAT'")
	g.main(opN("sub", 0))
	pool := []PubOp{{K: "conf"}, {K: "stream", N: 30, M: 10}, {K: "stream", N: 10, M: 40}, {K: "notify", N: 2, M: 4000}, {K: "sleep", D: 200 * ms}, {K: "cache"}, {K: "noop"}, {K: "done"}}
	g.losses(simrt.Pick(g.r, 0, 0, 1, 2), func() ConnScript {
		return ConnScript{Ops: g.mixed(3+g.r.Intn(6), pool), MetaFail: g.p(0.05), Delay: simrt.Pick(g.r, int64(0), 20*ms)}
	})
	g.connect()
	for i := g.r.Intn(4); i > 0; i-- {
		var ops []Op
		for j := 1 + g.r.Intn(5); j > 0; j-- {
			ops = append(ops, g.sleep(time.Second), op(simrt.Pick(g.r, "lookup", "lookup", "meta", "query")))
		}
		g.side(ops...)
	}
	g.play()
	if g.p(0.5) {
		g.main(op("meta"), op("flush"), op("lookup"), op("meta"), op("lookup"), op("flush"))
	}
}

func (g *G) setup() {
	sc := g.sc
	sc.Cfg.AutoMeta, sc.Cfg.AutoSub = g.p(0.5), g.p(0.85)
	sc.Cfg.Filters = simrt.Pick(g.r, "", "FILTER A WHERE B", strings.Repeat("FILTER A WHERE B;", 300))
	sc.Listen = g.p(0.25)
	sc.App.NoMeta = g.p(0.15)
	if g.p(0.3) {
		sc.App.EventSlow = simrt.Pick(g.r, int64(5*ms), 500*ms)
	}
	if g.p(0.25) {
		sc.Sets = []SetS{g.set(true)}
		sc.Cfg.Version = 2
	}
	g.main(opN("sub", 0))
	modes := func() string {
		if sc.Cfg.Version < 2 {
			return simrt.Pick(g.r, "", "", "", "silent", "closeearly", "rstearly")
		}
		return simrt.Pick(g.r, "", "", "", "noopfirst", "silent", "closeearly", "rstearly", "fail", "failkeep")
	}
	n := g.r.Intn(4)
	g.losses(n, func() ConnScript {
		s := ConnScript{Delay: simrt.Pick(g.r, int64(0), 20*ms, 2*sec), Modes: modes(), Ops: g.mixed(g.r.Intn(4), []PubOp{{K: "stream", N: 5, M: 3}, {K: "sleep", D: 500 * ms}, {K: "conf"}, {K: "noop"}})}
		if s.Modes == "silent" || s.Modes == "failkeep" {
			s.Ops = []PubOp{{K: "sleep", D: 2 * sec}, {K: "close"}}
		}
		return s
	})
	last := &sc.Conns[len(sc.Conns)-1]
	last.Modes = simrt.Pick(g.r, "", "noopfirst")
	if sc.Cfg.Version < 2 {
		last.Modes = ""
	}
	last.Ops = g.mixed(g.r.Intn(3), []PubOp{{K: "sleep", D: 500 * ms}, {K: "noop"}})
	g.connect()
	if g.p(0.15) {
		// Another thread uses the session as soon as it exists.
		g.side(g.sleep(100*time.Millisecond), op("meta"), g.sleep(100*time.Millisecond), opN("sub", 0))
	}
	g.main(opN("waitscript", len(sc.Conns)-1), op("heal"), op("waitconn"))
	if !sc.Cfg.AutoMeta && g.p(0.3) {
		g.main(op("meta"))
	}
	g.main(op("setup"))
	if sc.Cfg.AutoSub {
		g.main(op("waitstream"), op("flush"))
	}
}

func (g *G) badDials(n int) {
	for i := 0; i < n; i++ {
		g.sc.Dials = append(g.sc.Dials, DialPlan{Fail: simrt.Pick(g.r, "", "refused", "timeout"), Delay: g.logd(10*time.Microsecond, 3*time.Second)})
	}
}

// faulty builds connections that fail in all the ways there are.
func (g *G) faulty(n int) {
	sc := g.sc
	modes := func() string {
		if sc.Cfg.Version < 2 {
			return simrt.Pick(g.r, "", "", "silent", "closeearly", "rstearly")
		}
		return simrt.Pick(g.r, "", "", "", "noopfirst", "silent", "closeearly", "rstearly", "fail")
	}
	pool := []PubOp{{K: "stream", N: 20, M: 5}, {K: "stream", N: 5, M: 30}, {K: "cache"}, {K: "notify", N: 2}, {K: "conf"}, {K: "sleep", D: sec}, {K: "stall", D: 5 * sec}, {K: "stallin", D: 5 * sec}, {K: "basetimes"}, {K: "block", N: 5, M: 2}, {K: "start"}}
	if !sc.Cfg.CompPayload {
		pool = append(pool, PubOp{K: "keys"})
	}
	for i := 0; i < n; i++ {
		s := ConnScript{Modes: modes(), Delay: simrt.Pick(g.r, int64(0), 0, 50*ms, sec), Ops: g.mixed(g.r.Intn(6), pool), Linger: true, SubFail: simrt.Pick(g.r, 0, 0, 0, 1)}
		if s.Modes == "silent" {
			s.Ops = []PubOp{{K: "sleep", D: 3 * sec}}
		}
		switch g.r.Intn(5) {
		case 0, 1:
			s.CutAt = g.r.LogRange(1, 30000)
			s.CutRst = g.p(0.5)
		case 2:
			s.CutIn = g.r.LogRange(1, 1500)
			s.CutRst = g.p(0.5)
		}
		s.Ops = append(s.Ops, PubOp{K: simrt.Pick(g.r, "close", "rst")})
		if sc.Listen {
			s.Pause = simrt.Pick(g.r, int64(0), 10*ms, 3*sec)
		}
		g.conn(s)
	}
}

func (g *G) steady() ConnScript {
	return ConnScript{Ops: []PubOp{{K: "stream", N: 30, M: 5, D: 50 * ms}}, Linger: true}
}

func (g *G) recovery() {
	sc := g.sc
	sc.Listen = g.p(0.35)
	udp := g.p(0.2)
	if udp {
		sc.Sets = []SetS{g.set(true)}
		sc.Cfg.Version = 2
	}
	g.main(opN("sub", 0))
	n := 1 + g.r.Intn(5)
	g.faulty(n)
	if !sc.Listen {
		g.badDials(g.r.Intn(8))
		sc.Net.LookupErr = g.p(0.05)
	}
	if g.p(0.3) {
		sc.App.EventSlow = simrt.Pick(g.r, int64(5*ms), 300*ms)
	}
	if g.p(0.2) {
		// Sessions the application ended itself come first.
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			if g.p(0.4) && !sc.Listen {
				g.main(op("listen"), g.sleep(time.Second), op("disconnect"), op("waitdown"))
			} else {
				sc.Conns = append([]ConnScript{g.steady()}, sc.Conns...)
				g.connect2()
				if g.p(0.7) {
					g.main(op("waitsub"))
				}
				g.main(g.sleep(2*time.Second), op("disconnect"))
				if !sc.Listen {
					g.main(op("joindial"))
				}
				g.main(op("waitdown"))
			}
		}
	}
	if sc.Net.LookupErr {
		g.main(op("godial"), opD("sleep", g.d(5*time.Second)), op("heal"), op("waitstream"), op("flush"))
		return
	}
	if sc.Listen {
		g.connect()
	} else {
		g.main(op("godial"))
	}
	var ops []Op
	for i := g.r.Intn(4); i > 0; i-- {
		ops = append(ops, g.sleep(5*time.Second), simrt.Pick(g.r, op("down"), op("up"), opN("cut", g.r.Intn(2))))
		if sc.Listen && g.p(0.3) {
			ops = append(ops, opN("acceptfault", 1+g.r.Intn(3)))
		}
	}
	g.main(ops...)
	if g.p(0.3) {
		g.side(g.sleep(10*time.Second), opN("sub", 0), g.sleep(10*time.Second), opN("sub", 0))
	}
	g.main(op("up"), opD("sleep", g.d(60*time.Second)), op("heal"), op("waitstream"), op("flush"))
	if g.p(0.5) {
		g.main(opN("cut", g.r.Intn(2)), op("waitstream"), op("flush"))
	}
}

func (g *G) retries() {
	sc := g.sc
	c := &sc.Cfg
	c.MaxRetries = simrt.Pick(g.r, int32(-1), 0, 1, 2, 3, 5, 8)
	c.RetryInterval = simrt.Pick(g.r, int32(1), 100, 1000, 5000, 60000)
	c.MaxRetryInterval = simrt.Pick(g.r, c.RetryInterval, c.RetryInterval*3, c.RetryInterval*20, c.RetryInterval*500)
	if g.p(0.05) {
		c.MaxRetryInterval = c.RetryInterval/2 + 1
	}
	if g.p(0.08) {
		c.RetryInterval, c.MaxRetryInterval = simrt.Pick(g.r, int32(1<<29), 1<<30, 1<<20), 1<<31-1
	}
	if g.p(0.05) && c.MaxRetries >= 0 {
		c.RetryInterval = 0
	}
	if g.p(0.1) {
		c.AutoReconnect = false
	}
	sc.App.Slow, sc.App.EventSlow = 0, 0
	if sc.Strat.PStall > 0 && g.p(0.7) {
		sc.Strat.PStall = 0
	}
	g.main(opN("sub", 0))
	wait := func() int64 {
		// long enough to exhaust what is configured, or for several more retries
		d, w := int64(0), int64(c.RetryInterval)
		n := int(c.MaxRetries)
		if n < 0 {
			n = 6 + g.r.Intn(12)
		}
		for i := 0; i <= n+1; i++ {
			if w > int64(c.MaxRetryInterval) {
				w = int64(c.MaxRetryInterval)
			}
			d += w + 4000
			w *= 2
		}
		return d*ms + 60*sec
	}
	fails := func(n int) {
		for i := 0; i < n; i++ {
			sc.Dials = append(sc.Dials, DialPlan{Fail: simrt.Pick(g.r, "refused", "refused", "timeout"), Delay: g.logd(10*time.Microsecond, 3*time.Second)})
		}
	}
	okay := func() { sc.Dials = append(sc.Dials, DialPlan{Delay: g.logd(10*time.Microsecond, time.Second)}) }
	max := int(c.MaxRetries)
	if max < 0 {
		max = 20
	}
	good := func() {
		s := ConnScript{Ops: []PubOp{{K: "stream", N: 1 + g.r.Intn(5), M: 3}, {K: "wait", D: g.d(3 * time.Second)}, {K: simrt.Pick(g.r, "close", "rst")}}, MetaFail: g.p(0.25), SubFail: simrt.Pick(g.r, 0, 0, 0, 1)}
		if s.MetaFail || s.SubFail > 0 {
			s.Ops = append([]PubOp{{K: "sleep", D: 500 * ms}, {K: "notify", N: 1}, {K: "sleep", D: 500 * ms}}, s.Ops[1:]...)
		}
		g.conn(s)
		okay()
	}
	refuse := func(n int) {
		for i := 0; i < n; i++ {
			g.conn(ConnScript{Modes: "fail"})
			okay()
		}
	}
	if c.Version < 2 {
		c.Version = 2
	}
	for rounds := 1 + g.r.Intn(3); rounds > 0; rounds-- {
		switch g.r.Intn(7) {
		case 0: // never reachable: all attempts fail
			if c.MaxRetries >= 0 {
				g.main(op("down"), op("dial"), opD("sleep", wait()), op("up"))
				continue
			}
			g.main(op("down"), op("godial"), opD("sleep", wait()), op("disconnect"), op("joindial"), op("up"))
		case 1: // reachable after some failures, then lost, then unreachable
			if !c.AutoReconnect {
				continue
			}
			k := g.r.Intn(max + 1)
			fails(k)
			good()
			g.main(op("dial"), opN("waitdead", len(sc.Conns)-1), op("down"), opD("sleep", wait()), op("disconnect"), op("up"))
			return
		case 2: // lost and found several times
			if !c.AutoReconnect {
				continue
			}
			for i := 1 + g.r.Intn(3); i > 0; i-- {
				good()
				if max > 0 {
					fails(g.r.Intn(max))
				}
			}
			g.conn(g.steady())
			okay()
			if c.MaxRetries == 0 {
				g.main(op("dial"), opD("sleep", wait()), op("disconnect"))
				return
			}
			g.main(op("dial"), Op{K: "waitscript", N: len(sc.Conns) - 1, D: 4 * wait()}, op("disconnect"))
		case 3: // refused by the publisher again and again
			if !c.AutoReconnect {
				continue
			}
			n := max + 1
			if c.MaxRetries < 0 {
				n = 2 + g.r.Intn(6)
			}
			refuse(n)
			if c.MaxRetries >= 0 {
				g.main(op("dial"), opD("sleep", wait()), op("disconnect"))
				return
			}
			g.conn(g.steady())
			okay()
			g.main(op("dial"), Op{K: "waitscript", N: len(sc.Conns) - 1, D: 4 * wait()}, op("disconnect"))
		case 4, 6: // a mixture of failures, refusals and losses
			if !c.AutoReconnect || max < 2 {
				continue
			}
			left := max
			for n := 2 + g.r.Intn(8); n > 0 && left > 1; n-- {
				switch g.r.Intn(3) {
				case 0:
					fails(1)
					left--
				case 1:
					refuse(1)
					left--
				case 2:
					good()
					left = max
				}
			}
			g.conn(g.steady())
			okay()
			g.main(op("dial"), Op{K: "waitscript", N: len(sc.Conns) - 1, D: 4 * wait()}, op("disconnect"))
		case 5: // automatic reconnection off
			if c.AutoReconnect {
				continue
			}
			good()
			g.main(op("dial"), opN("waitdead", len(sc.Conns)-1), opD("sleep", wait()))
			return
		}
	}
}

// disturb appends operations of other threads around the moment of stopping.
func (g *G) disturb(span time.Duration) {
	n := g.r.Intn(3)
	for i := 0; i < n; i++ {
		var ops []Op
		for j := 1 + g.r.Intn(4); j > 0; j-- {
			ops = append(ops, g.sleep(span), simrt.Pick(g.r, opN("sub", 0), op("unsub"), op("meta"), op("query"), op("lookup"), Op{K: "set", S: simrt.Pick(g.r, "meas", "error", "status", "blocks")}))
		}
		g.side(ops...)
	}
}

func (g *G) stopping() {
	sc := g.sc
	sc.Listen = g.p(0.3)
	if g.p(0.25) {
		sc.Sets = []SetS{g.set(true)}
		sc.Cfg.Version = 2
	}
	if g.p(0.3) {
		sc.App.EventSlow = simrt.Pick(g.r, int64(5*ms), 300*ms)
	}
	if g.p(0.15) {
		sc.App.Reader = true
		sc.App.ReadStop = simrt.Pick(g.r, 0, 1, 20)
	}
	if g.p(0.2) {
		sc.App.Slow, sc.App.SlowMax = 0.5, simrt.Pick(g.r, int64(50*ms), 2*sec)
	}
	sc.Cfg.MaxRetries = simrt.Pick(g.r, int32(-1), -1, 3)
	sc.Cfg.RetryInterval = simrt.Pick(g.r, int32(1), 100, 2000, 3600000)
	sc.Cfg.MaxRetryInterval = sc.Cfg.RetryInterval * simrt.Pick(g.r, int32(1), 10)
	g.main(opN("sub", 0))
	if sc.App.Reader {
		g.main(op("reader"))
	}
	g.faulty(g.r.Intn(4))
	if g.p(0.5) {
		g.conn(g.steady())
	}
	if !sc.Listen {
		g.badDials(g.r.Intn(5))
	}
	if !sc.App.Reader && g.p(0.15) {
		sc.App.DisconnectIn = simrt.Pick(g.r, "meas", "status", "error", "est", "term", "subupd", "notif", "meta")
		sc.App.DisconnectAt = g.r.Intn(4)
	}
	span := simrt.Pick(g.r, time.Millisecond, 20*time.Millisecond, 300*time.Millisecond, 3*time.Second, 20*time.Second)
	g.disturb(span)
	rounds := 1 + g.r.Intn(3)
	for i := 0; i < rounds; i++ {
		godial := false
		if sc.Listen {
			if g.p(0.25) {
				// other threads ask to disconnect meanwhile
				g.main(opN("disconnects", 1+g.r.Intn(3)))
				if g.p(0.5) {
					g.main(g.sleep(100 * time.Microsecond))
				}
			}
			g.main(op("listen"))
		} else if g.p(0.2) && sc.Cfg.MaxRetries >= 0 && sc.Cfg.RetryInterval < 5000 {
			g.main(op("dial"))
		} else {
			g.main(op("godial"))
			godial = true
		}
		switch g.r.Intn(5) {
		case 0:
			g.main(op("waitconn2"))
		case 1:
			g.main(op("waitsub"))
		}
		if g.p(0.9) {
			g.main(g.sleep(span))
		}
		if g.p(0.15) {
			g.main(op("afterread"))
		}
		if g.p(0.3) {
			g.main(simrt.Pick(g.r, op("down"), opN("cut", g.r.Intn(2)), opN("cut", g.r.Intn(2))))
			if g.p(0.6) {
				g.main(g.sleep(span))
			}
		}
		if i == rounds-1 && g.p(0.25) {
			// Closed without a disconnect before.
			g.main(op("close"))
			if godial {
				g.main(op("joindial"))
			}
			return
		}
		switch g.r.Intn(6) {
		case 0:
			g.main(opN("disconnects", 1+g.r.Intn(3)))
			if g.p(0.5) {
				g.main(g.sleep(span))
			}
			g.main(op("disconnect"))
		default:
			g.main(op("disconnect"))
		}
		if godial {
			g.main(op("joindial"))
		}
		if i == rounds-1 && g.p(0.5) {
			if g.p(0.5) {
				g.main(op("close"))
			}
			break
		}
		g.main(op("waitdown"))
		if g.p(0.4) {
			g.main(opD("quiet", g.logd(time.Second, 200*time.Second)))
		}
		g.main(op("up"))
	}
	if g.p(0.4) && sc.App.DisconnectIn == "" && sc.Main[len(sc.Main)-1].K != "close" && sc.Cfg.RetryInterval < 5000 && !sc.App.Reader {
		// After a plain disconnect the application can connect again.
		sc.Cfg.MaxRetries = -1
		g.main(op("up"), op("sides"), op("waitdown"), op("heal"), opN("sub", 0), op("sethandlers"))
		if sc.Listen {
			g.main(op("listen"))
		} else {
			g.main(op("dial"))
		}
		g.main(op("waitstream"), op("disconnect"), op("waitdown"))
	}
	if g.p(0.5) {
		g.main(op("close"))
	}
}

func (g *G) pairing() {
	sc := g.sc
	sc.Listen = g.p(0.3)
	if g.p(0.3) {
		sc.App.EventSlow = simrt.Pick(g.r, int64(5*ms), 500*ms)
	}
	sc.App.Query = true
	g.main(opN("sub", 0))
	g.faulty(1 + g.r.Intn(5))
	if !sc.Listen {
		g.badDials(g.r.Intn(5))
	}
	g.conn(g.steady())
	if g.p(0.15) {
		sc.App.DisconnectIn = simrt.Pick(g.r, "est", "term", "meas")
		sc.App.DisconnectAt = g.r.Intn(3)
	}
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		if sc.Listen && g.p(0.7) {
			g.main(op("listen"))
		} else {
			g.main(op("godial"))
		}
		g.main(g.sleep(simrt.Pick(g.r, time.Millisecond, 300*time.Millisecond, 20*time.Second)))
		if g.p(0.3) {
			g.main(opN("cut", g.r.Intn(2)))
		}
		if g.p(0.3) {
			g.main(op("waitconn2"))
		}
		g.main(op("disconnect"), op("joindial"))
		if g.p(0.8) {
			g.main(op("waitdown"))
		}
	}
	g.disturb(2 * time.Second)
}

func (g *G) listening() {
	sc := g.sc
	sc.Listen = true
	g.main(opN("sub", 0))
	if g.p(0.3) {
		sc.App.EventSlow = simrt.Pick(g.r, int64(5*ms), 300*ms)
	}
	n := g.r.Intn(4)
	g.faulty(n)
	for i := 0; i < 3; i++ {
		g.conn(ConnScript{Ops: []PubOp{{K: "stream", N: 20, M: 5, D: 30 * ms}, {K: "sleep", D: sec}}, Linger: true})
	}
	sc.Net.LookupErr, sc.Net.LookupWait = g.p(0.3), simrt.Pick(g.r, int64(0), 10*ms, 2*sec)
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		g.main(op("listen"))
		for j := g.r.Intn(5); j > 0; j-- {
			g.main(g.sleep(3*time.Second), simrt.Pick(g.r, Op{K: "rogue", S: simrt.Pick(g.r, "", "garbage", "publisher", "leave")}, Op{K: "rogue", S: ""}, opN("cut", g.r.Intn(2)), opN("acceptfault", 1+g.r.Intn(3))))
		}
		if g.p(0.6) {
			g.main(op("heal"), op("waitstream"), op("flush"))
			if g.p(0.5) {
				g.main(Op{K: "rogue", S: simrt.Pick(g.r, "", "garbage", "publisher")}, op("waitstream"), op("flush"))
			}
			if g.p(0.5) {
				g.main(opN("cut", g.r.Intn(2)), op("waitstream"), op("flush"))
			}
		}
		g.main(g.sleep(2*time.Second), op("disconnect"))
		if g.p(0.7) {
			g.main(op("waitdown"))
		}
	}
}

func (g *G) hostile() {
	sc := g.sc
	sc.Hostile = true
	sc.Listen = g.p(0.2)
	udp := g.p(0.25)
	if udp {
		sc.Sets = []SetS{g.set(true)}
		sc.Cfg.Version = 2
	}
	if g.p(0.3) {
		g.timing(&sc.Sets[0])
	}
	g.main(opN("sub", 0))
	n := 1 + g.r.Intn(3)
	for i := 0; i < n; i++ {
		s := ConnScript{Linger: true}
		if sc.Cfg.Version >= 2 && g.p(0.35) {
			s.Modes = simrt.Pick(g.r, "bad-http", "bad-size", "bad-data", "bad-command", "bad-short", "bad-empty", "bad-code")
		} else {
			k := 1 + g.r.Intn(6)
			s.Ops = g.mixed(g.r.Intn(3), []PubOp{{K: "stream", N: 5, M: 10}, {K: "basetimes"}, {K: "cache"}, {K: "keys"}, {K: "block", N: 3}})
			for j := 0; j < k; j++ {
				s.Ops = append(s.Ops, PubOp{K: "hostile", N: g.r.Intn(16), D: simrt.Pick(g.r, int64(0), 50*ms)})
				if g.p(0.3) {
					s.Ops = append(s.Ops, PubOp{K: "stream", N: 3, M: 5})
				}
			}
			s.Ops = append(s.Ops, PubOp{K: "wait", D: simrt.Pick(g.r, int64(0), 3*sec)})
			if g.p(0.5) {
				s.Ops = append(s.Ops, PubOp{K: simrt.Pick(g.r, "close", "rst")})
			}
			if g.p(0.2) {
				s.CutAt = g.r.LogRange(1, 3000)
			}
		}
		g.conn(s)
		if g.p(0.15) {
			for j := 1 + g.r.Intn(3); j > 0; j-- {
				sc.Corrupt = append(sc.Corrupt, CorruptS{Conn: i, Off: g.r.LogRange(1, 3000) - 1, X: byte(1 << uint(g.r.Intn(8)))})
			}
		}
	}
	g.connect2()
	g.main(opN("waitscript", n-1), g.sleep(3*time.Second), op("heal"), op("waitstream"))
	if g.p(0.3) {
		g.main(opN("sub", 0), op("waitstream"))
	}
}

func (g *G) connect2() {
	if g.sc.Listen {
		g.main(op("listen"))
	} else {
		g.main(op("godial"))
	}
}

func (g *G) handlers() {
	sc := g.sc
	sc.App.Query = g.p(0.5)
	sc.App.AssignIn = simrt.Pick(g.r, 0, 0, 0.05, 0.3)
	sc.Listen = g.p(0.1)
	sc.Cfg.AutoMeta = true
	if g.p(0.3) {
		sc.App.EventSlow = simrt.Pick(g.r, int64(ms), 50*ms)
	}
	g.main(opN("sub", 0))
	pool := []PubOp{{K: "stream", N: 15, M: 5}, {K: "notify", N: 4}, {K: "start"}, {K: "done"}, {K: "ok"}, {K: "fail"}, {K: "conf"}, {K: "cache"}, {K: "block", N: 4, M: 1}, {K: "sleep", D: 30 * ms}, {K: "barrier"}}
	g.losses(simrt.Pick(g.r, 0, 0, 1), func() ConnScript { return ConnScript{Ops: g.mixed(6+g.r.Intn(10), pool)} })
	g.connect()
	never := map[string]bool{}
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		var ops []Op
		for j := 2 + g.r.Intn(10); j > 0; j-- {
			k := kinds[g.r.Intn(len(kinds))]
			n := 0
			if g.p(0.3) {
				n = 1
				never[k] = true
			}
			ops = append(ops, Op{K: "set", S: k, N: n})
			if g.p(0.5) {
				ops = append(ops, g.sleep(200*time.Millisecond))
			}
			if g.p(0.2) {
				ops = append(ops, op("query"))
			}
		}
		g.side(ops...)
	}
	g.main(op("sides"), op("sethandlers"))
	g.play()
	g.main(Op{K: "publish", S: "notify"}, Op{K: "publish", S: "done"}, Op{K: "publish", S: "fail"}, Op{K: "publish", S: "start"}, op("flush"))
	if g.p(0.3) {
		// Handlers replaced while the session ends.
		g.side(g.sleep(2*time.Second), Op{K: "set", S: "error"}, Op{K: "set", S: "term"}, Op{K: "set", S: "meas"})
	}
}

func (g *G) reading() {
	sc := g.sc
	sc.App.Reader = true
	sc.App.ReadSlow = simrt.Pick(g.r, int64(0), 100_000, 20*ms)
	sc.Listen = g.p(0.15)
	g.main(opN("sub", 0), op("reader"))
	pool := []PubOp{{K: "stream", N: 15, M: 8}, {K: "stream", N: 40, M: 2}, {K: "big", M: 100}, {K: "sleep", D: 200 * ms}, {K: "cache"}, {K: "notify", N: 1}}
	n := simrt.Pick(g.r, 0, 0, 1, 2)
	script := func() ConnScript { return ConnScript{Ops: g.mixed(3+g.r.Intn(5), pool)} }
	switch g.r.Intn(5) {
	case 0, 1: // slow, cancelled reads
		g.losses(n, script)
		g.connect()
		for i := g.r.Intn(4); i > 0; i-- {
			g.side(g.sleep(2*time.Second), op("readcancel"), g.sleep(2*time.Second), op("readcancel"))
		}
		if g.p(0.3) {
			g.side(g.sleep(time.Second), opN("pause", 1), g.sleep(5*time.Second), opN("pause", 0))
		}
		g.play()
	case 2: // closed while data arrives, opened again
		sc.App.NilCtx = g.p(0.3)
		g.losses(n, script)
		g.connect()
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			g.main(g.sleep(simrt.Pick(g.r, 10*time.Millisecond, time.Second)))
			if g.p(0.3) {
				g.main(opN("pause", 1), g.sleep(2*time.Second))
			}
			g.main(op("readclose"))
			if g.p(0.5) {
				g.main(g.sleep(200 * time.Millisecond))
			}
			g.main(opN("pause", 0), op("reader"))
		}
		g.play()
		if g.p(0.5) {
			g.main(op("readclose"))
		}
	case 3, 4: // the consumer stops reading; then shut down and start again
		sc.App.ReadStop = simrt.Pick(g.r, 1, 5, 60)
		sc.App.NilCtx = g.p(0.2)
		g.losses(n, script)
		g.connect()
		g.main(g.sleep(10 * time.Second))
		if g.p(0.4) {
			g.main(opN("cut", g.r.Intn(2)), g.sleep(2*time.Second))
		}
		switch g.r.Intn(3) {
		case 0:
			g.main(op("close"))
		case 1:
			g.main(op("disconnect"), op("waitdown"))
		case 2:
			g.main(op("disconnect"), op("waitdown"), op("resume"), op("heal"))
			g.connect()
			g.main(op("waitstream"))
		}
	}
}

func (g *G) statistics() {
	sc := g.sc
	udp := g.p(0.35)
	if udp {
		sc.Sets = []SetS{g.set(true)}
		sc.Cfg.Version = 2
		sc.Net.UDPLoss = simrt.Pick(g.r, 0.0, 0.2)
		sc.Net.UDPDup = simrt.Pick(g.r, 0.0, 0.1)
	}
	if g.p(0.3) {
		g.timing(&sc.Sets[0])
	}
	sc.Listen = g.p(0.15)
	g.main(opN("sub", 0))
	pool := []PubOp{{K: "stream", N: 20, M: 10}, {K: "stream", N: 10, M: 40}, {K: "cache"}, {K: "notify", N: 2, M: 30}, {K: "sleep", D: 100 * ms}, {K: "ok"}, {K: "noop"}, {K: "start"}, {K: "gap", N: 2, M: 10}, {K: "unknown", M: 6}}
	n := simrt.Pick(g.r, 0, 0, 1, 2)
	g.losses(n, func() ConnScript { return ConnScript{Ops: g.mixed(3+g.r.Intn(5), pool)} })
	g.connect()
	if g.p(0.5) {
		g.side(opD("sleep", sec), Op{K: "poll", N: 200, D: g.logd(time.Millisecond, 100*time.Millisecond)})
	}
	g.main(opN("waitscript", n), op("stats"))
	for i := g.r.Intn(4); i > 0; i-- {
		switch g.r.Intn(6) {
		case 4:
			g.main(op("mute"))
		case 0:
			g.main(opN("sub", 0), opD("sleep", 20*sec))
		case 1:
			g.main(Op{K: "publish", S: "conf"}, opD("sleep", 20*sec))
		case 2:
			g.main(Op{K: "publish", S: "notify", N: 3})
		case 3:
			g.main(op("unsub"), opD("sleep", 20*sec), op("stats"))
			if g.p(0.7) {
				g.main(opN("sub", 0), opD("sleep", 20*sec))
			}
		}
		g.main(Op{K: "publish", S: "stream", N: 5 + g.r.Intn(20)}, op("stats"))
	}
	if g.p(0.3) {
		g.main(op("heal"), opN("cut", 1), op("waitstream"), op("stats"))
	}
	if g.p(0.4) {
		g.main(op("stats"), op("disconnect"), op("waitdown"))
		g.connect()
		g.main(op("waitstream"), op("stats"))
	}
}

func (g *G) threads() {
	t := &ThreadS{Work: simrt.Pick(g.r, int64(0), 1000, 5*ms, 3600*sec), Yield: g.p(0.5), Self: g.p(0.3)}
	n := 1 + g.r.Intn(4)
	for i := 0; i < n; i++ {
		var ops []Op
		for j := 1 + g.r.Intn(8); j > 0; j-- {
			ops = append(ops, simrt.Pick(g.r, op("start"), op("try"), op("join"), op("join"), op("run"), opD("sleep", g.logd(time.Microsecond, 50*time.Millisecond))))
		}
		t.Callers = append(t.Callers, ops)
	}
	if t.Work > sec {
		g.sc.Strat.PStall = 0
	}
	g.sc.Thread = t
}

func (g *G) notifications() {
	sc := g.sc
	if g.p(0.2) {
		sc.App.Without = simrt.Pick(g.r, "notif", "notif", "status", "conf", "hist", "start", "error")
	}
	sc.Listen = g.p(0.15)
	sc.Cfg.AutoMeta = g.p(0.8)
	sc.Cfg.AutoSub = g.p(0.9)
	if g.p(0.3) {
		sc.App.EventSlow = simrt.Pick(g.r, int64(ms), 100*ms)
	}
	g.main(opN("sub", 0))
	pool := []PubOp{{K: "notify", N: 5, M: 200}, {K: "notify", N: 1, M: 40000}, {K: "conf"}, {K: "start"}, {K: "done"}, {K: "ok"}, {K: "fail"}, {K: "ok"}, {K: "stream", N: 5, M: 5}, {K: "sleep", D: 200 * ms}, {K: "cache"}, {K: "noop"}, {K: "barrier"}}
	if !sc.Cfg.AutoSub {
		pool = []PubOp{{K: "notify", N: 5, M: 200}, {K: "conf"}, {K: "start"}, {K: "done"}, {K: "ok"}, {K: "fail"}, {K: "sleep", D: 200 * ms}, {K: "noop"}, {K: "barrier"}}
	}
	g.losses(simrt.Pick(g.r, 0, 0, 1), func() ConnScript { return ConnScript{Ops: g.mixed(4+g.r.Intn(10), pool)} })
	g.connect()
	g.noise()
	g.main(opN("waitscript", len(sc.Conns)-1), op("heal"), op("waitconn"), op("flush"), op("setup"))
	if sc.Cfg.AutoSub {
		g.main(op("waitstream"), op("flush"))
	}
}

func (g *G) resubscribing() {
	sc := g.sc
	sc.Listen = g.p(0.15)
	sc.Sets = nil
	n := 1 + g.r.Intn(4)
	udp := g.p(0.6)
	if udp {
		sc.Cfg.Version = 2
	}
	for i := 0; i < n; i++ {
		s := g.set(udp && g.p(0.7))
		s.Filter = fmt.Sprintf("FILTER T%d WHERE True", i)
		sc.Sets = append(sc.Sets, s)
	}
	g.main(opN("sub", 0))
	pool := []PubOp{{K: "stream", N: 30, M: 5, D: 20 * ms}, {K: "stream", N: 10, M: 10}, {K: "sleep", D: 100 * ms}, {K: "notify", N: 2}, {K: "cache"}, {K: "stallin", D: sec}}
	g.losses(simrt.Pick(g.r, 0, 0, 0, 1), func() ConnScript {
		return ConnScript{Ops: g.mixed(3+g.r.Intn(6), pool), Delay: simrt.Pick(g.r, int64(0), 10*ms, 200*ms), SubFail: simrt.Pick(g.r, 0, 0, 0, 1)}
	})
	g.connect()
	threads := 1 + g.r.Intn(3)
	for i := 0; i < threads; i++ {
		var ops []Op
		for j := 1 + g.r.Intn(6); j > 0; j-- {
			ops = append(ops, simrt.Pick(g.r, opN("sub", g.r.Intn(n)), opN("sub", g.r.Intn(n)), op("unsub")))
			if g.p(0.6) {
				ops = append(ops, g.sleep(simrt.Pick(g.r, 5*time.Millisecond, 500*time.Millisecond)))
			}
		}
		g.side(ops...)
	}
	g.main(opN("waitscript", len(sc.Conns)-1), op("sides"), op("heal"), op("udpport"))
	switch g.r.Intn(3) {
	case 0:
		g.main(op("unsub"), op("udpport"))
	case 1:
		g.main(op("unsub"), op("udpport"), opN("sub", g.r.Intn(n)), op("waitstream"), op("flush"), op("udpport"))
	case 2:
		g.main(opN("sub", g.r.Intn(n)), op("waitstream"), op("flush"), op("udpport"))
	}
	if g.p(0.4) {
		g.main(op("disconnect"), op("waitdown"), op("udpport"))
	} else if g.p(0.3) {
		g.main(opN("sub", g.r.Intn(n)), opN("cut", g.r.Intn(2)), op("waitstream"), op("udpport"))
	}
}

var hostNames = []string{"publisher", "127.0.0.1", "10.11.12.13", "::1", "2001:db8::5", "fe80::1%eth0", "publisher.example.org", "a"}

func (g *G) hosts() {
	sc := g.sc
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		sc.Hosts = append(sc.Hosts, simrt.Pick(g.r, hostNames...))
		sc.PeerIPs = append(sc.PeerIPs, simrt.Pick(g.r, "127.0.0.1", "10.1.2.3", "192.168.200.201", "::1", "2001:db8::77"))
	}
	sc.Iface = simrt.Pick(g.r, "", "", "127.0.0.1", "::1", "localhost", "2001:db8::1")
}

// addresses: connections are made to, and awaited at, one address after another.
func (g *G) addresses() {
	sc := g.sc
	sc.Listen = g.p(0.3)
	g.hosts()
	g.main(opN("sub", 0))
	g.losses(simrt.Pick(g.r, 0, 1, 2, 3), func() ConnScript { return ConnScript{Ops: g.mixed(1+g.r.Intn(3), tsscPool[:3])} })
	if !sc.Listen {
		g.badDials(g.r.Intn(4))
		sc.Net.LookupErr = g.p(0.1)
	}
	g.connect2()
	if g.p(0.7) {
		g.main(opN("waitscript", len(sc.Conns)-1))
	}
	for i := g.r.Intn(4); i > 0; i-- {
		switch g.r.Intn(3) {
		case 0:
			g.main(op("heal"), opN("cut", g.r.Intn(2)))
		case 1:
			g.main(op("down"), opN("cut", g.r.Intn(2)), g.sleep(5*time.Second), op("up"))
		case 2:
			g.main(op("disconnect"))
			if !sc.Listen {
				g.main(op("joindial"))
			}
			g.main(op("waitdown"))
			g.connect2()
		}
		g.main(g.sleep(5 * time.Second))
	}
	g.main(op("heal"), op("waitstream"), op("flush"), op("state"))
}

func (g *G) states() {
	sc := g.sc
	sc.Listen = g.p(0.3)
	if g.p(0.5) {
		g.hosts()
	}
	n := 1 + g.r.Intn(2)
	sc.Sets = nil
	udp := g.p(0.3)
	if udp {
		sc.Cfg.Version = 2
	}
	for i := 0; i < n; i++ {
		s := g.set(udp && g.p(0.7))
		s.Filter = fmt.Sprintf("FILTER T%d WHERE True", i)
		sc.Sets = append(sc.Sets, s)
	}
	g.main(opN("sub", 0))
	pool := []PubOp{{K: "stream", N: 10, M: 5, D: 20 * ms}, {K: "stream", N: 5, M: 10}, {K: "sleep", D: 100 * ms}, {K: "notify", N: 2}, {K: "cache"}, {K: "ok"}, {K: "noop"}, {K: "stallin", D: sec}, {K: "start"}, {K: "done"}, {K: "conf"}, {K: "block", N: 2, M: 2}}
	g.losses(simrt.Pick(g.r, 0, 0, 1, 2), func() ConnScript {
		return ConnScript{Ops: g.mixed(1+g.r.Intn(4), pool), Delay: simrt.Pick(g.r, int64(0), 10*ms, 200*ms, 2*sec), SubFail: simrt.Pick(g.r, 0, 0, 0, 1)}
	})
	sc.App.EventSlow = simrt.Pick(g.r, int64(0), 0, ms, 500*ms)
	g.connect()
	for i := g.r.Intn(3); i > 0; i-- {
		g.side(Op{K: "statepoll", N: 100 + g.r.Intn(200), D: g.logd(time.Microsecond, 100*time.Millisecond)})
	}
	if g.p(0.3) {
		g.side(g.sleep(time.Second), op("unsub"), g.sleep(time.Second), opN("sub", g.r.Intn(n)))
	}
	g.main(opN("waitscript", len(sc.Conns)-1), op("state"), op("heal"), op("state"))
	for i := 1 + g.r.Intn(6); i > 0; i-- {
		switch g.r.Intn(9) {
		case 8:
			g.main(simrt.Pick(g.r, opN("sub", 0), op("unsub")), simrt.Pick(g.r, opD("sleep", g.logd(time.Microsecond, 3*time.Second)), opN("afterread", 1)), op("disconnect"), op("state"))
			g.connect()
		case 0:
			g.main(opN("sub", g.r.Intn(n)))
		case 1, 2:
			g.main(op("unsub"))
		case 3:
			g.main(opN("cut", g.r.Intn(2)))
		case 4:
			g.main(op("down"), opN("cut", g.r.Intn(2)), opD("sleep", simrt.Pick(g.r, ms, sec, 30*sec)), op("state"), op("up"))
		case 5:
			g.main(op("disconnect"), op("state"))
			if g.p(0.5) {
				g.main(op("waitdown"), op("state"))
			}
			g.connect()
		case 6:
			g.main(Op{K: "publish", S: simrt.Pick(g.r, "stream", "notify", "cache", "start", "done", "ok", "noop"), N: 3})
		case 7:
			g.main(op("unsub"), opN("sub", g.r.Intn(n)))
		}
		g.main(opD("sleep", g.logd(time.Microsecond, 20*time.Second)), op("state"))
	}
	g.main(op("disconnect"), op("waitdown"), op("state"))
}

// printing leaves the messages, and often the connection events too, to be printed by the library.
func (g *G) printing() {
	sc := g.sc
	sc.App.Print = 1 + g.r.Intn(2)
	sc.App.PrintSlow = simrt.Pick(g.r, int64(0), int64(10*time.Microsecond), ms, 50*ms)
	sc.Listen = g.p(0.3)
	sc.Cfg.AutoMeta = g.p(0.5)
	sc.App.Query = g.p(0.5)
	if g.p(0.2) {
		sc.App.EventSlow = simrt.Pick(g.r, int64(ms), 30*ms)
	}
	g.main(opN("sub", 0))
	pool := []PubOp{{K: "ok"}, {K: "fail"}, {K: "ok"}, {K: "fail"}, {K: "notify", N: 3, M: 60}, {K: "conf"}, {K: "done"}, {K: "stream", N: 5, M: 5}, {K: "sleep", D: 20 * ms}, {K: "cache"}, {K: "barrier"}}
	g.losses(simrt.Pick(g.r, 0, 0, 0, 1, 2), func() ConnScript {
		return ConnScript{Ops: g.mixed(3+g.r.Intn(10), pool), MetaFail: g.p(0.2), SubFail: simrt.Pick(g.r, 0, 0, 0, 1)}
	})
	for i := g.r.Intn(4); i > 0; i-- {
		g.side(g.sleep(time.Second), Op{K: "log", N: 3 + g.r.Intn(20), D: g.logd(time.Microsecond, 100*time.Millisecond)})
	}
	g.connect()
	g.main(opN("waitscript", len(sc.Conns)-1), op("heal"), op("flush"), Op{K: "said", S: "est"})
	for i := g.r.Intn(3); i > 0; i-- {
		g.main(Op{K: "publish", S: simrt.Pick(g.r, "ok", "fail", "done", "notify"), N: 2}, op("flush"))
	}
	for i := g.r.Intn(3); i > 0; i-- {
		g.main(op("disconnect"), op("waitdown"), Op{K: "said", S: "term"})
		g.connect()
		g.main(op("heal"), op("flush"), Op{K: "said", S: "est"})
	}
	g.main(op("sides"), op("disconnect"), op("waitdown"), Op{K: "said", S: "term"})
}

// longUse repeats sessions and what happens in them many times and counts in between what is held.
func (g *G) longUse() {
	sc := g.sc
	sc.Listen = g.p(0.3)
	udp := g.p(0.4)
	if udp {
		sc.Cfg.Version = 2
	}
	sc.Sets = nil
	n := 1 + g.r.Intn(3)
	for i := 0; i < n; i++ {
		s := g.set(udp && g.p(0.8))
		s.Filter = fmt.Sprintf("FILTER T%d WHERE True", i)
		sc.Sets = append(sc.Sets, s)
	}
	sc.Cfg.RetryInterval = simrt.Pick(g.r, int32(100), 300)
	sc.Cfg.MaxRetryInterval = sc.Cfg.RetryInterval * simrt.Pick(g.r, int32(1), 4)
	sc.App.EventSlow = simrt.Pick(g.r, int64(0), 0, 0, ms, 50*ms, 1500*ms)
	g.main(opN("sub", 0))
	if g.p(0.2) {
		sc.App.Reader = true
		sc.App.ReadSlow = simrt.Pick(g.r, int64(0), ms)
		g.main(op("reader"))
	}
	// The kinds of rounds of this run: few, so that what one of them leaves behind adds up.
	var kinds []int
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		kinds = append(kinds, g.r.Intn(12))
	}
	ends := false
	for _, k := range kinds {
		ends = ends || k == 6
	}
	if ends {
		for i := 6 + g.r.Intn(8); i > 0; i-- {
			g.conn(ConnScript{Ops: []PubOp{{K: "stream", N: 2, M: 3}, {K: "sleep", D: g.logd(time.Millisecond, 3*time.Second)}, {K: simrt.Pick(g.r, "close", "rst")}}, Linger: true, SubFail: simrt.Pick(g.r, 0, 0, 1)})
		}
	}
	g.conn(ConnScript{Ops: []PubOp{{K: "stream", N: 3, M: 3}}, Linger: true})
	g.connect()
	for i := 5 + g.r.Intn(12); i > 0; i-- {
		for j := 1 + g.r.Intn(3); j > 0; j-- {
			k := simrt.Pick(g.r, kinds...)
			switch k {
			case 0:
				g.main(opN("cut", g.r.Intn(2)))
			case 1:
				g.main(op("down"), opN("cut", g.r.Intn(2)), opD("sleep", simrt.Pick(g.r, 100*ms, sec, 10*sec)), op("census"), op("up"))
			case 2:
				g.main(op("disconnect"), op("waitdown"))
				if g.p(0.5) {
					g.main(op("census"))
				}
				g.connect()
			case 3:
				g.main(opN("sub", g.r.Intn(n)))
			case 4:
				g.main(op("unsub"), opN("sub", g.r.Intn(n)))
			case 5:
				g.main(op("meta"))
			case 6:
				g.main(opD("sleep", g.logd(time.Millisecond, 10*time.Second)))
			case 7:
				g.main(Op{K: "publish", S: simrt.Pick(g.r, "stream", "notify", "cache", "block"), N: 3})
			case 8:
				g.main(opN("cut", g.r.Intn(2)), op("waitconn"), opN("cut", g.r.Intn(2)))
			case 9:
				g.main(op("disconnect"))
				g.connect()
			case 11:
				if sc.Listen {
					g.main(Op{K: "rogue", S: simrt.Pick(g.r, "", "garbage", "publisher")})
				} else {
					g.main(op("meta"), op("meta"))
				}
			case 10:
				g.main(simrt.Pick(g.r, opN("sub", g.r.Intn(n)), op("unsub"), op("meta")), opN("cut", g.r.Intn(2)), opD("sleep", g.logd(time.Microsecond, 3*time.Second)))
			}
			if g.p(0.7) {
				g.main(opD("sleep", g.logd(time.Microsecond, 5*time.Second)))
			}
		}
		g.main(op("waitconn"), op("census"))
	}
	g.main(op("heal"), op("waitconn"), op("census"), op("disconnect"), op("waitdown"), op("census"))
}

func (g *G) text() string {
	return simrt.Pick(g.r, "", "*-1M", "2024-02-29 12:00:00.123", "a b", "x=1", "ünit", "*-30S", "*")
}

func (g *G) requests() {
	sc := g.sc
	sc.Listen = g.p(0.15)
	sc.Sets = nil
	n := 1 + g.r.Intn(5)
	num := func() float64 {
		return simrt.Pick(g.r, 0.0, 1, 0.5, 0.033333, 10, 123456.789, 1e-6, float64(g.r.Intn(100000))/100, -1)
	}
	for i := 0; i < n; i++ {
		s := SetS{Throttled: g.p(0.5), PublishInterval: num(), IncludeTime: g.p(0.5), Reasonability: g.p(0.5), Lag: num(), Lead: num(), LocalClock: g.p(0.5), Millis: g.p(0.5), NaN: g.p(0.5),
			Interval: simrt.Pick(g.r, int32(-1), 0, 1, 33, 1<<31-1, -(1 << 31))}
		s.Filter = simrt.Pick(g.r, "", fmt.Sprintf("FILTER T%d WHERE x = 'y'", i), fmt.Sprint(i), "PPA:1; PPA:2", "FILTER TOP 5 A WHERE B > 1 ORDER BY C", strings.Repeat("PPA:7;", 9000))
		if strings.HasPrefix(s.Filter, "FILTER T") || g.p(0.5) {
			s.Filter += fmt.Sprintf(" AND N = %d", i)
		}
		s.Start, s.Stop, s.Constraint = g.text(), g.text(), g.text()
		if g.p(0.3) {
			s.Extra = simrt.Pick(g.r, "alpha=1", "alpha=1;beta=two", "custom=x y")
		}
		if g.p(0.25) && sc.Cfg.Version == 2 {
			s.UDP = uint16(9700 + g.r.Intn(3))
		}
		if g.p(0.1) {
			s = g.set(false)
			s.Nil, s.Filter = true, fmt.Sprintf("FILTER D%d WHERE N = %d", i, i)
		}
		sc.Sets = append(sc.Sets, s)
	}
	g.main(opN("sub", 0))
	g.losses(simrt.Pick(g.r, 0, 1, 2), func() ConnScript {
		return ConnScript{Ops: g.mixed(1+g.r.Intn(3), []PubOp{{K: "conf"}, {K: "sleep", D: 500 * ms}, {K: "stream", N: 3, M: 3}})}
	})
	g.connect()
	if g.p(0.7) {
		for t := 1 + g.r.Intn(2); t > 0; t-- {
			var ops []Op
			for j := 1 + g.r.Intn(5); j > 0; j-- {
				ops = append(ops, g.sleep(time.Second), opN("sub", g.r.Intn(n)))
			}
			g.side(ops...)
		}
	}
	g.main(opN("waitscript", len(sc.Conns)-1), op("sides"), op("heal"), op("waitstream"))
	for i := 0; i < n; i++ {
		g.main(opN("sub", g.r.Intn(n)), op("lastsub"))
	}
	g.main(opN("cut", g.r.Intn(2)), op("waitstream"), op("lastsub"))
}

func (g *G) filters() {
	f := &FilterS{Rows: 2 + g.r.Intn(12)}
	cond := func() string {
		return simrt.Pick(g.r, "SignalAcronym = 'FREQ'", "SignalAcronym <> 'STAT' AND Len(PointTag) > 8", "PointTag LIKE 'TAG-1-B%'", "UpdatedOn > #2022-06-01#",
			"Size > 40", "Both LIKE 'FREQ%'", "SignalID IS NOT NULL", "IsNull(Description, '') <> ''", "SignalAcronym IN ('FREQ', 'IPHA')", "StrCount(Description, 'a') > 0 OR True", "Description LIKE '%version%' AND NOT SignalAcronym = 'VPHM'",
			"RegExVal('[0-9]+', PointTag) > '2'", "RegExMatch('[A-M]', PointTag)", "RegExMatch('[N-Z0]$', SignalAcronym)", "RegExVal('F.+', SignalAcronym) = 'FREQ' OR RegExMatch('-[13579]', PointTag)", "Replace(PointTag, '-', '') LIKE '%B%'", "Convert(Len(Both), 'System.Double') / 3 > 5.5", "Nope = 1", "((Size)", "Upper(SignalAcronym) = 'FREQ'", "Year(UpdatedOn) = 2023")
	}
	for i := 2 + g.r.Intn(5); i > 0; i-- {
		k := simrt.Pick(g.r, "rows", "ids", "set", "row", "trees", "value", "select", "rows", "rows")
		e := FilterE{Kind: k, Row: g.r.Intn(100)}
		switch k {
		case "row", "select":
			e.Text = cond()
		case "value":
			e.Text = simrt.Pick(g.r, "1 + 2 * 3", "'a' + 'b'", "Now() > #2020-01-01#", "Len('abc') * 2.5", "IIf(1 > 2, 'x', 'y')", "True AND", "Power(2, 10)")
		default:
			e.Text = "FILTER " + simrt.Pick(g.r, "", "TOP 3 ", "TOP 1 ") + "MeasurementDetail WHERE " + cond() + simrt.Pick(g.r, "", " ORDER BY PointTag", " ORDER BY SignalAcronym, PointTag DESC", " ORDER BY Size DESC")
			if g.p(0.3) {
				e.Text += "; FILTER MeasurementDetail WHERE " + cond()
			}
		}
		f.Exprs = append(f.Exprs, e)
	}
	for i := 2 + g.r.Intn(3); i > 0; i-- {
		var w []int
		for j := 1 + g.r.Intn(4); j > 0; j-- {
			w = append(w, g.r.Intn(len(f.Exprs)))
		}
		f.Work = append(f.Work, w)
	}
	g.sc.Signals = 1 + g.r.Intn(4)
	g.sc.FilterS = f
	if g.sc.Strat.PPreempt == 0 && g.p(0.7) {
		g.sc.Strat = simrt.Strategy{Name: "switch anywhere", PPreempt: simrt.Pick(g.r, 0.001, 0.01, 0.05), Random: true}
	}
}

// refusals mixes requests that cannot be carried out into otherwise healthy sessions.
func (g *G) refusals() {
	sc := g.sc
	// The sessions have to keep up without being calmed down first.
	if sc.Strat.PStall > 0 {
		sc.Strat.MaxStall = 2 * ms
	}
	sc.App.SlowMax = min(sc.App.SlowMax, ms)
	switch g.r.Intn(5) {
	case 0:
		sc.Port, sc.ListenPort = 1, 65535
	case 1:
		sc.Port, sc.ListenPort = 65535, 1
	}
	sc.Net.SegMax, sc.Net.Buf = max(sc.Net.SegMax, 700), max(sc.Net.Buf, 4096)
	sc.Net.LatMin, sc.Net.LatMax = min(sc.Net.LatMin, 200_000), min(sc.Net.LatMax, 2*ms)
	if g.p(0.25) {
		sc.Direct = true
		for i := 2 + g.r.Intn(5); i > 0; i-- {
			sc.Main = append(sc.Main, g.sleep(time.Second), simrt.Pick(g.r, Op{K: "refused", S: "dial", N: g.r.Intn(2)}, Op{K: "refused", S: "listen"}, op("cut"), op("cut"), op("cancel")))
		}
		sc.Main = append(sc.Main, Op{K: "refused", S: "dial"}, op("cut"))
		for i := 0; i < 20; i++ {
			g.conn(ConnScript{Linger: true, Delay: simrt.Pick(g.r, int64(0), 0, 50*ms)})
		}
		return
	}
	sc.Listen = g.p(0.35)
	udp := g.p(0.25)
	if udp {
		sc.Cfg.Version = 2
		sc.Sets = append(sc.Sets, SetS{PublishInterval: 1, IncludeTime: true, Lag: 10, Lead: 5, Interval: -1, Filter: letters, UDP: uint16(9800 + g.r.Intn(3))})
	}
	if g.p(0.5) {
		sc.Cfg.Filters = g.filter()
	}
	bad := func() Op {
		return Op{K: "refused", S: simrt.Pick(g.r, "baddial", "badlisten"), N: g.r.Intn(len(badAddresses))}
	}
	idle := func() {
		for i := g.r.Intn(3); i > 0; i-- {
			g.main(simrt.Pick(g.r, bad(), bad(), Op{K: "refused", S: "taken"}))
		}
	}
	idle()
	if udp || g.p(0.7) {
		g.main(opN("sub", 0))
	}
	for i := 0; i < 12; i++ {
		g.conn(ConnScript{Linger: true, Delay: simrt.Pick(g.r, int64(0), 0, 20*ms), Ops: []PubOp{{K: "stream", N: 20 + g.r.Intn(60), M: 4, D: 50 * ms}}})
	}
	for round := 1 + g.r.Intn(3); round > 0; round-- {
		o := op("dial")
		if sc.Listen {
			o = op("listen")
		}
		if round > 1 && len(sc.Main) > 0 && g.p(0.5) {
			// keeps the configuration of the request before
			for _, m := range sc.Main {
				if m.K == o.K {
					o.S = "keep"
				}
			}
		}
		g.main(o)
		for i := g.r.Intn(3); i > 0 && sc.Listen; i-- {
			// A listening subscriber refuses with or without a publisher, and while it comes and goes.
			g.main(g.sleep(time.Second), simrt.Pick(g.r, bad(), Op{K: "refused", S: "dial"}, Op{K: "refused", S: "listen", N: 1}, opN("cut", g.r.Intn(2))))
		}
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			g.main(op("waitstream"))
			for j := 1 + g.r.Intn(3); j > 0; j-- {
				g.main(g.sleep(300*time.Millisecond), simrt.Pick(g.r, bad(), Op{K: "refused", S: "dial"}, Op{K: "refused", S: "dial", N: 1}, Op{K: "refused", S: "listen"}, Op{K: "refused", S: "listen", N: 1}))
			}
			if udp && g.p(0.6) {
				g.main(opN("udptaken", 1), op("waitstream"), opN("sub", 0))
			}
			if g.p(0.6) {
				g.main(op("flush"), opN("cut", g.r.Intn(2)))
				if !sc.Listen && g.p(0.4) {
					g.main(g.sleep(2*time.Duration(sc.Cfg.RetryInterval)*time.Millisecond), Op{K: "takeover", S: simrt.Pick(g.r, "dial", "taken", "listen"), N: g.r.Intn(2), D: int64(g.logd(time.Microsecond, 5*time.Millisecond))})
				}
			}
		}
		g.main(op("waitstream"), op("flush"))
		g.main(op("disconnect"), op("waitdown"))
		idle()
	}
}

// several runs a few subscribers side by side.
func (g *G) several() {
	sc := g.sc
	var sigs uint64
	if g.p(0.5) {
		sigs = g.r.Uint64()
	}
	for i := 2 + g.r.Intn(2); i > 0; i-- {
		x := &G{r: g.r, sc: &Scenario{Seed: g.r.Uint64(), SigSeed: sigs}}
		x.config()
		prop := simrt.Pick(g.r, "C01", "C01", "C02", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C12", "C14", "C16", "C19", "C20", "C21")
		x.sc.Profile = prop
		x.profile(prop, 0)
		x.sc.Net, x.sc.Strat = sc.Net, sc.Strat
		for j := range x.sc.Sets {
			if x.sc.Sets[j].UDP > 0 {
				x.sc.Sets[j].UDP += uint16(1000 * i)
			}
		}
		for j := range x.sc.Conns {
			c := &x.sc.Conns[j]
			for k := range c.Ops {
				if c.Ops[k].K == "blockmem" {
					c.Ops[k] = PubOp{K: "block", N: 3, M: 3}
				}
			}
		}
		if x.sc.Direct {
			continue
		}
		sc.Multi = append(sc.Multi, x.sc)
	}
	if len(sc.Multi) == 0 {
		g.several()
	}
}

// racing runs the scenario of another property with more threads in it. Only the accesses that threads make to shared
// memory are judged, so that the additional threads may do what they like.
func (g *G) racing() {
	sc := g.sc
	prop := simrt.Pick(g.r, "C02", "C02", "C03", "C04", "C05", "C06", "C07", "C07", "C08", "C09", "C09", "C10", "C11", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C20", "C21", "C22", "C22", "C23", "C23", "C24", "C26", "C27", "C28", "C29", "C01")
	sc.Profile = prop
	g.profile(prop, 0)
	all := append([]*Scenario{sc}, sc.Multi...)
	for _, x := range all {
		for j := range x.Conns {
			c := &x.Conns[j]
			for k := range c.Ops {
				if c.Ops[k].K == "blockmem" {
					c.Ops[k] = PubOp{K: "block", N: 3, M: 3}
				}
			}
		}
		if x.Thread != nil || x.FilterS != nil || x.Direct || len(x.Multi) > 0 || x.Profile == "idle" {
			continue
		}
		x.App.Query = x.App.Query || g.p(0.3)
		for i := g.r.Intn(4); i > 0; i-- {
			var l []Op
			for j := 1 + g.r.Intn(6); j > 0; j-- {
				l = append(l, Op{K: "sleep", D: g.logd(time.Microsecond, 3*time.Second)})
				switch g.r.Intn(8) {
				case 0:
					l = append(l, opN("sub", g.r.Intn(len(x.Sets))))
				case 1:
					l = append(l, op("meta"))
				case 2:
					if !x.App.Reader {
						l = append(l, op("sethandlers"))
					}
				case 3:
					l = append(l, op("unsub"))
				case 4:
					l = append(l, op("records"))
				default:
					l = append(l, op("query"))
				}
			}
			x.Side = append(x.Side, l)
		}
	}
}
