// Package harness runs scenarios: it drives the code under test through its public interface, plays the publisher
// and checks what happens against reference models.
package harness

import (
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"time"
	"unsafe"

	"simverif/goapi/sttp/transport"
	"simverif/pub"
	"simverif/simnet"
	"simverif/simrt"

	"github.com/google/uuid"
)

// NetCfg is the behaviour of the simulated network.
type NetCfg struct {
	LatMin, LatMax int64
	SegMax         int
	Buf            int
	LookupErr      bool
	LookupWait     int64
	UDPLoss        float64
	UDPDup         float64
	UDPDelay       int64 // extra random delay, reorders
}

// CfgS mirrors the connection configuration.
type CfgS struct {
	MaxRetries, RetryInterval, MaxRetryInterval int32
	AutoReconnect, AutoMeta, AutoSub            bool
	CompPayload, CompMeta, CompCache            bool
	Filters                                     string
	Version                                     byte
	RFC                                         bool
}

// SetS mirrors the subscription settings.
type SetS struct {
	Filter                     string
	Throttled                  bool
	PublishInterval            float64
	UDP                        uint16
	IncludeTime, Reasonability bool
	Lag, Lead                  float64
	LocalClock, Millis, NaN    bool
	Start, Stop, Constraint    string
	Interval                   int32
	Extra                      string
	Nil                        bool // no settings given: the defaults
}

// AppCfg is the behaviour of the application's handlers.
type AppCfg struct {
	Pool         float64 // probability that a slice is returned to the pool
	Slow         float64 // probability of a slow measurement handler
	SlowMax      int64
	EventSlow    int64  // slowness of the event handlers
	Query        bool   // handlers query the subscriber
	Reader       bool   // consume through a measurement reader
	ReadSlow     int64  // reader pause per measurement
	NilCtx       bool   `json:",omitempty"` // reads are not given a context
	ReadStop     int    // reader stops reading after so many (0: never)
	NoMeta       bool   // no metadata handler
	DisconnectIn string // handler that calls Disconnect
	DisconnectAt int
	AssignIn     float64 `json:",omitempty"` // probability that a handler replaces another one
	Without      string  `json:",omitempty"` // kind of handler that is not set
	Print        int     `json:",omitempty"` // messages are left to be printed (1), and connection events as well (2)
	PrintSlow    int64   `json:",omitempty"` // slowness of the console
}

// Op is one step of an application thread.
type Op struct {
	K string `json:"k"`
	D int64  `json:"d,omitempty"`
	N int    `json:"n,omitempty"`
	S string `json:"s,omitempty"`
}

// PubOp is one step of the publisher on a connection.
type PubOp struct {
	K string `json:"k"`
	N int    `json:"n,omitempty"`
	M int    `json:"m,omitempty"`
	D int64  `json:"d,omitempty"`
}

// ConnScript is what the publisher does on one connection.
type ConnScript struct {
	Modes    string  `json:"modes,omitempty"` // reply to the session set-up ("" = success)
	Delay    int64   `json:"delay,omitempty"` // before replying to commands
	Stray    int     `json:"stray,omitempty"` // datagrams sent ahead of the reply to the session set-up
	SubFail  int     `json:"subfail,omitempty"`
	MetaFail bool    `json:"metafail,omitempty"`
	Ops      []PubOp `json:"ops,omitempty"`
	CutAt    int64   `json:"cut,omitempty"` // break after so many bytes towards the subscriber (0: never)
	CutRst   bool    `json:"rst,omitempty"`
	CutIn    int64   `json:"cutin,omitempty"`  // break after so many bytes from the subscriber
	Linger   bool    `json:"linger,omitempty"` // do not close when the script is over
	Pause    int64   `json:"pause,omitempty"`  // listening role: wait before connecting
}

// DialPlan is the outcome of one connection attempt.
type DialPlan struct {
	Fail  string `json:"fail,omitempty"` // "", refused, timeout
	Delay int64  `json:"delay,omitempty"`
}

// Scenario is one complete test case; a run is a function of it.
type Scenario struct {
	Profile    string
	Seed       uint64
	Sched      uint64
	Strat      simrt.Strategy
	Net        NetCfg
	Listen     bool
	Hosts      []string `json:",omitempty"` // what the application dials, one after the other
	Iface      string   `json:",omitempty"` // where it listens
	PeerIPs    []string `json:",omitempty"` // where publishers connect from
	Cfg        CfgS
	Sets       []SetS
	App        AppCfg
	Signals    int
	SigSeed    uint64 `json:",omitempty"` // subscribers with equal seeds receive the same signals
	MetaN      int
	MetaOdd    float64 // share of incomplete metadata
	Main       []Op
	Side       [][]Op
	Conns      []ConnScript
	Dials      []DialPlan
	Stall      bool    // the schedule contains stalls
	Fine       bool    // statement level timing noise
	Vary       float64 // encoder variation
	Corrupt    []CorruptS
	Thread     *ThreadS
	FilterS    *FilterS
	Long       int
	Direct     bool        // use the transport level interface
	Multi      []*Scenario `json:",omitempty"` // several subscribers in one process
	Hostile    bool
	DownUntil  int64
	Port       int `json:",omitempty"` // of the publisher, 0: a usual one
	ListenPort int `json:",omitempty"`
}

type CorruptS struct {
	Conn int
	Off  int64
	X    byte
}

// Stats is what one run contributes to the evidence.
type Stats struct {
	Faults map[string]int64
	Probes map[string]int64
	Evals  int64
}

// H is one run.
type H struct {
	sc          *Scenario
	prop        string
	r           *simrt.Rand
	w           *simnet.World
	part        int // number of the subscriber when several run in one process, from 1
	dialRecs    []*simnet.DialRecord
	sigs        []pub.Rec
	conns       []*PConn
	app         *App
	meta        []*metaVersion
	faults      bool
	probes      map[string]int64
	evals       int64
	down        bool // the publisher is unreachable
	listen      *simnet.TCPListener
	stops       int // number of user disconnect/close calls begun
	inStop      int
	stopAt      int64 // when the latest one was requested
	pubRead     int64 // bytes read by publishers
	epochStop   int64
	closed      bool
	tok         int
	changed     simrt.WaitQ
	other       map[string]int64
	noDropCheck bool
	healed      bool
	pubQuit     bool
	calm        bool
	hostile     bool
	setSeq      int

	subID        pub.GUID
	nextRogue    int // one more than the task that connects as a second publisher
	wantConn     bool
	console      console
	asked        int // requests for a connection so far
	census       map[string][]census
	taking       bool // a request takes over from automatic reconnection
	acceptFaults bool
	finishing    bool
	dialSeen     bool
	streamWanted bool
	readPaused   bool
	readResume   bool
	reading      bool
	sides        int
	readerSides  int
	dialsOut     int
	dialOK       int
	userSubs     int
	readers      int
	readReturns  int
	flushing     int
	inEnter      int // handlers that are being entered
	readGen      int
	readCount    int
	stopDone     int64
	dialErr      error
	series       []*serie
	cmdNo        map[int]int
	lastNo       map[int]int
	issued       []*issued
	readCancel   func()
	hosts        []string // dialled so far
	muteEnd      int64    // measurements may have gone unhandled, and uncounted here, until then
	direct       *transport.DataSubscriber
}

// port is where the publisher listens, listenPort where the subscriber listens.
func (h *H) port() int {
	if h.sc.Port > 0 {
		return h.sc.Port
	}
	return 7165 + 100*h.part
}

func (h *H) listenPort() int {
	if h.sc.ListenPort > 0 {
		return h.sc.ListenPort
	}
	return 7175 + 100*h.part
}

// Outcome of a run.
type Outcome struct {
	simrt.Result
	Stats Stats
}

// RunOpts control recording and replay.
type RunOpts struct {
	Prop     string
	Record   bool
	Replay   []simrt.Decision
	ReplayOn bool
	Log      bool
}

type rndReader struct{ r *simrt.Rand }

func (q rndReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(q.r.Uint64())
	}
	return len(p), nil
}

var _ io.Reader = rndReader{}

func newH(sc *Scenario, prop string) *H {
	return &H{sc: sc, prop: prop, r: simrt.NewRand(simrt.Mix(sc.Seed, 1)), probes: map[string]int64{}, other: map[string]int64{}, cmdNo: map[int]int{}, lastNo: map[int]int{}, census: map[string][]census{}}
}

// Run executes a scenario.
func Run(sc *Scenario, o RunOpts) Outcome {
	h := newH(sc, o.Prop)
	uuid.SetRand(rndReader{simrt.NewRand(simrt.Mix(sc.Seed, 5))})
	h.w = simnet.Reset(simrt.NewRand(simrt.Mix(sc.Seed, 2)))
	n := &sc.Net
	h.w.LatMin, h.w.LatMax, h.w.SegMax = n.LatMin, n.LatMax, n.SegMax
	if n.Buf > 0 {
		h.w.Buf = n.Buf
	}
	h.w.LookupErr, h.w.LookupWait = n.LookupErr, n.LookupWait
	cfg := simrt.Config{SchedSeed: sc.Sched, Strategy: sc.Strat, Record: o.Record, Replay: o.Replay, ReplayOn: o.ReplayOn, LogEvents: o.Log}
	if sc.Long > 0 {
		cfg.MaxSteps = 4_000_000_000
	}
	res := simrt.Run(cfg, h.main)
	out := Outcome{Result: res}
	out.Stats.Faults = map[string]int64{}
	for k, v := range h.w.Faults {
		out.Stats.Faults[k] += int64(v)
	}
	if res.Stalls > 0 {
		out.Stats.Faults["thread stalled"] += int64(res.Stalls)
	}
	if res.Preempts > 0 {
		out.Stats.Faults["thread preempted"] += int64(res.Preempts)
	}
	for k, v := range h.other {
		h.probes["observed against "+k] += v
	}
	out.Stats.Probes = h.probes
	out.Stats.Evals = h.evals
	if o.Prop == "C25" {
		out.Stats.Evals = res.Accesses
	}
	return out
}

func (h *H) main() {
	switch {
	case h.sc.Thread != nil:
		h.threadMain()
	case h.sc.FilterS != nil:
		h.filterMain()
	case len(h.sc.Multi) > 0:
		h.multiMain()
	case h.sc.Direct && h.sc.Profile == "C23":
		h.directRefusals()
	case h.sc.Direct:
		h.directMain()
	default:
		h.sessionMain()
	}
}

func (h *H) probe(name string) { h.probes[name]++ }

// fail reports a violation if the property under check is among those it counts against.
func (h *H) fail(props string, format string, a ...any) {
	h.failInfo(props, false, format, a...)
}

func (h *H) failDump(props string, format string, a ...any) {
	h.failInfo(props, true, format, a...)
}

func (h *H) failInfo(props string, dump bool, format string, a ...any) {
	if !simrt.Active() {
		return
	}
	msg := fmt.Sprintf(format, a...)
	if h.part > 0 {
		msg = fmt.Sprintf("subscriber %d: %s", h.part, msg)
	}
	if h.prop == "C25" {
		simrt.Log("not judged here (%s): %s", props, msg)
		return
	}
	if props != "*" && h.prop != "" && !strings.Contains(props, h.prop) {
		h.other[strings.Fields(props)[0]]++
		simrt.Log("not judged here (%s): %s", props, msg)
		return
	}
	simrt.Log("VIOLATION %s", msg)
	if dump {
		simrt.FailDump("oracle", "%s", msg)
	} else {
		simrt.Fail("oracle", "%s", msg)
	}
}

func (h *H) note() {
	simrt.Rel(unsafe.Pointer(h))
	h.changed.Wake()
}

// until waits for a condition, bounded in simulated time.
func (h *H) until(bound int64, cond func() bool) bool {
	end := simrt.Now() + bound
	defer simrt.Acq(unsafe.Pointer(h))
	for !cond() {
		if simrt.Now() >= end {
			return false
		}
		h.changed.WaitUntil("harness condition", end)
	}
	return true
}

// slack is the time scheduling noise may add to a bounded operation.
func (h *H) slack() int64 {
	s := int64(20 * time.Second)
	if h.sc.Strat.PStall > 0 {
		s += 60 * h.sc.Strat.MaxStall
	}
	return s
}

// bounded runs an operation of the code under test that must finish in the given simulated time.
func (h *H) bounded(props, name string, d int64, fn func()) { h.bound(props, name, d, false, fn) }

// boundedWrite is bounded for calls that send commands: the limit starts again while publishers keep reading.
func (h *H) boundedWrite(props, name string, d int64, fn func()) { h.bound(props, name, d, true, fn) }

func (h *H) bound(props, name string, d int64, writes bool, fn func()) {
	var q simrt.WaitQ
	done := false
	end := simrt.Now() + d
	read := h.pubRead
	simrt.GoHarness("watch "+name, func() {
		for !done {
			if simrt.Now() >= end {
				if writes && h.pubRead != read {
					// The publisher is still taking in commands, however slowly.
					read = h.pubRead
					end = simrt.Now() + d
					continue
				}
				h.failDump(props, "%s did not finish within %s", name, time.Duration(d))
				return
			}
			q.WaitUntil("watching "+name, end)
		}
	})
	fn()
	done = true
	q.Wake()
}

// untilRead is until with the bound restarted while the publisher still takes in commands, however slowly.
func (h *H) untilRead(d int64, cond func() bool) bool {
	for {
		read := h.pubRead
		if h.until(d, cond) {
			return true
		}
		if h.pubRead == read {
			return false
		}
	}
}

func textKeys(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func sortedKeys(m map[string]int64) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

var debugOn = os.Getenv("SIM_DEBUG") != ""
