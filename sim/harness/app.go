package harness

import (
	"fmt"
	"math"
	"slices"
	"strings"
	"time"
	"unsafe"

	"simverif/goapi/sttp"
	"simverif/goapi/sttp/data"
	"simverif/goapi/sttp/guid"
	"simverif/goapi/sttp/transport"
	"simverif/pub"
	"simverif/simrt"
)

// gen is one handler assignment.
type gen struct {
	call, ret int // harness sequence numbers, ret 0 while the call is in progress
	at        int64
	none      bool
}

type setCall struct {
	idx       int // settings version
	call, ret int
	deliv     int64
	delivRet  int64
}

type kept struct {
	p    *[]transport.Measurement
	copy []transport.Measurement
}

// keptCache is a cache the application was given, with the content it had.
type keptCache struct {
	c    *transport.SignalIndexCache
	recs []pub.Rec
}

// App is the application using the library.
type App struct {
	h                *H
	sb               *sttp.Subscriber
	gens             map[string][]*gen
	events           []*pevent
	est              bool
	estN             int
	termN            int
	ends             int
	sets             []*setCall
	unsubs           []*setCall
	metaCalls        int
	delivered        int64
	kept             []kept
	keptBlocks       [][2][]byte // buffers the application keeps, and copies of them
	keptCaches       []keptCache
	inCall           map[int]string
	onCommand        func(*PConn, cmdRec)
	reader           *sttp.MeasurementReader
	readN            int
	readerOff        bool
	connectedAllowed bool
	messages         int
	errs             int // error messages
	lastMsg          int64
	curPC            *PConn
	metaSeen         []int // seq of metadata handler calls
	metaDone         int
	estPC            []*PConn
	discN            map[string]int
	noHandlersAfter  bool // after close
	closedSeq        int
	blocks           int
	lookups          map[guid.Guid]*lookupRec
	countBase        int64
	msgLog           []string
	dials            int
	adj              map[guid.Guid]*transport.MeasurementMetadata
	notes            map[string]*note
}

// note is a message the application logged through the subscriber.
type note struct {
	seq, got int
}

type lookupRec struct {
	pc *PConn
	p  *transport.MeasurementMetadata
}

var kinds = []string{"meas", "blocks", "notif", "status", "error", "meta", "subupd", "start", "conf", "hist", "est", "term"}

func newApp(h *H) *App {
	a := &App{h: h, gens: map[string][]*gen{}, inCall: map[int]string{}, discN: map[string]int{}, lookups: map[guid.Guid]*lookupRec{}, adj: map[guid.Guid]*transport.MeasurementMetadata{}}
	h.app = a
	a.sb = sttp.NewSubscriber()
	for _, k := range kinds {
		if k == "meas" && h.sc.App.Reader {
			a.gens[k] = []*gen{{call: h.seq(), ret: h.seq()}}
			continue
		}
		if h.prints(k) {
			a.gens[k] = []*gen{{call: h.seq(), ret: h.seq(), none: k == "est" || k == "term"}}
			continue
		}
		if k == "meta" && h.sc.App.NoMeta || k == h.sc.App.Without {
			a.assign(k, true)
			continue
		}
		a.assign(k, false)
	}
	return a
}

// assign installs a fresh handler of a kind, or clears it.
func (a *App) assign(kind string, none bool) {
	h := a.h
	g := &gen{call: h.seq(), none: none}
	a.gens[kind] = append(a.gens[kind], g)
	n := len(a.gens[kind]) - 1
	h.evals++
	sb := a.sb
	on := func(payload string) { a.event(kind, n, payload) }
	switch kind {
	case "meas":
		f := func(m *[]transport.Measurement) { a.onMeas(n, m) }
		if none {
			f = nil
		}
		sb.SetNewMeasurementsReceiver(f)
	case "blocks":
		f := func(b []transport.BufferBlock) { a.onBlocks(n, b) }
		if none {
			f = nil
		}
		sb.SetNewBufferBlocksReceiver(f)
	case "notif":
		f := func(s string) { on(s) }
		if none {
			f = nil
		}
		sb.SetNotificationReceiver(f)
	case "status":
		f := func(s string) { a.onMessage(kind, n, s) }
		if none {
			f = nil
		}
		sb.SetStatusMessageLogger(f)
	case "error":
		f := func(s string) { a.onMessage(kind, n, s) }
		if none {
			f = nil
		}
		sb.SetErrorMessageLogger(f)
	case "meta":
		f := func(d *data.DataSet) { a.onMeta(n, d) }
		if none {
			f = nil
		}
		sb.SetMetadataReceiver(f)
	case "subupd":
		f := func(c *transport.SignalIndexCache) { a.onCache(n, c) }
		if none {
			f = nil
		}
		sb.SetSubscriptionUpdatedReceiver(f)
	case "start":
		f := func(t time.Time) { a.onStart(n, t) }
		if none {
			f = nil
		}
		sb.SetDataStartTimeReceiver(f)
	case "conf":
		f := func() { on("") }
		if none {
			f = nil
		}
		sb.SetConfigurationChangedReceiver(f)
	case "hist":
		f := func() { on("") }
		if none {
			f = nil
		}
		sb.SetHistoricalReadCompleteReceiver(f)
	case "est":
		f := func() { a.onEst(n) }
		if none {
			f = nil
		}
		sb.SetConnectionEstablishedReceiver(f)
	case "term":
		f := func() { a.onTerm(n) }
		if none {
			f = nil
		}
		sb.SetConnectionTerminatedReceiver(f)
	}
	g.ret, g.at = h.seq(), simrt.Now()
	h.note()
}

// gmin is the oldest handler assignment an event sent at seq may legally reach: no other assignment that began after
// it had returned was complete when the event was sent. (Which of two overlapping assignments prevails is open.)
func (a *App) gmin(kind string, seq int) int {
	gs := a.gens[kind]
	last := 0
	for _, g := range gs {
		if g.ret > 0 && g.ret < seq && g.call > last {
			last = g.call
		}
	}
	for i, g := range gs {
		if g.ret == 0 || g.ret >= last {
			return i
		}
	}
	return 0
}

// optional reports whether an event sent at seq may have met a cleared handler.
func (a *App) optional(kind string, seq int) bool {
	gs := a.gens[kind]
	for i := a.gmin(kind, seq); i < len(gs); i++ {
		if gs[i].none {
			return true
		}
	}
	return false
}

func (a *App) checkGen(kind string, n, seq int) {
	if m := a.gmin(kind, seq); n < m {
		a.h.fail("C15", "an event sent after the %s handler had been replaced (assignment %d) reached an earlier handler (%d)", kind, m, n)
	}
}

// checkGens is checkGen for events that may have the same content: calls of handlers before assignment m must not
// outnumber the events sent before that assignment had returned.
func (a *App) checkGens(kind string, n int, payload string) {
	for m := n + 1; m < len(a.gens[kind]); m++ {
		calls, events := 0, 0
		for _, e := range a.events {
			if e.kind != kind || e.want != payload {
				continue
			}
			if e.got > 0 && e.gen < m {
				calls++
			}
			if a.gmin(kind, e.seq) < m {
				events++
			}
		}
		if calls > events {
			a.h.fail("C15", "an event sent after the %s handler had been replaced (assignment %d) reached an earlier handler (%d)", kind, m, n)
			return
		}
	}
}

// missing reports whether calls of a kind's handlers with this content are fewer than the events that had to be
// reported. Which of the equal events a call belongs to is not known: an event needs any call of a handler that was
// not replaced before it was sent.
func (a *App) missing(kind, want string) bool {
	var need, calls []int
	for _, e := range a.events {
		if e.kind != kind || e.want != want {
			continue
		}
		if e.got > 0 {
			calls = append(calls, e.gen)
		}
		if !a.optional(kind, e.seq) && (e.pc == nil || !e.pc.over()) {
			need = append(need, a.gmin(kind, e.seq))
		}
	}
	if len(calls) < len(need) {
		return true
	}
	slices.Sort(need)
	slices.Sort(calls)
	for i := range need {
		if calls[len(calls)-1-i] < need[len(need)-1-i] {
			return true
		}
	}
	return false
}

// enter is called at the start of every handler.
func (a *App) enter(kind string, n int) func() {
	h := a.h
	if !simrt.Active() {
		return func() {}
	}
	h.inEnter++
	defer func() { h.inEnter--; h.note() }()
	simrt.Log("handler %s#%d", kind, n)
	if h.closed && kind != "status" && kind != "error" {
		switch kind {
		case "meas", "blocks", "start", "est", "term":
			h.fail("C11", "the %s handler ran after close had returned", kind)
		}
	}
	h.evals++
	if h.sc.App.Query {
		a.query()
		if kind != "status" && kind != "error" && h.r.P(0.3) {
			a.log()
		}
	}
	if p := h.sc.App.AssignIn; p > 0 && h.r.P(p) && !h.calm {
		h.probe("handler replaced inside of a handler")
		h.bounded("C15", "replacing a handler inside of a "+kind+" handler", h.longBound(), func() { a.assign(kinds[h.r.Intn(len(kinds))], false) })
	}
	if d := h.sc.App.EventSlow; d > 0 && !h.calm {
		simrt.Sleep(time.Duration(h.r.Uint64() % uint64(d)))
	}
	if h.sc.App.DisconnectIn == kind {
		a.discN[kind]++
		if a.discN[kind] == h.sc.App.DisconnectAt+1 {
			h.probe("disconnect from inside a handler")
			asked := h.stopBegin()
			h.bounded("C11 C15", "Disconnect from the "+kind+" handler", h.longBound(), a.sb.Disconnect)
			h.stopEnd()
			a.afterDisconnect(asked)
		}
	}
	return func() {
		h.note()
	}
}

// log writes a message through the subscriber; it reaches the logger in force once.
func (a *App) log() {
	h := a.h
	kind := simrt.Pick(h.r, "status", "error")
	t := fmt.Sprintf("note %d", len(a.notes))
	n := &note{seq: h.seq()}
	if a.notes == nil {
		a.notes = map[string]*note{}
	}
	a.notes[t] = n
	last := len(a.gens[kind]) - 1
	sure := a.gmin(kind, n.seq) == last && !a.gens[kind][last].none
	f := a.sb.StatusMessage
	if kind == "error" {
		f = a.sb.ErrorMessage
	}
	f(t)
	h.evals++
	h.probe("message logged inside of a handler")
	if n.got > 1 || n.got == 0 && sure && len(a.gens[kind]) == last+1 {
		h.fail("C15 C29", "a message the application logged inside of a handler reached its %s logger %d times", kind, n.got)
	}
}

// query calls the state queries; they must always return.
func (a *App) query() {
	sb := a.sb
	sb.IsConnected()
	sb.IsListening()
	sb.IsSubscribed()
	sb.IsValidated()
	sb.ConnectionID()
	sb.SubscriberID()
	sb.TotalCommandChannelBytesReceived()
	sb.TotalDataChannelBytesReceived()
	sb.TotalMeasurementsReceived()
	sb.ActiveSignalIndexCache()
}

// records uses what the subscriber keeps about measurements.
func (a *App) records() {
	sb := a.sb
	for i := 0; i < 8; i++ {
		m := transport.Measurement{Value: 1}
		for j := range m.SignalID {
			m.SignalID[j] = byte(a.h.r.Uint64())
		}
		if l := a.h.sigs; len(l) > 0 && i > 0 {
			m.SignalID = guid.Guid(l[a.h.r.Intn(len(l))].ID)
		}
		sb.AdjustedValue(&m)
		sb.Metadata(&m)
		c := sb.ActiveSignalIndexCache()
		if c == nil {
			continue
		}
		n := c.SignalIndex(m.SignalID)
		c.Contains(n)
		c.SignalID(n)
		c.Source(n)
		c.ID(n)
		c.Record(n)
		c.SignalIDs()
		c.Count()
	}
}

func kindTags(kind string) string {
	switch kind {
	case "meta":
		return "C07 C15"
	case "subupd":
		return "C04 C15"
	}
	return "C19 C15 C29"
}

// event matches a handler call against the events the publisher sent.
func (a *App) event(kind string, n int, payload string) {
	defer a.enter(kind, n)()
	a.match(kind, n, payload)
}

func (a *App) match(kind string, n int, payload string) {
	h := a.h
	var dup *pevent
	var old *pevent
	// Of equal events the oldest pending one of a living connection is consumed, since it is the one that has to
	// be reported.
	for _, e := range a.events {
		if e.kind != kind || e.want != payload {
			continue
		}
		if e.got > 0 {
			dup = e
			continue
		}
		if e.pc != nil && e.pc.over() {
			if old == nil {
				old = e
			}
			continue
		}
		old = e
		break
	}
	if old != nil {
		old.got++
		old.gen = n
		a.checkGens(kind, n, payload)
		h.note()
		return
	}
	if h.hostile {
		return
	}
	if dup != nil {
		h.fail(kindTags(kind), "event %s %.80q reported more often than the publisher sent it", kind, payload)
		return
	}
	h.fail(kindTags(kind), "event %s with content %.200q that the publisher never sent", kind, payload)
}

func (a *App) onMessage(kind string, n int, s string) {
	h := a.h
	defer a.enter(kind, n)()
	a.messages++
	if kind == "error" {
		a.errs++
		h.note()
	}
	a.lastMsg = simrt.Now()
	for _, g := range a.gens[kind][n+1:] {
		// The library's own messages: which handler is due is decided when one is about to be written.
		if g.ret > 0 && g.call > a.gens[kind][n].ret && simrt.Now() > g.at+10*sec+h.slack()+h.sc.App.EventSlow {
			h.fail("C15", "a message (%.80q) reached a %s logger that had been replaced %s before", s, kind, time.Duration(simrt.Now()-g.at))
			break
		}
	}
	if x := a.notes[s]; x != nil {
		x.got++
		a.checkGen(kind, n, x.seq)
		return
	}
	if i := strings.Index(s, "token-"); i >= 0 {
		t := s[i:]
		if j := strings.IndexAny(t, " \n\r\t\""); j >= 0 {
			t = t[:j]
		}
		for _, e := range a.events {
			if e.kind != kind || e.tok != t {
				continue
			}
			want := e.want
			if h.sc.App.Print > 0 {
				// an end of line may be written on its own
				want = strings.TrimRight(want, "\n")
			}
			if !strings.Contains(s, want) {
				h.fail("C19 C29", "message %q does not have the content sent, %q", s, e.want)
			}
			e.got++
			if e.got > 1 {
				h.fail("C19 C15 C29", "message %q logged %d times", t, e.got)
			}
			a.checkGen(kind, n, e.seq)
			h.note()
			return
		}
		if strings.HasPrefix(s, "NOTIFICATION") {
			return
		}
		for _, e := range a.events {
			if e.tok == t {
				// The same text also announces an event of another kind.
				return
			}
		}
		if !h.hostile {
			h.fail("C19 C29", "message with content %q that the publisher never sent", s)
		}
	} else {
		simrt.Log("message: %.120s", s)
	}
}

func sameMeas(m *transport.Measurement, e *pub.Meas) string {
	if [16]byte(m.SignalID) != [16]byte(e.ID) {
		return "id"
	}
	v := math.Float32bits(float32(m.Value))
	if v != e.Value && !(m.Value != m.Value && e.Value&0x7F800000 == 0x7F800000 && quiet(v) == quiet(e.Value)) {
		return "value"
	}
	if float64(math.Float32frombits(v)) != m.Value && m.Value == m.Value {
		return "value"
	}
	if uint64(m.Timestamp) != e.TS {
		return "timestamp"
	}
	if uint32(m.Flags) != e.Flags {
		return "flags"
	}
	return ""
}

func measText(m *transport.Measurement) string {
	return fmt.Sprintf("{signal %x time %d flags %#x value %#x}", m.SignalID[:4], uint64(m.Timestamp), uint32(m.Flags), math.Float32bits(float32(m.Value)))
}

func (h *H) lists() (out []*elist) {
	for i := len(h.conns) - 1; i >= 0; i-- {
		pc := h.conns[i]
		if pc.tcp.rest() > 0 || len(pc.tcp.alt) > 0 {
			out = append(out, pc.tcp)
		}
		for _, l := range pc.udp {
			if l.rest() > 0 || len(l.alt) > 0 {
				out = append(out, l)
			}
		}
	}
	return
}

// fits reports how many leading measurements of ms match a list from its current positions, and the positions after
// them, allowing for entries that may be missing because no handler was assigned. Since entries can be equal, several
// positions may explain what was delivered. With n >= 0 only entries that handler assignment n may get count.
func (a *App) fits(l *elist, ms []transport.Measurement, n int) (int, []int) {
	cur := append(append([]int(nil), l.alt...), l.next)
	for i := range ms {
		var to []int
		for _, p := range cur {
			for k := p; k < len(l.e); k++ {
				e := &l.e[k]
				if sameMeas(&ms[i], &e.m) == "" && (n < 0 || a.gmin("meas", e.seq) <= n) && !slices.Contains(to, k+1) {
					to = append(to, k+1)
				}
				if !e.opt && !a.optional("meas", e.seq) {
					break
				}
			}
			if len(to) > 100 {
				break
			}
		}
		if len(to) == 0 {
			return i, cur
		}
		cur = to
	}
	return len(ms), cur
}

// at sets the positions that explain what was delivered.
func (l *elist) at(pos []int) {
	l.next = slices.Max(pos)
	l.alt = nil
	for _, p := range pos {
		if p != l.next {
			l.alt = append(l.alt, p)
		}
	}
}

// deliver checks measurements handed to the application.
func (a *App) deliver(n int, ms []transport.Measurement) {
	h := a.h
	if len(ms) == 0 {
		return
	}
	if h.hostile {
		a.delivered += int64(len(ms))
		a.hostileDeliver(n, ms)
		return
	}
	for len(ms) > 0 {
		ls := h.lists()
		best, bpos, bl := 0, []int(nil), (*elist)(nil)
		for _, l := range ls {
			if c, pos := a.fits(l, ms, n); c > best {
				best, bpos, bl = c, pos, l
			}
		}
		if bl == nil && n >= 0 {
			for _, l := range ls {
				if c, pos := a.fits(l, ms, -1); c > best {
					best, bpos, bl = c, pos, l
				}
			}
			if bl != nil {
				a.checkGen("meas", n, bl.e[slices.Max(bpos)-1].seq)
			}
		}
		if bl != nil {
			bl.at(bpos)
			bl.pc.deliv += int64(best)
			a.delivered += int64(best)
			ms = ms[best:]
			continue
		}
		a.mismatch(ls, &ms[0])
		a.delivered++
		ms = ms[1:]
	}
	h.note()
}

const lossTags = "C01 C02 C03 C09 C13 C15 C16 C20"

func (a *App) mismatch(ls []*elist, m *transport.Measurement) {
	h := a.h
	if len(ls) == 0 {
		h.fail("C03 C01 C02 C16 C20 C17 C04", "measurement %s delivered although nothing was outstanding", measText(m))
		return
	}
	for _, l := range ls {
		if l.alt = nil; l.rest() == 0 {
			continue
		}
		e := &l.e[l.next]
		what := sameMeas(m, &e.m)
		// Something was lost?
		for k := l.next + 1; k < len(l.e) && k < l.next+3000; k++ {
			if sameMeas(m, &l.e[k].m) == "" {
				tags := lossTags
				h.fail(tags, "%s: %d measurements were lost before %s; the first is %s", l.name, k-l.next, measText(m), e.m)
				l.next = k + 1
				return
			}
		}
		for k := 0; k < l.next; k++ {
			if sameMeas(m, &l.e[k].m) == "" && (m.Timestamp != 0 || m.Value != 0) {
				h.fail("C01 C02 C03 C16 C20", "%s: measurement %s delivered twice or late; expected %s", l.name, measText(m), e.m)
				return
			}
		}
		tags := "C03 C01 C02 C20 C16"
		if what == "id" {
			tags += " C04"
			same := pub.Meas{ID: pub.GUID(m.SignalID), TS: e.m.TS, Flags: e.m.Flags, Value: e.m.Value}
			if sameMeas(m, &same) != "" {
				what = "content"
			}
		} else {
			if e.tssc {
				tags = "C01 C20 C16"
			} else {
				tags = "C02 C20 C16"
			}
		}
		h.fail(tags, "%s: expected %s, got %s (wrong %s; entry %d of %d)", l.name, e.m, measText(m), what, l.next, len(l.e))
		l.next++
		return
	}
	h.fail("C03 C01 C02 C16 C20 C17 C04", "measurement %s delivered although nothing was outstanding", measText(m))
}

func (a *App) between(kind string) {
	if a.optionalNow("est") {
		return
	}
	if !a.est {
		a.h.fail("C12", "%s delivered while no connection is reported as established", kind)
	}
}

// optionalNow reports whether a kind's handler was ever cleared (its events cannot be counted then).
func (a *App) optionalNow(kind string) bool {
	for _, g := range a.gens[kind] {
		if g.none {
			return true
		}
	}
	return false
}

func (a *App) onMeas(n int, p *[]transport.Measurement) {
	h := a.h
	if p == nil {
		h.fail("*", "measurement handler called with nil")
		return
	}
	defer a.enter("meas", n)()
	a.between("measurements")
	id := simrt.TaskID()
	if a.inCall[id] != "" {
		h.fail("C01", "measurement handler re-entered on one thread")
	}
	a.inCall[id] = "meas"
	a.deliver(n, *p)
	if h.sc.App.Slow > 0 && !h.calm && h.r.P(h.sc.App.Slow) {
		before := append([]transport.Measurement(nil), *p...)
		simrt.Sleep(time.Duration(h.r.Uint64() % uint64(h.sc.App.SlowMax+1)))
		a.same(before, *p, "while the handler was using it")
	}
	// Slices that were not given back must stay as they are.
	for _, k := range a.kept {
		a.same(k.copy, *k.p, "although the application had not given it back")
	}
	delete(a.inCall, id)
	if h.r.P(h.sc.App.Pool) {
		a.sb.PutMeasurementSlice(p)
	} else {
		a.kept = append(a.kept, kept{p, append([]transport.Measurement(nil), *p...)})
		if len(a.kept) > 3 {
			a.kept = a.kept[1:]
		}
	}
}

func (a *App) same(x, y []transport.Measurement, why string) {
	if len(x) != len(y) {
		a.h.fail("C01 C02 C03", "a delivered slice of measurements changed its length %s", why)
		return
	}
	for i := range x {
		if x[i].SignalID != y[i].SignalID || math.Float64bits(x[i].Value) != math.Float64bits(y[i].Value) || x[i].Timestamp != y[i].Timestamp || x[i].Flags != y[i].Flags {
			a.h.fail("C01 C02 C03", "a delivered slice of measurements was overwritten %s", why)
			return
		}
	}
}

func (a *App) onBlocks(n int, bs []transport.BufferBlock) {
	h := a.h
	defer a.enter("blocks", n)()
	a.between("buffer blocks")
	if h.hostile {
		return
	}
	pc := h.blockConn()
	if len(bs) == 0 {
		return
	}
	if pc == nil {
		h.fail("C05", "buffer blocks delivered but none were sent")
		return
	}
	for i := range bs {
		b := &bs[i]
		for {
			want := pc.blk[pc.blkGot]
			if want == nil || !pc.sentBlk(pc.blkGot) {
				h.fail("C05", "connection %d: unexpected buffer block (signal %x, %d bytes); block %d has not been sent", pc.id, b.SignalID[:4], len(b.Buffer), pc.blkGot)
				return
			}
			ok := [16]byte(b.SignalID) == [16]byte(want.id) && string(b.Buffer) == string(want.buf)
			if !ok && a.optional("blocks", want.seq) {
				pc.blkGot++
				continue
			}
			if !ok {
				h.fail("C05", "connection %d: buffer block %d arrived as signal %x with %d bytes, sent as signal %x with %d bytes", pc.id, pc.blkGot, b.SignalID[:4], len(b.Buffer), want.id[:4], len(want.buf))
			} else {
				a.checkGen("blocks", n, want.seq)
			}
			pc.blkGot++
			break
		}
	}
	a.blocks += len(bs)
	a.unchanged()
	if h.r.P(0.3) {
		// The application owns what it got.
		for i := range bs {
			for j := range bs[i].Buffer {
				bs[i].Buffer[j] ^= 0x5A
			}
		}
	}
	for i := range bs {
		a.keptBlocks = append(a.keptBlocks, [2][]byte{bs[i].Buffer, append([]byte(nil), bs[i].Buffer...)})
	}
	simrt.Rel(unsafe.Pointer(&a.keptCaches))
	if n := len(a.keptBlocks); n > 6 {
		a.keptBlocks = a.keptBlocks[n-6:]
	}
	h.note()
}

// unchanged checks that what the application was given stays as it was.
func (a *App) unchanged() {
	simrt.Acq(unsafe.Pointer(&a.keptCaches))
	for _, k := range a.keptBlocks {
		if string(k[0]) != string(k[1]) {
			a.h.fail("C05", "a buffer block of %d bytes changed after it had been delivered", len(k[0]))
		}
	}
	for _, k := range a.keptCaches {
		if !cacheEqual(k.c, k.recs) {
			a.h.fail("C04", "a signal index cache changed after it had been reported")
		}
	}
}

func (pc *PConn) sentBlk(k uint32) bool { b := pc.blk[k]; return b != nil && b.sent > 0 }

// blockConn is the connection whose blocks are being received.
func (h *H) blockConn() *PConn {
	for i := len(h.conns) - 1; i >= 0; i-- {
		if len(h.conns[i].blk) > 0 {
			return h.conns[i]
		}
	}
	return nil
}

func cacheText(recs []pub.Rec) string {
	var b strings.Builder
	for _, r := range recs {
		fmt.Fprintf(&b, "%d=%x/%s:%d;", r.Index, r.ID, r.Source, r.Num)
	}
	return b.String()
}

func (a *App) onCache(n int, c *transport.SignalIndexCache) {
	h := a.h
	defer a.enter("subupd", n)()
	if h.hostile {
		return
	}
	if c == nil {
		h.fail("C04", "subscription update reported without a cache")
		return
	}
	// Render the reported cache in the order of each candidate.
	for _, pc := range h.conns {
		for _, k := range pc.allCaches {
			if k.report > 0 || !cacheEqual(c, k.recs) {
				continue
			}
			k.report++
			a.match("subupd", n, cacheText(k.recs))
			a.unchanged()
			if a.keptCaches = append(a.keptCaches, keptCache{c, k.recs}); len(a.keptCaches) > 3 {
				a.keptCaches = a.keptCaches[1:]
			}
			simrt.Rel(unsafe.Pointer(&a.keptCaches))
			return
		}
	}
	h.fail("C04", "reported signal index cache (%d records) differs from every cache the publisher sent and had not been reported yet", c.Count())
}

func cacheEqual(c *transport.SignalIndexCache, recs []pub.Rec) bool {
	if int(c.Count()) != len(recs) {
		return false
	}
	ids := c.SignalIDs()
	if len(ids) != len(recs) {
		return false
	}
	for _, r := range recs {
		id, src, num, ok := c.Record(r.Index)
		if !ok || [16]byte(id) != [16]byte(r.ID) || src != r.Source || num != r.Num || c.SignalIndex(id) != r.Index || !c.Contains(r.Index) ||
			[16]byte(c.SignalID(r.Index)) != [16]byte(r.ID) || c.Source(r.Index) != r.Source || c.ID(r.Index) != r.Num {
			return false
		}
		if _, ok := ids[id]; !ok {
			return false
		}
	}
	// Indexes next to those in use, and the identifier next to one in use, must not be found.
	used := map[int32]bool{}
	for _, r := range recs {
		used[r.Index] = true
	}
	if id := (guid.Guid{1}); used[c.SignalIndex(id)] && !slices.ContainsFunc(recs, func(r pub.Rec) bool { return [16]byte(r.ID) == [16]byte(id) }) {
		return false
	}
	odd := []int32{-1, 0, 1 << 30, int32(len(recs))}
	for i := 0; i < len(recs) && i < 4; i++ {
		odd = append(odd, recs[i].Index+1, recs[i].Index-1)
	}
	for _, k := range odd {
		id, src, num, ok := c.Record(k)
		if !used[k] && (ok || id != guid.Empty || src != "" || num != 0 || c.Contains(k) || c.SignalID(k) != guid.Empty || c.Source(k) != "") {
			return false
		}
	}
	return true
}

func (a *App) onStart(n int, t time.Time) {
	h := a.h
	defer a.enter("start", n)()
	a.between("a data start time")
	if h.hostile {
		return
	}
	a.match("start", n, startText(t))
}

func startText(t time.Time) string { return t.UTC().Format("2006-01-02T15:04:05.0000000") }

func (a *App) onEst(n int) {
	h := a.h
	pc := h.newestServed()
	if a.est && !a.optionalNow("term") {
		h.fail("C12", "connection established reported again without a terminated event in between")
	}
	a.est = true
	a.estN++
	if h.stops == 0 && len(h.conns) == 0 {
		h.fail("C12", "connection established reported although no connection was ever made")
	}
	if pc != nil {
		a.estPC = append(a.estPC, pc)
		// What earlier connections did not deliver is lost, except what a reader handed over
		// to an application that has not looked at it yet.
		for _, o := range h.conns {
			if o != pc && o.lib.Closed() && h.readers == 0 {
				o.tcp.next, o.tcp.alt = len(o.tcp.e), nil
			}
		}
		if a.sb.IsValidated() && !pc.anyValid() && h.connCount() == 1 && !h.hostile {
			h.fail("C08", "connection %d is reported as validated before any response was sent on it", pc.id)
		}
	}
	if a.estN-a.termN > 1 && !a.optionalNow("term") {
		h.fail("C12", "%d established events but only %d terminated events", a.estN, a.termN)
	}
	defer a.enter("est", n)()
	a.report("status", a.sb.DefaultConnectionEstablishedReceiver)
}

func (pc *PConn) anyValid() bool { return pc.validSent || pc.sent > 0 }

// connCount is the number of connections that are not known to be over.
func (h *H) connCount() (n int) {
	for _, pc := range h.conns {
		if !pc.lib.Closed() {
			n++
		}
	}
	return
}

func (h *H) newestServed() *PConn {
	for i := len(h.conns) - 1; i >= 0; i-- {
		if !h.conns[i].rogue {
			return h.conns[i]
		}
	}
	return nil
}

func (a *App) onTerm(n int) {
	h := a.h
	h.inEnter++
	defer func() { h.inEnter-- }()
	if !a.est && !a.optionalNow("est") {
		h.fail("C12", "connection terminated reported without an established event before it")
	}
	a.est = false
	a.termN++
	if a.sb.IsConnected() {
		h.fail("C12", "IsConnected is true inside the terminated handler")
	}
	defer a.enter("term", n)()
	a.report("error", a.sb.DefaultConnectionTerminatedReceiver)
}

// afterDisconnect checks what holds at once when Disconnect has returned, unless the application asked for a connection
// since it called it.
func (a *App) afterDisconnect(asked int) {
	if a.h.asked != asked {
		return
	}
	// the application may connect again while the question is being answered
	if a.sb.IsConnected() && a.h.asked == asked {
		a.h.fail("C12 C11", "IsConnected is true after Disconnect returned")
	}
}
