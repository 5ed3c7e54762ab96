package harness

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"slices"
	"time"

	"simverif/pub"
	"simverif/simnet"
	"simverif/simrt"
)

// expM is one measurement the application has to see.
type expM struct {
	m    pub.Meas
	seq  int // harness sequence number when it was sent
	tssc bool
	sock *simnet.UDPConn
	opt  bool // may or may not be delivered
}

// elist is the ordered list of what one channel of one connection has to deliver.
type elist struct {
	name string
	e    []expM
	next int
	alt  []int // other positions that explain what was delivered, all before next
	pc   *PConn
	sock *simnet.UDPConn // UDP: entries count only while the socket is open
	open bool            // sent after a cache that was never confirmed etc.
}

func (l *elist) rest() int { return len(l.e) - l.next }

func (l *elist) dead() bool { return l.sock != nil && l.sock.Closed() }

type pcache struct {
	idx    int
	recs   []pub.Rec
	enc    *pub.Encoder
	hist   []*sigHist
	conf   bool
	n      int
	report int
	event  *pevent
	old    [][]byte // recent packets of the compressed sequence
}

type cmdRec struct {
	code byte
	data []byte
	seq  int
	at   int64
}

type writeRec struct {
	pos int64
	seq int
}

type subReq struct {
	raw                string
	kv                 map[string]string
	seq                int
	udp                int
	time               bool
	millis             bool
	version            int
	delivAt, delivFrom int64
}

// event the publisher sends that the application has to see once.
type pevent struct {
	kind string // handler kind
	want string
	tok  string // the part of the text that is unique
	pc   *PConn
	seq  int
	got  int
	gen  int   // assignment of the handler that was called
	tcp  int64 // stream position of the end of the frame
	sub  bool  // match by substring
	lost bool
}

type outFrame struct {
	b []byte
	f func()
}

// PConn is the publisher's side of one connection.
type PConn struct {
	h       *H
	id      int
	lib     *simnet.TCPConn
	c       *simnet.TCPConn
	script  ConnScript
	born    int64
	q       []outFrame
	qw      simrt.WaitQ
	sent    int64
	writing bool

	answers   int  // answers to subscribe and unsubscribe requests
	confirmed bool // the last one confirmed a subscription
	everOK    bool // one of them did
	unclear   bool // the last one was a refusal

	rx            []cmdRec
	dead          bool // the publisher saw the end
	broken        bool // the publisher or a fault ended it, or hostile bytes were sent
	excused       bool // the application asked for the end
	rogue         bool
	modes         uint32
	gotModes      bool
	replied       bool
	validSent     bool
	sub           *subReq
	subs          []*subReq
	subscribed    bool
	caches        [2]*pcache
	allCaches     []*pcache
	subID         pub.GUID // subscriber ID announced with the caches
	lastIdx       int
	active        *pcache
	waitConf      []*pcache
	tcp           *elist
	udp           []*elist
	tick          int64
	keys          [][]byte
	keyOdd        bool
	base          [2]int64
	baseIdx       int
	ntf           uint32
	acked         map[uint32]int
	ntfSent       map[uint32]int
	blk           map[uint32]*blkRec
	blkOrder      []pendingBlk
	blkNext       uint32
	blkConf       map[uint32]int
	blkGot        uint32
	metaReq       int
	metaSeq       []int
	subSeq        []int
	unsubs        int
	needCache     bool
	scriptDone    bool
	subRefused    bool
	udpHalt       bool
	corrupt       bool
	writes        []writeRec
	rpos          int64 // stream position after the command being processed
	wseq          int   // when the write of that command began
	udpSent       int64
	hostile       bool
	served        bool
	epoch         uint32
	cmdErr        string
	libClosedSeen bool
	onDead        func()
	streamStop    bool
	streaming     bool
	subResp       int
	confChange    int
	reacts        []func()
	reacting      bool
	confMeta      int
	accepted      bool
	deliv         int64
	mayTurn       bool
	libClosedAt   int64
	startSeq      int
	causes        []int64
	metaHandled   int
	missConf      []uint32
	hostileDone   bool
	brokenAt      int64
	refused       bool
}

type blkRec struct {
	id   pub.GUID
	buf  []byte
	sent int
	seq  int
}

type pendingBlk struct{ seq uint32 }

func (h *H) seq() int { h.setSeq++; return h.setSeq }

func (h *H) newConn(lib, peer *simnet.TCPConn) *PConn {
	pc := &PConn{h: h, id: len(h.conns), lib: lib, c: peer, born: simrt.Now(), acked: map[uint32]int{}, ntfSent: map[uint32]int{}, blk: map[uint32]*blkRec{}, blkConf: map[uint32]int{}}
	pc.epoch = uint32(pc.id + 1)
	pc.startSeq = h.seq()
	lib.OnWrite = func(pos int64) { pc.writes = append(pc.writes, writeRec{pos, h.seq()}) }
	pc.tcp = &elist{name: fmt.Sprintf("connection %d", pc.id), pc: pc}
	pc.lastIdx = h.r.Intn(2)
	n := len(h.sc.Conns)
	switch {
	case pc.id < n && !(h.hostile && h.calm):
		pc.script = h.sc.Conns[pc.id]
	default:
		pc.script = ConnScript{Ops: []PubOp{{K: "stream", N: 1 << 30, M: 3, D: int64(50 * time.Millisecond)}}, Linger: true}
	}
	s := &pc.script
	if s.CutAt > 0 {
		kind := "connection closed by peer mid-stream"
		if s.CutRst {
			kind = "connection reset mid-stream"
		}
		lib.CutAfter(s.CutAt, s.CutRst, kind)
		lib.OnCut = func() { pc.breaks(); h.note() }
	}
	if s.CutIn > 0 {
		kind := "connection closed while receiving commands"
		if s.CutRst {
			kind = "connection reset while receiving commands"
		}
		peer.CutAfter(s.CutIn, s.CutRst, kind)
		peer.OnCut = func() { pc.breaks(); h.note() }
	}
	for _, c := range h.sc.Corrupt {
		if c.Conn == pc.id && !h.calm {
			lib.Corrupt(c.Off, c.X)
			pc.broken = true
			pc.hostile = true
			pc.corrupt = true
		}
	}
	h.conns = append(h.conns, pc)
	return pc
}

func (h *H) connOf(c *simnet.TCPConn) *PConn {
	for _, p := range h.conns {
		if p.c == c {
			return p
		}
	}
	return nil
}

func (pc *PConn) start() {
	h := pc.h
	simrt.Log("publisher: connection %d", pc.id)
	simrt.GoHarness(fmt.Sprintf("publisher reader %d", pc.id), pc.reader)
	simrt.GoHarness(fmt.Sprintf("publisher writer %d", pc.id), pc.writer)
	if pc.rogue {
		return
	}
	simrt.GoHarness(fmt.Sprintf("publisher script %d", pc.id), func() {
		pc.runScript()
		pc.scriptDone = true
		h.note()
	})
}

func (pc *PConn) push(b []byte, f func()) {
	pc.q = append(pc.q, outFrame{b, f})
	pc.qw.Wake()
}

// respond queues a response on the command channel.
func (pc *PConn) respond(resp, cmd byte, data []byte) {
	pc.answer(resp, cmd)
	pc.push(pub.Frame(pub.Response(resp, cmd, data)), nil)
}

func (pc *PConn) writer() {
	for {
		for len(pc.q) == 0 {
			if pc.dead {
				return
			}
			pc.qw.Wait("publisher has nothing to send")
		}
		f := pc.q[0]
		pc.q[0] = outFrame{}
		pc.q = pc.q[1:]
		pc.writing = true
		n, err := pc.c.Write(f.b)
		pc.writing = false
		pc.sent += int64(n)
		if err != nil {
			pc.markDead()
			return
		}
		if f.f != nil {
			f.f()
		}
		pc.h.note()
	}
}

func (pc *PConn) markDead() {
	if !pc.dead {
		pc.dead = true
		simrt.Log("publisher: connection %d is over", pc.id)
	}
	pc.qw.Wake()
	pc.h.note()
	if f := pc.onDead; f != nil {
		pc.onDead = nil
		f()
	}
}

func (pc *PConn) reader() {
	h := pc.h
	hdr := make([]byte, 4)
	in := counted{pc}
	defer pc.markDead()
	for {
		if _, err := io.ReadFull(in, hdr); err != nil {
			if err == io.ErrUnexpectedEOF && !pc.broken && !pc.excused && h.inStop == 0 && h.stops == 0 && !pc.hostile {
				h.fail("C06", "connection %d ended inside a command frame", pc.id)
			}
			return
		}
		n := binary.BigEndian.Uint32(hdr)
		if n == 0 || n > 1<<24 {
			h.fail("C06 C20 C08 C21", "connection %d: command frame with length %d", pc.id, n)
			return
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(in, b); err != nil {
			return
		}
		for len(pc.writes) > 1 && pc.writes[1].pos <= pc.rpos {
			pc.writes = pc.writes[1:]
		}
		if len(pc.writes) > 0 {
			pc.wseq = pc.writes[0].seq
		}
		pc.rpos += int64(n) + 4
		pc.command(b[0], b[1:])
	}
}

// counted counts the bytes publishers have read.
type counted struct{ pc *PConn }

func (r counted) Read(b []byte) (int, error) {
	n, err := r.pc.c.Read(b)
	r.pc.h.pubRead += int64(n)
	return n, err
}

// delay queues a reaction of the publisher; reactions happen one after another, without blocking its reader.
func (pc *PConn) delay(f func()) {
	pc.reacts = append(pc.reacts, f)
	if pc.reacting {
		return
	}
	if pc.script.Delay <= 0 && len(pc.udp) == 0 {
		pc.reacts = nil
		f()
		return
	}
	pc.reacting = true
	simrt.GoHarness("publisher reactions", func() {
		for len(pc.reacts) > 0 {
			f := pc.reacts[0]
			pc.reacts = pc.reacts[1:]
			if d := pc.script.Delay; d > 0 {
				simrt.Sleep(time.Duration(pc.h.r.Uint64() % uint64(d)))
			}
			f()
			pc.h.note()
		}
		pc.reacting = false
	})
}

func knownCommand(c byte) bool {
	return c <= pub.CmdConfirmKeys || (c >= 0xD0 && c <= 0xDF)
}

func (pc *PConn) command(code byte, data []byte) {
	h := pc.h
	rec := cmdRec{code, data, h.seq(), simrt.Now()}
	pc.rx = append(pc.rx, rec)
	simrt.Log("publisher %d: command %#x, %d bytes", pc.id, code, len(data))
	h.evals++
	if !knownCommand(code) {
		h.fail("C06 C20", "connection %d: unknown command %#x", pc.id, code)
	}
	if len(pc.rx) == 1 && code != pub.CmdOpModes {
		h.fail("C08 C06", "connection %d: first command is %#x, not the operational modes", pc.id, code)
	}
	if len(pc.rx) > 1 && code == pub.CmdOpModes {
		h.fail("C08 C06", "connection %d: operational modes sent twice", pc.id)
	}
	if h.app != nil && h.app.onCommand != nil {
		h.app.onCommand(pc, rec)
	}
	switch code {
	case pub.CmdOpModes:
		if len(data) != 4 {
			h.fail("C06 C08", "operational modes command with %d bytes of payload", len(data))
			return
		}
		pc.modes = binary.BigEndian.Uint32(data)
		pc.gotModes = true
		h.checkModes(pc)
		pc.delay(pc.replyModes)
	case pub.CmdMetadata:
		pc.metaReq++
		pc.metaSeq = append(pc.metaSeq, rec.seq)
		h.checkMetaReq(pc, data)
		pc.delay(func() { pc.replyMeta() })
	case pub.CmdSubscribe:
		s, err := parseSub(data)
		if err != nil {
			h.fail("C06 C21 C20", "connection %d: malformed subscription request: %v", pc.id, err)
			return
		}
		s.seq = rec.seq
		pc.subs = append(pc.subs, s)
		s.delivAt = pc.deliv
		s.delivFrom = 0
		if n := len(pc.causes); n > 0 {
			s.delivFrom = pc.causes[n-1]
		}
		h.checkSub(pc, s)
		h.checkOrder(pc, s)
		pc.strayDatagrams(s)
		pc.delay(func() { pc.replySub(s) })
	case pub.CmdUnsubscribe:
		pc.unsubs++
		if len(data) != 0 {
			h.fail("C06", "unsubscribe command with %d bytes of payload", len(data))
		}
		pc.sub = nil
		pc.subscribed = false
		pc.delay(func() {
			pc.tell("status", pub.RespOK, pub.CmdUnsubscribe)
		})
	case pub.CmdConfirmNotify:
		if len(data) != 4 {
			h.fail("C06 C19", "notification confirmation with %d bytes", len(data))
			return
		}
		k := binary.BigEndian.Uint32(data)
		pc.acked[k]++
		if pc.acked[k] > pc.ntfSent[k] {
			h.fail("C19 C06", "connection %d: notification %d confirmed %d times but sent %d times", pc.id, k, pc.acked[k], pc.ntfSent[k])
		}
	case pub.CmdConfirmBlock:
		if len(data) != 4 {
			h.fail("C06 C05", "buffer block confirmation with %d bytes", len(data))
			return
		}
		k := binary.BigEndian.Uint32(data)
		pc.blkConf[k]++
		if b := pc.blk[k]; b == nil || pc.blkConf[k] > b.sent {
			h.fail("C05", "connection %d: buffer block %d confirmed more often than it was sent", pc.id, k)
		}
	case pub.CmdConfirmCache:
		if len(data) != 0 {
			h.fail("C06 C04", "cache confirmation with %d bytes", len(data))
		}
		if len(pc.waitConf) == 0 {
			if !pc.hostile {
				h.fail("C04", "connection %d: signal index cache confirmed more often than sent", pc.id)
			}
			return
		}
		c := pc.waitConf[0]
		pc.waitConf = pc.waitConf[1:]
		c.conf = true
		if pc.active == nil || c.n >= pc.active.n {
			pc.active = c
		}
	}
	h.note()
}

func parseSub(data []byte) (*subReq, error) {
	if len(data) < 5 {
		return nil, fmt.Errorf("%d bytes", len(data))
	}
	if data[0]&pub.FlagCompact == 0 {
		return nil, fmt.Errorf("flags %#x", data[0])
	}
	n := binary.BigEndian.Uint32(data[1:])
	if int(n) != len(data)-5 {
		return nil, fmt.Errorf("length %d but %d bytes", n, len(data)-5)
	}
	s := &subReq{raw: string(data[5:])}
	kv, err := pub.ParseConn(s.raw)
	if err != nil {
		return nil, err
	}
	s.kv = kv
	s.time = kv["includetime"] == "true" || kv["includetime"] == "1"
	s.millis = kv["usemillisecondresolution"] == "true" || kv["usemillisecondresolution"] == "1"
	if d, ok := kv["datachannel"]; ok {
		m, err := pub.ParseConn(d)
		if err != nil {
			return nil, err
		}
		fmt.Sscanf(m["localport"], "%d", &s.udp)
	}
	return s, nil
}

// token creates an event with unique text content.
func (h *H) token(kind string, pc *PConn) *pevent {
	h.tok++
	e := &pevent{kind: kind, tok: fmt.Sprintf("token-%d-%x", h.tok, uint32(h.r.Uint64())), pc: pc, seq: h.seq(), sub: true}
	e.want = e.tok
	if h.r.P(0.3) {
		// The text is the publisher's business: nothing in it may be lost or taken for something else.
		e.want = simrt.Pick(h.r, "", " ", "\n", "\t ", "%s%d ", "\u00e9\u20ac", "\x00", "{\"a\": ") + e.want + simrt.Pick(h.r, "", " ", "\n", "\n\n", " \t", " 100% %!d(x)", " \u00fc \U0001F600", "\n\x00", " \\n;{}", "\r\n")
		h.probe("message text with unusual characters")
	}
	h.app.events = append(h.app.events, e)
	return e
}

// answer notes whether the publisher last confirmed a subscription or its end; a refusal leaves that open.
func (pc *PConn) answer(resp, cmd byte) {
	if cmd != pub.CmdSubscribe && cmd != pub.CmdUnsubscribe || resp != pub.RespOK && resp != pub.RespFail {
		return
	}
	pc.answers++
	pc.confirmed = cmd == pub.CmdSubscribe && resp == pub.RespOK
	pc.everOK = pc.everOK || pc.confirmed
	pc.unclear = resp != pub.RespOK && (pc.everOK || pc.unclear)
}

// tell answers a command, mostly with a text for the application to see.
func (pc *PConn) tell(kind string, resp, cmd byte) {
	h := pc.h
	if h.r.P(0.12) {
		h.probe("answer without a text")
		pc.answer(resp, cmd)
		pc.push(pub.Frame(pub.Response(resp, cmd, nil)), nil)
		return
	}
	t := h.token(kind, pc)
	pc.respondEvent(t, resp, cmd, []byte(t.want))
}

func (pc *PConn) respondEvent(e *pevent, resp, cmd byte, data []byte) {
	pc.answer(resp, cmd)
	pc.push(pub.Frame(pub.Response(resp, cmd, data)), nil)
}

func (pc *PConn) version() byte { return byte(pc.modes & 0x1F) }

func (pc *PConn) replyModes() {
	h := pc.h
	if pc.replied || pc.dead {
		return
	}
	pc.replied = true
	switch pc.script.Modes {
	case "", "noopfirst":
		if pc.version() < 2 {
			pc.validSent = true
			break
		}
		if pc.script.Modes == "noopfirst" {
			pc.respond(pub.RespNoOP, 0, nil)
		}
		pc.validSent = true
		pc.tell("status", pub.RespOK, pub.CmdOpModes)
	case "fail":
		h.w.Fault("session refused by publisher")
		pc.validSent = true
		pc.broken = true
		pc.refused = true
		cmd := byte(pub.CmdOpModes)
		if pc.version() < 2 && h.r.P(0.5) {
			cmd = pub.CmdConnect
		}
		pc.tell("error", pub.RespFail, cmd)
		pc.push(nil, func() { pc.breaks(); pc.c.Close(); pc.markDead() })
	case "failkeep":
		h.w.Fault("session refused by publisher")
		pc.validSent = true
		pc.tell("error", pub.RespFail, pub.CmdOpModes)
	case "silent":
		h.w.Fault("set-up never answered")
		pc.broken = true
	case "closeearly":
		h.w.Fault("connection closed during set-up")
		pc.broken = true
		pc.push(nil, func() { pc.c.Close(); pc.markDead() })
	case "rstearly":
		h.w.Fault("connection reset during set-up")
		pc.broken = true
		pc.push(nil, func() { pc.c.Reset(); pc.markDead() })
	default:
		pc.badFirst(pc.script.Modes)
	}
}

// breaks notes that the connection ends without the subscriber wanting it.
func (pc *PConn) breaks() {
	pc.broken = true
	if pc.brokenAt == 0 {
		pc.brokenAt = simrt.Now()
	}
}

// cut ends the connection from the publisher's side.
func (pc *PConn) cut(rst bool) {
	if pc.dead {
		return
	}
	pc.breaks()
	if rst {
		pc.h.w.Fault("connection reset by publisher")
		pc.c.Reset()
	} else {
		pc.h.w.Fault("connection closed by publisher")
		pc.c.Close()
	}
	pc.markDead()
}

func (pc *PConn) replyMeta() {
	h := pc.h
	if pc.dead || !pc.gotModes {
		return
	}
	if pc.script.MetaFail {
		pc.tell("error", pub.RespFail, pub.CmdMetadata)
		return
	}
	v := h.newMeta(pc)
	b := v.xml
	if pc.modes&pub.ModeCompMetadata != 0 {
		b = pub.GZip(b)
	}
	pc.respond(pub.RespOK, pub.CmdMetadata, b)
}

func (pc *PConn) replySub(s *subReq) {
	h := pc.h
	if pc.dead {
		return
	}
	if pc.script.SubFail > 0 && !h.calm {
		pc.script.SubFail--
		pc.subRefused = true
		h.w.Fault("subscription refused by publisher")
		pc.tell("error", pub.RespFail, pub.CmdSubscribe)
		return
	}
	if pc.subs[len(pc.subs)-1] != s || pc.unsubAfter(s) > 0 {
		// A newer request is already here; answer this one only formally.
		pc.tell("status", pub.RespOK, pub.CmdSubscribe)
		return
	}
	if len(pc.udp) > 0 || pc.udpSent > 0 {
		// Datagrams on their way refer to earlier caches: let them pass first.
		pc.subscribed = false
		pc.drainUDP()
		if pc.dead {
			return
		}
		if pc.subs[len(pc.subs)-1] != s || pc.unsubAfter(s) > 0 {
			pc.tell("status", pub.RespOK, pub.CmdSubscribe)
			return
		}
	}
	pc.grant(s)
}

// unsubAfter counts unsubscribe requests received after a subscription request.
func (pc *PConn) unsubAfter(s *subReq) (n int) {
	for _, c := range pc.rx {
		if c.code == pub.CmdUnsubscribe && c.seq > s.seq {
			n++
		}
	}
	return
}

func (pc *PConn) grant(s *subReq) {
	h := pc.h
	first := h.r.P(0.5)
	if first {
		pc.tell("status", pub.RespOK, pub.CmdSubscribe)
	}
	pc.sub = s
	pc.subscribed = true
	pc.newCache()
	if !first {
		pc.tell("status", pub.RespOK, pub.CmdSubscribe)
	}
	pc.served = true
	h.note()
}

// drainUDP waits until no datagram of this connection is waiting to be processed.
func (pc *PConn) drainUDP() bool {
	h := pc.h
	if len(pc.udp) == 0 && pc.udpSent == 0 {
		return true
	}
	h.until(int64(5*time.Second), func() bool { return pc.udpInFlight() == 0 })
	return h.until(h.flushBound(), func() bool {
		if pc.dead {
			return true
		}
		for _, l := range pc.udp {
			if l.rest() > 0 && !l.dead() {
				return false
			}
		}
		return true
	})
}

func (pc *PConn) udpInFlight() int64 { return pc.udpSent }

// newCache sends a signal index cache for a random subset of the signals.
func (pc *PConn) newCache() { pc.sendCache(false) }

// emptyCache sends a signal index cache without signals, as for a filter that selects nothing yet, and later one with
// signals.
func (pc *PConn) emptyCache() {
	h := pc.h
	sub := pc.sub
	pc.sendCache(true)
	h.probe("signal index cache without signals")
	if h.r.P(0.5) {
		pc.pause(int64(h.r.Intn(int(200 * ms))))
	}
	if h.r.P(0.5) {
		pc.barrier()
	}
	if pc.over() || pc.sub != sub {
		return
	}
	pc.newCache()
}

func (pc *PConn) sendCache(empty bool) {
	h := pc.h
	idx := 0
	if pc.version() >= 2 {
		idx = pc.lastIdx ^ 1
		pc.lastIdx = idx
		if pc.active != nil && pc.active.idx == idx && pc.caches[idx^1] != nil {
			// The slot in use is about to be replaced: switch to the pending cache first.
			pc.active = pc.caches[idx^1]
		}
	}
	c := &pcache{idx: idx, n: len(pc.allCaches) + 1}
	n := 1 + h.r.Intn(len(h.sigs))
	if h.r.P(0.3) {
		n = len(h.sigs)
	}
	if empty {
		n = 0
	}
	off := h.r.Intn(len(h.sigs))
	var at int32
	wild := h.r.P(0.25)
	if h.r.P(0.5) {
		at = int32(h.r.Intn(1000))
	}
	used := map[int32]bool{}
	for i := 0; i < n; i++ {
		r := h.sigs[(off+i)%len(h.sigs)]
		if wild {
			at = int32(h.r.Uint64())
			switch h.r.Intn(3) {
			case 0:
				at = int32(h.r.Intn(1 << 20))
			case 1:
				at = int32(h.r.Intn(1 << 12))
			}
		}
		for used[at] {
			at++
		}
		used[at] = true
		r.Index = at
		at++
		c.recs = append(c.recs, r)
		c.hist = append(c.hist, newHist(h.r))
	}
	if len(pc.allCaches) == 0 {
		for i := range pc.subID {
			pc.subID[i] = byte(h.r.Uint64())
		}
	}
	c.enc = pub.NewEncoder()
	c.enc.Vary = h.r
	c.enc.PVary = h.sc.Vary
	body := pub.CacheBody(pc.subID, c.recs, h.sc.Cfg.RFC)
	if pc.modes&pub.ModeCompCache != 0 {
		body = pub.GZip(body)
	}
	if pc.version() >= 2 {
		body = append([]byte{byte(idx * simrt.Pick(h.r, 1, 1, 255))}, body...)
	}
	pc.respond(pub.RespCache, pub.CmdSubscribe, body)
	pc.caches[idx] = c
	pc.allCaches = append(pc.allCaches, c)
	e := &pevent{kind: "subupd", pc: pc, seq: h.seq(), want: cacheText(c.recs)}
	h.app.events = append(h.app.events, e)
	c.event = e
	if pc.version() >= 2 {
		pc.waitConf = append(pc.waitConf, c)
		if pc.active == nil || (pc.sub == nil || pc.sub.udp == 0) && h.r.P(0.4) {
			pc.active = c
		}
	} else {
		c.conf = true
		pc.active = c
	}
}

func (pc *PConn) tsscOn() bool {
	return pc.modes&pub.ModeCompPayload != 0 && pc.modes&pub.ModeTSSC != 0 && pc.sub != nil && pc.sub.udp == 0
}

// ready reports whether data can be published now.
func (pc *PConn) ready() bool {
	if pc.dead || !pc.subscribed || pc.sub == nil || pc.active == nil || len(pc.active.recs) == 0 {
		return false
	}
	if pc.sub.udp > 0 {
		return pc.active.conf && len(pc.waitConf) == 0
	}
	return true
}

// maxDatagramBody keeps a datagram, with its headers and the padding of its encryption, within the largest packet.
const maxDatagramBody = 32768 - 6 - 1 - 4 - 16 - 32

// sendData publishes one packet of m measurements on the current channel.
func (pc *PConn) sendData(m int) {
	h := pc.h
	if !pc.ready() {
		return
	}
	c := pc.active
	tssc := pc.tsscOn()
	flags := byte(pub.FlagCompact)
	if c.idx == 1 {
		flags |= pub.FlagCacheOne
	}
	seq := h.seq()
	if h.r.P(0.01) && (pc.sub.udp == 0 || !slices.ContainsFunc(pc.script.Ops, func(o PubOp) bool { return o.K == "keys" })) {
		// Nothing tells when an empty datagram has been handled, which new keys have to wait for.
		h.probe("data packet without measurements")
		m = 0
	}
	var list []expM
	var body []byte
	if tssc {
		flags |= pub.FlagCompressed
		if h.r.P(0.05) {
			// Compression alone tells the encoding.
			flags &^= pub.FlagCompact
		}
		for i := 0; i < m; i++ {
			k := c.hist[0].pick(h.r, len(c.recs))
			r := &c.recs[k]
			ts, fl, v := c.hist[k].next(h.r, pc)
			c.enc.Add(r.Index, ts, fl, v)
			list = append(list, expM{m: pub.Meas{ID: r.ID, Index: r.Index, TS: uint64(ts), Flags: fl, Value: v}, seq: seq, tssc: true})
			if c.enc.Len() > 60000 {
				m = i + 1
			}
		}
		body = c.enc.Finish()
	} else {
		for i := 0; i < m; i++ {
			k := c.hist[0].pick(h.r, len(c.recs))
			r := &c.recs[k]
			b, e := pc.compact(r, c.hist[k])
			body = append(body, b...)
			e.seq = seq
			list = append(list, e)
			if pc.sub.udp > 0 && len(body) > maxDatagramBody {
				m = i + 1
			}
		}
	}
	data := binary.BigEndian.AppendUint32(nil, uint32(m))
	data = append(data, body...)
	if pc.keys != nil {
		o := 0
		if h.r.P(0.5) {
			o = 2
			flags |= pub.FlagCipherOdd
		}
		data = pub.Encrypt(pc.keys[o], pc.keys[o+1], data)
	}
	data = append([]byte{flags}, data...)
	if tssc && binary.BigEndian.Uint16(body[1:]) != 0 {
		if len(c.old) > 20 {
			c.old = c.old[1:]
		}
		c.old = append(c.old, data)
	}
	h.evals += int64(m)
	if pc.sub.udp > 0 {
		pc.sendDatagram(pc.sub.udp, pub.Response(pub.RespData, pub.CmdSubscribe, data), list)
		return
	}
	pc.tcp.e = append(pc.tcp.e, list...)
	pc.respond(pub.RespData, pub.CmdSubscribe, data)
}

func (pc *PConn) sendDatagram(p int, b []byte, list []expM) {
	h := pc.h
	n := 1
	if pc.udpHalt {
		return
	}
	if h.r.P(h.sc.Net.UDPLoss) && !h.calm {
		h.w.Fault("datagram lost")
		return
	}
	if h.r.P(h.sc.Net.UDPDup) && !h.calm {
		h.w.Fault("datagram duplicated")
		n = 2
	}
	for i := 0; i < n; i++ {
		d := h.w.LatMin
		if h.sc.Net.UDPDelay > 0 && !h.calm {
			x := int64(h.r.Uint64() % uint64(h.sc.Net.UDPDelay))
			d += x
			h.w.Fault("datagram delayed")
		}
		pc.udpSent++
		h.w.SendUDP(p, b, d, func() bool { return !pc.dead && h.conns[len(h.conns)-1] == pc }, func(ok bool) {
			pc.udpSent--
			h.note()
			if !ok {
				h.probes["datagram arrived at a closed port"]++
				return
			}
			u := h.w.UDPSocket(p)
			l := pc.udpList(u)
			l.e = append(l.e, list...)
		})
	}
}

// strayDatagrams sends harmless datagrams to a data channel before the session is validated.
func (pc *PConn) strayDatagrams(s *subReq) {
	h := pc.h
	if s.udp == 0 || pc.anyValid() || pc.version() < 2 || pc.replied && pc.script.Modes != "silent" {
		return
	}
	for i := 0; i < pc.script.Stray; i++ {
		h.w.Fault("datagram before the session is validated")
		b := pub.Response(pub.RespNoOP, 0, nil)
		if h.r.P(0.5) && !slices.ContainsFunc(pc.script.Ops, func(o PubOp) bool { return o.K == "keys" }) {
			b = pub.Response(pub.RespData, pub.CmdSubscribe, []byte{pub.FlagCompact, 0, 0, 0, 0})
		}
		pc.sendDatagram(s.udp, b, nil)
	}
	if pc.script.Stray > 0 {
		simrt.GoHarness("validation check", func() {
			simrt.Sleep(time.Duration(h.w.LatMin + ms))
			if pc.anyValid() || h.connCount() != 1 || h.conns[len(h.conns)-1] != pc {
				return
			}
			h.evals++
			if h.app.sb.IsValidated() && !pc.anyValid() && h.connCount() == 1 && h.conns[len(h.conns)-1] == pc {
				h.fail("C08", "connection %d is reported as validated before any response was sent on it", pc.id)
			}
		})
	}
}

func (pc *PConn) udpList(u *simnet.UDPConn) *elist {
	for _, l := range pc.udp {
		if l.sock == u {
			return l
		}
	}
	l := &elist{name: fmt.Sprintf("datagrams of connection %d", pc.id), pc: pc, sock: u}
	pc.udp = append(pc.udp, l)
	return l
}

const baseTicks = int64(638_000_000_000_000_000)

// compact encodes one compact measurement.
func (pc *PConn) compact(r *pub.Rec, hst *sigHist) ([]byte, expM) {
	h := pc.h
	fl := byte(0)
	if h.r.P(0.4) {
		fl = byte(h.r.Uint64()) & 0x3F
	}
	_, _, v := hst.next(h.r, pc)
	e := pub.Meas{ID: r.ID, Index: r.Index, Value: v, Flags: pub.FullFlags(fl)}
	pc.tick += int64(h.r.Intn(400_000))
	ts := baseTicks + pc.tick
	var tb []byte
	if pc.sub.time {
		slot := pc.baseIdx
		if pc.base[slot^1] > 0 && h.r.P(0.3) {
			slot ^= 1
		}
		base := pc.base[slot]
		d := ts - base
		fits := base > 0 && d >= 0
		if pc.sub.millis {
			fits = fits && d/10_000 < 65535
		} else {
			fits = fits && d < 1<<32-1
		}
		switch {
		case fits && h.r.P(0.85):
			fl |= 0x40
			if slot == 1 {
				fl |= 0x80
			}
			if pc.sub.millis {
				q := uint16(d / 10_000)
				if h.r.P(0.05) {
					q = 0xFFFF
				}
				tb = binary.BigEndian.AppendUint16(nil, q)
				e.TS = uint64(base + int64(q)*10_000)
			} else {
				q := uint32(d)
				if h.r.P(0.05) {
					q = math.MaxUint32
				}
				tb = binary.BigEndian.AppendUint32(nil, q)
				e.TS = uint64(base + int64(q))
			}
		default:
			t := uint64(ts)
			if h.r.P(0.1) {
				t |= 1 << 63 // leap second flag
			}
			if slot == 1 && h.r.P(0.5) {
				fl |= 0x80
			}
			tb = binary.BigEndian.AppendUint64(nil, t)
			e.TS = t
		}
	}
	b := []byte{fl}
	b = binary.BigEndian.AppendUint32(b, uint32(r.Index))
	b = binary.BigEndian.AppendUint32(b, v)
	b = append(b, tb...)
	return b, expM{m: e}
}

// sigHist generates the history of one signal.
type sigHist struct {
	mode  int
	v     uint32
	ts    int64
	step  int64
	fl    uint32
	last  int
	burst int
	tmode int
}

func newHist(r *simrt.Rand) *sigHist {
	x := &sigHist{mode: r.Intn(5), tmode: r.Intn(5), v: math.Float32bits(float32(r.Float()*500 - 100)), step: simrt.Pick(r, int64(0), 1, 10_000, 166_667, 333_333, 1<<33)}
	x.ts = baseTicks + int64(r.Intn(1_000_000_000))
	return x
}

func (x *sigHist) pick(r *simrt.Rand, n int) int {
	if x.burst > 0 {
		x.burst--
	} else if r.P(0.02) {
		x.burst = r.Intn(20)
		x.last = r.Intn(n)
	}
	if x.burst > 0 {
		return x.last
	}
	switch r.Intn(8) {
	case 0:
		x.last = r.Intn(n)
	default:
		x.last = (x.last + 1) % n
	}
	return x.last
}

func quiet(v uint32) uint32 {
	if v&0x7F800000 == 0x7F800000 && v&0x7FFFFF != 0 {
		v |= 0x400000
	}
	return v
}

func (x *sigHist) next(r *simrt.Rand, pc *PConn) (int64, uint32, uint32) {
	if r.P(0.01) {
		x.mode = r.Intn(5)
		x.tmode = r.Intn(5)
	}
	switch x.mode {
	case 0: // constant
	case 1: // slow drift
		x.v += uint32(r.Intn(16))
	case 2:
		x.v ^= uint32(r.Uint64()) >> uint(r.Intn(32))
	case 3: // among few values
		x.v = [4]uint32{0, 0x3F800000, 0x42700000, x.v ^ 1}[r.Intn(4)]
	case 4:
		x.v = uint32(r.Uint64())
		if r.P(0.1) {
			x.v = simrt.Pick(r, uint32(0x7FC00000), 0x7F800000, 0xFF800000, 0x80000000, 1, 0xFFFFFFFF)
		}
	}
	x.v = quiet(x.v)
	switch x.tmode {
	case 0:
		x.ts += x.step
	case 1:
		pc.tick += 1
		x.ts = baseTicks + pc.tick/5*10_000
	case 2:
		x.ts += int64(r.Intn(100000)) - 50000
	case 3:
		d := int64(1) << uint(r.Intn(40))
		if r.P(0.5) {
			d = -d
		}
		x.ts += d
	case 4:
		if r.P(0.2) {
			x.ts = int64(r.Uint64())
		} else if r.P(0.2) {
			// differs in the first bits of a group of seven
			x.ts ^= int64(1+r.Intn(3)) << uint(7*r.Intn(10))
		} else {
			x.ts ^= int64(r.Uint64() >> uint(r.Intn(64)))
		}
	}
	if r.P(0.1) {
		x.fl = uint32(r.Uint64()) >> uint(r.Intn(32))
		if r.P(0.3) {
			x.fl = 0
		} else if r.P(0.2) {
			x.fl = 1 << uint(7*r.Intn(5))
		}
	}
	return x.ts, x.fl, x.v
}
