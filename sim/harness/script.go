package harness

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"time"

	"simverif/goapi/sttp/ticks"
	"simverif/goapi/sttp/transport"
	"simverif/pub"
	"simverif/simrt"
)

type trMeasurement = transport.Measurement

// issued is a command an application thread has sent.
type issued struct {
	task, no   int
	code       byte
	body       string
	pc         *PConn
	begin, end int
	arrived    int
}

func sendUser(ds *transport.DataSubscriber, code byte, b []byte) {
	ds.SendServerCommandWithPayload(transport.ServerCommandEnum(code), b)
}

// runScript is what the publisher does on one connection once it can publish.
func (pc *PConn) runScript() {
	h := pc.h
	if len(pc.script.Ops) > 0 {
		h.until(900*sec, func() bool { return pc.over() || pc.gotModes && pc.replied })
	}
	for _, op := range pc.script.Ops {
		if pc.over() || h.pubQuit || pc.hostileDone {
			break
		}
		pc.scriptOp(op)
	}
	if pc.over() {
		return
	}
	pc.scriptDone = true
	h.note()
	// Keep publishing while somebody waits for data.
	for pc.script.Linger && !pc.over() && !h.pubQuit {
		h.until(5*sec, func() bool { return pc.over() || h.pubQuit || h.streamWanted && pc.ready() })
		if h.streamWanted && pc.ready() && !pc.over() {
			pc.sendData(1 + h.r.Intn(3))
			simrt.Sleep(20 * time.Millisecond)
		}
	}
}

func (pc *PConn) over() bool { return pc.dead || pc.c.Closed() }

// waitReady waits until data can be published.
func (pc *PConn) waitReady() bool {
	h := pc.h
	if pc.ready() {
		return true
	}
	h.until(30*sec+h.slack(), func() bool { return pc.over() || pc.ready() || h.pubQuit })
	return pc.ready() && !pc.over()
}

func (pc *PConn) pause(d int64) {
	if d > 0 {
		simrt.Sleep(time.Duration(pc.h.r.Uint64() % uint64(d)))
	}
}

func (pc *PConn) scriptOp(op PubOp) {
	h := pc.h
	switch op.K {
	case "stream":
		for i := 0; i < op.N && !pc.over() && !h.pubQuit && !pc.streamStop; i++ {
			if op.N > 1<<20 && h.flushing > 0 {
				// an endless stream pauses while somebody waits until everything has arrived
				h.until(h.flushBound(), func() bool { return pc.over() || h.pubQuit || h.flushing == 0 })
				continue
			}
			if !pc.waitReady() {
				if pc.over() {
					return
				}
				if h.calm || op.N > 1<<20 {
					continue
				}
				return
			}
			pc.sendData(1 + h.r.Intn(op.M))
			if op.D > 0 {
				pc.pause(op.D)
			}
			if len(pc.q) > 8 {
				h.until(60*sec, func() bool { return pc.over() || len(pc.q) < 4 })
			}
		}
	case "fast":
		// Many packets with few measurements; used for sequence number roll-over.
		for i := 0; i < op.N && !pc.over(); i++ {
			if !pc.waitReady() {
				return
			}
			pc.sendData(op.M)
			if len(pc.q) > 64 {
				h.until(600*sec, func() bool { return pc.over() || len(pc.q) < 8 })
			}
		}
	case "big":
		if pc.waitReady() {
			pc.sendData(op.M)
		}
	case "cache":
		if !pc.waitReady() {
			return
		}
		if pc.sub.udp > 0 {
			sub := pc.sub
			pc.subscribed = false
			pc.drainUDP()
			if pc.over() || pc.sub != sub {
				return
			}
			pc.subscribed = true
		}
		if h.r.P(0.2) {
			pc.emptyCache()
		} else {
			pc.newCache()
		}
		h.probe("signal index cache replaced")
	case "sleep":
		pc.pause(op.D)
	case "wait":
		simrt.Sleep(time.Duration(op.D))
	case "notify":
		n := op.N
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			pc.notify(op.M)
		}
	case "conf":
		e := &pevent{kind: "conf", pc: pc, seq: h.seq()}
		h.app.events = append(h.app.events, e)
		pc.confChange++
		pc.subCause()
		pc.respond(pub.RespConfigured, pub.CmdSubscribe, nil)
	case "start":
		t := ticks.Ticks(baseTicks + int64(h.r.Uint64()%uint64(400_000_000_000)))
		e := &pevent{kind: "start", pc: pc, seq: h.seq(), want: startText(tickTime(int64(t)))}
		h.app.events = append(h.app.events, e)
		pc.respond(pub.RespStartTime, pub.CmdSubscribe, binary.BigEndian.AppendUint64(nil, uint64(t)))
	case "done":
		t := h.token("status", pc)
		e := &pevent{kind: "hist", pc: pc, seq: t.seq}
		h.app.events = append(h.app.events, e)
		pc.respond(pub.RespComplete, pub.CmdSubscribe, []byte(t.want))
	case "noop":
		pc.respond(pub.RespNoOP, 0, nil)
	case "ok", "fail":
		cmd := simrt.Pick(h.r, byte(pub.CmdRotateKeys), pub.CmdProcInterval)
		if op.K == "ok" {
			t := h.token("status", pc)
			pc.respondEvent(t, pub.RespOK, cmd, []byte(t.want))
		} else {
			t := h.token("error", pc)
			pc.respondEvent(t, pub.RespFail, simrt.Pick(h.r, cmd, byte(pub.CmdMetadata), byte(pub.CmdSubscribe)), []byte(t.want))
		}
	case "block":
		pc.sendBlocks(op)
	case "blockmem":
		pc.repeatBlocks(op)
	case "basetimes":
		pc.baseTimes()
	case "keys":
		pc.newKeys()
	case "flush":
		pc.flush()
	case "barrier":
		pc.barrier()
	case "tsscreset":
		if pc.waitReady() && pc.tsscOn() {
			pc.restartTSSC(pc.active)
			h.probe("compression restarted")
		}
	case "gap":
		if pc.waitReady() && pc.tsscOn() {
			pc.gap(op.N, op.M)
		}
	case "resend":
		if pc.waitReady() && pc.tsscOn() && pc.sub.udp == 0 && pc.keys == nil {
			pc.resend(op.N)
		}
	case "nocache":
		if pc.waitReady() {
			pc.noCache(op.M)
		}
	case "overcount":
		if pc.waitReady() {
			pc.overcount(op.M)
		}
	case "truncated":
		if pc.waitReady() {
			pc.truncated(op.M)
		}
	case "unknown":
		if pc.waitReady() {
			pc.unknown(op.M)
		}
	case "close":
		pc.cut(false)
	case "rst":
		pc.cut(true)
	case "stall":
		h.w.Fault("network stalled")
		pc.lib.Stall(int64(h.r.Uint64() % uint64(op.D+1)))
	case "stallin":
		h.w.Fault("network stalled")
		pc.c.Stall(int64(h.r.Uint64() % uint64(op.D+1)))
	case "hostile":
		pc.hostileOp(op)
	default:
		simrt.Abort("unknown publisher operation %q", op.K)
	}
}

// subCause remembers how much had been delivered when a new subscription request was provoked.
func (pc *PConn) subCause() {
	pc.causes = append(pc.causes, pc.deliv)
}

func tickTime(t int64) time.Time {
	const unix = 621355968000000000
	d := t - unix
	return time.Unix(d/10_000_000, d%10_000_000*100).UTC()
}

func (pc *PConn) notify(size int) uint32 {
	h := pc.h
	pc.ntf += 1 + uint32(h.r.Intn(5))
	if h.r.P(0.2) {
		pc.ntf = uint32(h.r.Uint64())
	}
	k := pc.ntf
	t := h.token("notif", pc)
	if h.r.P(0.05) {
		t.want, t.tok = "", ""
	} else if size > 0 {
		for n := h.r.Intn(size); len(t.want) < n; {
			t.want += fmt.Sprintf(" %x", h.r.Uint64())
		}
	}
	pc.ntfSent[k]++
	pc.respond(pub.RespNotify, pub.CmdSubscribe, append(binary.BigEndian.AppendUint32(nil, k), t.want...))
	return k
}

// barrier returns when the subscriber has processed everything sent so far.
func (pc *PConn) barrier() bool {
	h := pc.h
	if pc.over() {
		return false
	}
	k := pc.notify(0)
	n := pc.ntfSent[k]
	ok := h.until(h.flushBound(), func() bool { return pc.acked[k] >= n || pc.over() || pc.broken || pc.excused })
	if !ok {
		h.failDump("C19 C05 C06", "connection %d: notification %d is not acknowledged", pc.id, k)
	}
	if !ok || pc.over() || pc.broken || pc.excused {
		// whether the subscriber knows what was sent before is open: datagrams would no longer be understood
		pc.udpHalt = true
		return false
	}
	return true
}

func (pc *PConn) sendBlocks(op PubOp) {
	h := pc.h
	if !pc.waitReady() {
		return
	}
	// New blocks, shuffled within a window, some of them repeated, old ones retransmitted.
	var order []uint32
	first := pc.blkNext
	for i := 0; i < op.N; i++ {
		order = append(order, pc.blkNext)
		pc.blkNext++
	}
	win := op.M
	for i := range order {
		if win > 0 && h.r.P(0.6) {
			j := i + h.r.Intn(win+1)
			if j < len(order) {
				order[i], order[j] = order[j], order[i]
			}
		}
	}
	for i := 0; i < len(order); i++ {
		if h.r.P(0.15) {
			k := uint32(h.r.Intn(int(order[i]) + 1))
			if h.r.P(0.5) && first > 0 {
				k = uint32(h.r.Intn(int(first)))
			}
			if b := pc.blk[k]; b != nil {
				order = append(order[:i], append([]uint32{k}, order[i:]...)...)
				h.probe("buffer block retransmitted")
				i++
			}
		}
		if h.r.P(0.1) {
			order = append(order, order[i])
		}
		if len(order) > 4*op.N+40 {
			break
		}
	}
	for _, k := range order {
		if !pc.ready() || pc.over() {
			return
		}
		pc.sendBlock(k)
		if h.r.P(0.1) {
			pc.pause(op.D)
		}
		if h.r.P(0.05) {
			pc.checkBlocks()
		}
	}
	if h.r.P(0.7) {
		pc.checkBlocks()
	}
}

// checkBlocks requires every contiguous block to have been delivered once the subscriber has processed it.
func (pc *PConn) checkBlocks() {
	h := pc.h
	var n uint32
	for pc.sentBlk(n) {
		n++
	}
	if pc.barrier() {
		h.evals++
		for pc.blkGot < n && h.app.optional("blocks", pc.blk[pc.blkGot].seq) {
			pc.blkGot++
		}
		if pc.blkGot < n {
			h.fail("C05", "connection %d: blocks up to %d are contiguous and received, but only %d were delivered", pc.id, n, pc.blkGot)
		}
		for k, b := range pc.blk {
			if pc.blkConf[k] < b.sent {
				pc.missConf = append(pc.missConf, k)
			}
		}
		if len(pc.missConf) > 0 {
			m := pc.missConf[0]
			for _, k := range pc.missConf {
				if k < m {
					m = k
				}
			}
			h.fail("C05", "connection %d: block %d was received %d times but confirmed %d times", pc.id, m, pc.blk[m].sent, pc.blkConf[m])
		}
	}
}

// repeatBlocks retransmits large blocks the subscriber has delivered already: their memory must not be kept.
func (pc *PConn) repeatBlocks(op PubOp) {
	h := pc.h
	if !pc.waitReady() {
		return
	}
	buf := make([]byte, op.M)
	for i := range buf {
		buf[i] = byte(h.r.Uint64())
	}
	first := pc.blkNext
	pc.blkNext += uint32(op.N)
	id := pc.active.recs[h.r.Intn(len(pc.active.recs))].ID
	for k := first; k < pc.blkNext; k++ {
		pc.blk[k] = &blkRec{id: id, buf: buf}
	}
	n := 0
	send := func(k uint32) bool {
		if !pc.ready() || pc.over() {
			return false
		}
		if pc.blk[k].sent > 0 {
			n += op.M
		}
		pc.sendBlock(k)
		return !h.r.P(0.15) || pc.barrier()
	}
	before := heapInUse()
	soon := h.r.P(0.5)
	for k := first; k < pc.blkNext; k++ {
		if !send(k) {
			return
		}
		for i := 0; soon && i < 2; i++ {
			if !send(k - min(k-first, uint32(h.r.Intn(3)*h.r.Intn(2)))) {
				return
			}
		}
	}
	for i := 0; !soon && i < 2*op.N; i++ {
		if !send(first + uint32(h.r.Intn(op.N))) {
			return
		}
	}
	if !pc.barrier() {
		return
	}
	h.evals++
	h.probe("memory compared after retransmitted blocks")
	if grown := heapInUse() - before; grown > int64(n)/4 {
		h.fail("C05", "connection %d: more than a quarter of %d bytes of retransmitted buffer blocks is still held in memory", pc.id, n)
	}
}

func heapInUse() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func (pc *PConn) sendBlock(k uint32) {
	h := pc.h
	b := pc.blk[k]
	if b == nil {
		r := &pc.active.recs[h.r.Intn(len(pc.active.recs))]
		n := h.r.LogRange(1, 3000) - 1
		if h.r.P(0.02) {
			n = 40000
		}
		b = &blkRec{id: r.ID, buf: make([]byte, n)}
		for i := range b.buf {
			b.buf[i] = byte(h.r.Uint64())
		}
		pc.blk[k] = b
	}
	// The block may be sent again after the cache changed: use an index of the cache in force.
	c := pc.active
	var idx int32
	found := false
	for i := range c.recs {
		if c.recs[i].ID == b.id {
			idx = c.recs[i].Index
			found = true
		}
	}
	if !found {
		if b.sent > 0 {
			return
		}
		b.id, idx = c.recs[0].ID, c.recs[0].Index
	}
	if b.sent == 0 {
		b.seq = h.seq()
	}
	b.sent++
	d := binary.BigEndian.AppendUint32(nil, k)
	if pc.version() >= 2 {
		d = append(d, byte(c.idx))
	}
	d = binary.BigEndian.AppendUint32(d, uint32(idx))
	d = append(d, b.buf...)
	pc.respond(pub.RespBlock, pub.CmdSubscribe, d)
}

// baseTimes rotates the base time offsets used by compact measurements.
func (pc *PConn) baseTimes() {
	h := pc.h
	if !pc.waitReady() {
		return
	}
	if pc.sub.udp > 0 {
		was := pc.subscribed
		pc.subscribed = false
		pc.drainUDP()
		pc.subscribed = was
		if pc.over() {
			return
		}
	}
	pc.baseIdx ^= 1
	pc.base[pc.baseIdx] = baseTicks + pc.tick - int64(h.r.Intn(1000))
	if h.r.P(0.1) {
		pc.base[pc.baseIdx] = 0
	}
	d := binary.BigEndian.AppendUint32(nil, uint32(pc.baseIdx))
	d = binary.BigEndian.AppendUint64(d, uint64(pc.base[0]))
	d = binary.BigEndian.AppendUint64(d, uint64(pc.base[1]))
	pc.respond(pub.RespBaseTimes, pub.CmdSubscribe, d)
	if pc.sub != nil && pc.sub.udp > 0 {
		pc.barrier()
	}
	h.probe("base times rotated")
}

func (pc *PConn) newKeys() {
	h := pc.h
	if !pc.waitReady() || pc.tsscOn() {
		return
	}
	if pc.sub.udp > 0 {
		was := pc.subscribed
		pc.subscribed = false
		pc.drainUDP()
		pc.subscribed = was
		if pc.over() {
			return
		}
	}
	rnd := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(h.r.Uint64())
		}
		return b
	}
	size := simrt.Pick(h.r, 16, 24, 32, 32)
	k := [][]byte{rnd(size), rnd(16), rnd(size), rnd(16)}
	d := []byte{byte(h.r.Intn(2))}
	for _, x := range k {
		d = binary.BigEndian.AppendUint32(d, uint32(len(x)))
		d = append(d, x...)
	}
	pc.respond(pub.RespKeys, pub.CmdSubscribe, d)
	if pc.sub != nil && pc.sub.udp > 0 {
		sub := pc.subscribed
		pc.subscribed = false
		pc.barrier()
		pc.subscribed = sub
	}
	pc.keys = k
	h.probe("cipher keys rotated")
}

func (pc *PConn) restartTSSC(c *pcache) {
	e := pub.NewEncoder()
	e.Vary, e.PVary = c.enc.Vary, c.enc.PVary
	c.enc = e
	c.old = nil
}

// rawData sends one data packet whose measurements are not expected, or are optional.
func (pc *PConn) rawData(flags byte, count uint32, body []byte) {
	d := binary.BigEndian.AppendUint32([]byte{flags}, count)
	d = append(d, body...)
	pc.respond(pub.RespData, pub.CmdSubscribe, d)
}

func (pc *PConn) tsscBody(m int) ([]byte, []expM) {
	h := pc.h
	c := pc.active
	var list []expM
	seq := h.seq()
	for i := 0; i < m; i++ {
		k := c.hist[0].pick(h.r, len(c.recs))
		r := &c.recs[k]
		ts, fl, v := c.hist[k].next(h.r, pc)
		c.enc.Add(r.Index, ts, fl, v)
		list = append(list, expM{m: pub.Meas{ID: r.ID, Index: r.Index, TS: uint64(ts), Flags: fl, Value: v}, seq: seq, tssc: true})
	}
	return c.enc.Finish(), list
}

// gap loses n packets of the compressed sequence, then sends a few more that cannot be decoded, then restarts.
func (pc *PConn) gap(n, m int) {
	h := pc.h
	h.w.Fault("compressed packets missing")
	flags := byte(pub.FlagCompact | pub.FlagCompressed)
	if pc.active.idx == 1 {
		flags |= pub.FlagCacheOne
	}
	if pc.active.enc.Seq == 0 {
		// The packet that restarts the sequence must not be among the missing ones: without it the receiver cannot
		// know that what follows belongs to another sequence.
		pc.sendData(1 + h.r.Intn(m))
	}
	for i := 0; i < n; i++ {
		pc.tsscBody(1 + h.r.Intn(m))
	}
	c := pc.active
	for i := 0; i < 1+h.r.Intn(4) && pc.active == c; i++ {
		k := 1 + h.r.Intn(m)
		b, _ := pc.tsscBody(k)
		pc.rawData(flags, uint32(k), b)
		if len(c.old) > 0 && h.r.P(0.3) {
			h.w.Fault("compressed packet repeated")
			pc.respond(pub.RespData, pub.CmdSubscribe, c.old[h.r.Intn(len(c.old))])
		}
		pc.pause(50 * ms)
		if pc.over() || !pc.ready() {
			break
		}
	}
	h.probe("gap in the compressed sequence")
	pc.restartTSSC(c)
}

// resend sends n earlier packets of the compressed sequence once more; they are out of sequence.
func (pc *PConn) resend(n int) {
	h := pc.h
	c := pc.active
	for i := 0; i < n && pc.active == c && len(c.old) > 0 && pc.ready() && !pc.over(); i++ {
		h.w.Fault("compressed packet repeated")
		h.probe("earlier packet of the compressed sequence repeated")
		pc.respond(pub.RespData, pub.CmdSubscribe, c.old[h.r.Intn(len(c.old))])
		if h.r.P(0.5) {
			pc.sendData(1 + h.r.Intn(5))
		}
		if h.r.P(0.2) {
			pc.pause(3 * sec)
		}
	}
}

// noCache sends data referring to a cache index that has never been filled on this connection.
func (pc *PConn) noCache(m int) {
	h := pc.h
	if pc.version() < 2 || pc.sub.udp > 0 {
		return
	}
	idx := pc.active.idx ^ 1
	if pc.caches[idx] != nil {
		return
	}
	flags := byte(pub.FlagCompact)
	if idx == 1 {
		flags |= pub.FlagCacheOne
	}
	k := 1 + h.r.Intn(m)
	var body []byte
	if pc.tsscOn() {
		flags |= pub.FlagCompressed
		e := pub.NewEncoder()
		c := pc.active
		for i := 0; i < k; i++ {
			j := h.r.Intn(len(c.recs))
			e.Add(c.recs[j].Index, baseTicks+int64(i), 0, uint32(h.r.Uint64())&0x7F7FFFFF)
		}
		body = e.Finish()
	} else {
		for i := 0; i < k; i++ {
			b, _ := pc.compact(&pc.active.recs[h.r.Intn(len(pc.active.recs))], pc.active.hist[0])
			body = append(body, b...)
		}
	}
	if pc.keys != nil {
		return
	}
	h.w.Fault("data sent before its signal index cache")
	h.probe("data without a signal index cache")
	pc.rawData(flags, uint32(k), body)
}

// overcount announces more measurements than the packet holds; what it holds may or may not be delivered.
func (pc *PConn) overcount(m int) {
	h := pc.h
	if pc.keys != nil || pc.sub.udp > 0 {
		return
	}
	k := 1 + h.r.Intn(m)
	more := 1 + h.r.Intn(20)
	flags := byte(pub.FlagCompact)
	if pc.active.idx == 1 {
		flags |= pub.FlagCacheOne
	}
	var body []byte
	var list []expM
	if pc.tsscOn() {
		flags |= pub.FlagCompressed
		body, list = pc.tsscBody(k)
	} else {
		seq := h.seq()
		c := pc.active
		for i := 0; i < k; i++ {
			b, e := pc.compact(&c.recs[h.r.Intn(len(c.recs))], c.hist[0])
			body = append(body, b...)
			e.seq = seq
			list = append(list, e)
		}
		if h.r.P(0.5) {
			body = append(body, make([]byte, h.r.Intn(4))...)
		}
		// The subscriber may give up on a connection with such a packet.
		pc.broken = true
	}
	for i := range list {
		list[i].opt = true
	}
	h.w.Fault("packet holds fewer measurements than announced")
	h.probe("packet announcing too many measurements")
	pc.tcp.e = append(pc.tcp.e, list...)
	pc.rawData(flags, uint32(k+more), body)
}

// truncated sends a packet that ends early, or that announces fewer measurements than it holds. Whole measurements in
// front of the damage may or may not be delivered, and the subscriber may give up on the connection.
func (pc *PConn) truncated(m int) {
	h := pc.h
	if pc.keys != nil || pc.sub.udp > 0 {
		return
	}
	k := 1 + h.r.Intn(m)
	flags := byte(pub.FlagCompact)
	if pc.active.idx == 1 {
		flags |= pub.FlagCacheOne
	}
	var body []byte
	var list []expM
	c := pc.active
	head := 0
	if pc.tsscOn() {
		flags |= pub.FlagCompressed
		body, list = pc.tsscBody(k)
		head = 3
		pc.restartTSSC(c)
	} else {
		seq := h.seq()
		for i := 0; i < k; i++ {
			b, e := pc.compact(&c.recs[h.r.Intn(len(c.recs))], c.hist[0])
			body = append(body, b...)
			e.seq = seq
			list = append(list, e)
		}
	}
	for i := range list {
		list[i].opt = true
	}
	count := k
	if h.r.P(0.3) {
		count = h.r.Intn(k)
	} else {
		body = body[:head+h.r.Intn(len(body)-head)]
	}
	pc.broken = true
	h.w.Fault("packet cut short")
	h.probe("packet cut short or with too many measurements")
	pc.tcp.e = append(pc.tcp.e, list...)
	pc.rawData(flags, uint32(count), body)
}

// unknown mixes measurements with an index the cache does not contain into a packet.
func (pc *PConn) unknown(m int) {
	h := pc.h
	if pc.keys != nil || pc.sub.udp > 0 {
		return
	}
	c := pc.active
	used := map[int32]bool{}
	for i := range c.recs {
		used[c.recs[i].Index] = true
	}
	bad := func() int32 {
		for {
			x := int32(h.r.Intn(4000))
			if !used[x] {
				return x
			}
		}
	}
	flags := byte(pub.FlagCompact)
	if c.idx == 1 {
		flags |= pub.FlagCacheOne
	}
	k := 2 + h.r.Intn(m)
	n := 0
	var body []byte
	seq := h.seq()
	tssc := pc.tsscOn()
	var list []expM
	for i := 0; i < k; i++ {
		j := h.r.Intn(len(c.recs))
		r := c.recs[j]
		wrong := h.r.P(0.4)
		if wrong {
			r.Index = bad()
		}
		n++
		if tssc {
			ts, fl, v := c.hist[j].next(h.r, pc)
			c.enc.Add(r.Index, ts, fl, v)
			if !wrong {
				list = append(list, expM{m: pub.Meas{ID: r.ID, Index: r.Index, TS: uint64(ts), Flags: fl, Value: v}, seq: seq, tssc: true})
			}
			continue
		}
		b, e := pc.compact(&r, c.hist[j])
		body = append(body, b...)
		e.seq = seq
		if !wrong {
			list = append(list, e)
		}
	}
	if tssc {
		flags |= pub.FlagCompressed
		body = c.enc.Finish()
	}
	h.w.Fault("measurement with an unknown signal index")
	h.probe("measurement with an unknown signal index")
	pc.tcp.e = append(pc.tcp.e, list...)
	pc.rawData(flags, uint32(n), body)
}

const dataTags = "C01 C02 C03 C04 C07 C09 C13 C15 C16 C17 C19 C20"

// pendingWork says what the subscriber still has to do for this connection, and against which property that counts.
func (pc *PConn) pendingWork() (string, string) {
	h := pc.h
	a := h.app
	if len(pc.q) > 0 || pc.writing {
		return "C01 C02 C03 C09 C16 C20", "the subscriber does not read"
	}
	if len(pc.reacts) > 0 || pc.reacting {
		return "C20", "publisher busy"
	}
	for _, l := range append([]*elist{pc.tcp}, pc.udp...) {
		if l.dead() {
			continue
		}
		for k := l.next; k < len(l.e); k++ {
			if !l.e[k].opt && !a.optional("meas", l.e[k].seq) {
				return dataTags, fmt.Sprintf("%s: %d measurements not delivered, among them %s", l.name, l.rest(), l.e[k].m)
			}
		}
	}
	if pc.udpSent > 0 {
		return "C02", "datagrams on their way"
	}
	for _, e := range a.events {
		if e.pc == pc && e.got == 0 && !a.optional(e.kind, e.seq) && a.missing(e.kind, e.want) {
			return kindTags(e.kind), fmt.Sprintf("event %s %.60q was sent but not reported", e.kind, e.want)
		}
	}
	if len(pc.waitConf) > 0 {
		return "C04", fmt.Sprintf("%d signal index caches are not confirmed", len(pc.waitConf))
	}
	for k, n := range pc.ntfSent {
		if pc.acked[k] < n {
			return "C19", fmt.Sprintf("notifications are not acknowledged")
		}
	}
	for k, b := range pc.blk {
		if pc.blkConf[k] < b.sent {
			return "C05", "buffer blocks are not confirmed"
		}
	}
	if pc.sentBlk(pc.blkGot) && !a.optional("blocks", pc.blk[pc.blkGot].seq) {
		return "C05", fmt.Sprintf("buffer block %d is contiguous but was not delivered", pc.blkGot)
	}
	for _, c := range h.issued {
		if c.pc == pc && c.end > 0 && c.arrived == 0 {
			return "C06", fmt.Sprintf("command %d of thread %d never arrived", c.no, c.task)
		}
	}
	return "", ""
}

// flush waits until the subscriber has dealt with everything sent on this connection; true if it has.
func (pc *PConn) flush() bool {
	h := pc.h
	h.evals++
	over := func() bool { return pc.over() || pc.broken || pc.excused || pc.hostile || pc.lib.Closed() }
	h.flushing++
	ok := false
	for i := 0; i < 100 && !ok; i++ {
		n := h.app.delivered
		ok = h.until(h.flushBound(), func() bool {
			if over() {
				return true
			}
			_, w := pc.pendingWork()
			return w == ""
		})
		if n == h.app.delivered {
			break
		}
	}
	h.flushing--
	h.note()
	if over() {
		return false
	}
	if !ok {
		tags, what := pc.pendingWork()
		if what == "" {
			return true
		}
		h.failDump(tags, "connection %d: %s although the connection is healthy", pc.id, what)
	}
	pc.checkActive()
	return true
}

// checkActive compares the active signal index cache and the subscriber ID with what the publisher sent last.
func (pc *PConn) checkActive() {
	h := pc.h
	if h.sc.Direct || h.hostile || h.live() != pc || !pc.validSent {
		return
	}
	n := len(pc.allCaches)
	if n > 0 && pc.allCaches[n-1].event.got == 0 && pc.version() < 2 {
		return
	}
	c, id := h.app.sb.ActiveSignalIndexCache(), h.app.sb.SubscriberID()
	if _, w := pc.pendingWork(); w != "" || len(pc.allCaches) != n || h.live() != pc {
		return
	}
	h.evals++
	if n == 0 {
		if c.Count() != 0 {
			h.fail("C04", "connection %d: the active signal index cache has %d records but none was sent on this connection", pc.id, c.Count())
		}
		return
	}
	h.probe("active signal index cache compared")
	if !cacheEqual(c, pc.allCaches[n-1].recs) {
		h.fail("C04", "connection %d: the active signal index cache (%d records) is not the last one sent", pc.id, c.Count())
	}
	if [16]byte(id) != [16]byte(pc.subID) {
		h.fail("C04", "connection %d: the subscriber ID is %x, the publisher assigned %x", pc.id, id[:4], pc.subID[:4])
	}
}
