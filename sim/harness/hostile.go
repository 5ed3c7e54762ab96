package harness

import (
	"encoding/binary"
	"time"

	"simverif/pub"
	"simverif/simrt"
)

func (h *H) junk(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(h.r.Uint64())
	}
	return b
}

// badFirst answers the session set-up with something that is not a reply to it; the subscriber has to hang up.
func (pc *PConn) badFirst(kind string) {
	h := pc.h
	pc.hostile = true
	pc.broken = true
	h.w.Fault("invalid first response: " + kind)
	switch kind {
	case "bad-http":
		pc.push([]byte("HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n"), nil)
	case "bad-size":
		size := uint32(8199 + h.r.Uint64()%simrt.Pick(h.r, uint64(1), 100_000, 1<<31, 1<<32-8199))
		b := binary.BigEndian.AppendUint32(nil, size)
		pc.push(append(b, h.junk(h.r.Intn(300))...), nil)
	case "bad-data":
		pc.push(pub.Frame(pub.Response(simrt.Pick(h.r, byte(pub.RespData), pub.RespCache, pub.RespBlock, pub.RespNotify, pub.RespComplete, pub.RespKeys), simrt.Pick(h.r, byte(pub.CmdSubscribe), pub.CmdOpModes), h.junk(h.r.Intn(200)))), nil)
	case "bad-command":
		pc.push(pub.Frame(pub.Response(simrt.Pick(h.r, byte(pub.RespOK), pub.RespFail), simrt.Pick(h.r, byte(pub.CmdSubscribe), pub.CmdMetadata, pub.CmdConnect, pub.CmdUser), []byte("hello"))), nil)
	case "bad-short":
		b := h.junk(1 + h.r.Intn(5))
		b[0] = simrt.Pick(h.r, byte(pub.RespData), 0, 'x')
		pc.push(pub.Frame(b), nil)
	case "bad-empty":
		pc.push(pub.Frame(nil), nil)
	case "bad-code":
		b := h.junk(6 + h.r.Intn(50))
		b[0] = byte(h.r.Intn(0x80))
		pc.push(pub.Frame(b), nil)
	default:
		simrt.Abort("unknown first response %q", kind)
	}
	stops := h.stops
	simrt.GoHarness("watching an invalid peer", func() {
		ok := h.until(120*sec+h.slack()+10*h.sc.App.EventSlow, func() bool { return pc.over() || h.stops != stops })
		h.evals++
		if !ok && !pc.corrupt {
			h.failDump("C14", "connection %d: a peer with an invalid first response (%s) is not disconnected", pc.id, kind)
		}
	})
}

// hostileOp sends one malformed message after the session was set up.
func (pc *PConn) hostileOp(op PubOp) {
	h := pc.h
	pc.hostile = true
	pc.broken = true
	kind := op.N
	if pc.waitReadyBrief() {
		h.probe("malformed traffic while streaming")
	}
	flags := byte(pub.FlagCompact)
	send := func(resp byte, data []byte) { pc.respond(resp, pub.CmdSubscribe, data) }
	switch kind {
	case 0:
		h.w.Fault("random frame")
		pc.push(pub.Frame(h.junk(h.r.Intn(400))), nil)
	case 1:
		h.w.Fault("short or random response")
		resp := byte(0x80 + h.r.Intn(12))
		pc.push(pub.Frame(pub.Response(resp, byte(h.r.Intn(12)), h.junk(h.r.Intn(simrt.Pick(h.r, 2, 6, 12, 60))))), nil)
	case 2:
		h.w.Fault("data packet announcing a huge count")
		if h.r.P(0.5) {
			flags |= pub.FlagCompressed
		}
		flags |= byte(h.r.Uint64()) & pub.FlagCacheOne
		n := simrt.Pick(h.r, uint32(0xFFFFFFFF), 0x7FFFFFFF, 0x10000000, 100_000_000, 50_000_000)
		d := binary.BigEndian.AppendUint32([]byte{flags}, n)
		if flags&pub.FlagCompressed != 0 && h.r.P(0.7) {
			d = append(d, 85)
			d = binary.BigEndian.AppendUint16(d, simrt.Pick(h.r, uint16(0), 1, 5))
		}
		send(pub.RespData, append(d, h.junk(h.r.Intn(60))...))
	case 3:
		h.w.Fault("broken signal index cache")
		var body []byte
		switch h.r.Intn(6) {
		case 0:
			body = h.junk(h.r.Intn(80))
		case 1, 4:
			// With a size that is right or too small, the rest has to be recognised as missing by its parts.
			body = pub.CacheBody(h.subID, h.sigs, true)
			body = body[:h.r.Intn(len(body)+1)]
			if len(body) >= 4 && h.r.P(0.8) {
				binary.BigEndian.PutUint32(body, simrt.Pick(h.r, uint32(len(body)), 0, uint32(h.r.Intn(len(body)+1))))
			}
		case 5:
			// A length inside of one of its records.
			body = pub.CacheBody(h.subID, h.sigs, true)
			at := 24
			for i := range h.sigs {
				if h.r.P(0.3) || i == len(h.sigs)-1 {
					binary.BigEndian.PutUint32(body[at+20:], simrt.Pick(h.r, 0xFFFFFFFF-uint32(h.r.Intn(12)), 0x7FFFFFFF, 0x80000000, uint32(h.r.Intn(300)), uint32(len(body)-at-24+h.r.Intn(3)-1), uint32(len(body)-at-32+h.r.Intn(3)-1), uint32(-at-24-h.r.Intn(20))))
					break
				}
				at += 32 + len(h.sigs[i].Source)
			}
		case 2:
			body = pub.CacheBody(h.subID, h.sigs, true)
			for i := 0; i < 1+h.r.Intn(4); i++ {
				body[h.r.Intn(len(body))] = byte(h.r.Uint64())
			}
		case 3:
			body = pub.CacheBody(h.subID, h.sigs, true)
			if len(body) >= 24 {
				binary.BigEndian.PutUint32(body[20:], uint32(h.r.Uint64()))
			}
		}
		if pc.modes&pub.ModeCompCache != 0 && h.r.P(0.8) {
			body = pub.GZip(body)
			if h.r.P(0.3) {
				body = body[:h.r.Intn(len(body)+1)]
			}
		}
		if pc.version() >= 2 && h.r.P(0.9) {
			body = append([]byte{byte(h.r.Intn(3))}, body...)
		}
		send(pub.RespCache, body)
	case 4:
		h.w.Fault("broken cipher keys")
		d := []byte{0}
		for i := 0; i < 1+h.r.Intn(4); i++ {
			n := simrt.Pick(h.r, uint32(0), 1, 16, 32, 33, 0x7FFFFFFF, 0xFFFFFFFF, 0xFFFFFFFB)
			d = binary.BigEndian.AppendUint32(d, n)
			if n < 100 {
				d = append(d, h.junk(int(n))...)
			}
		}
		send(pub.RespKeys, d)
		// Data that can no longer be decrypted properly.
		for i := 0; i < 3; i++ {
			send(pub.RespData, append([]byte{flags | byte(h.r.Uint64())&pub.FlagCipherOdd}, h.junk(h.r.Intn(70))...))
		}
	case 5:
		h.w.Fault("broken buffer block")
		k := simrt.Pick(h.r, uint32(0), 1, 2, 1000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 50_000_000)
		d := binary.BigEndian.AppendUint32(nil, k)
		d = append(d, byte(h.r.Intn(3)))
		d = append(d, h.junk(h.r.Intn(20))...)
		send(pub.RespBlock, d[:len(d)-h.r.Intn(len(d))])
	case 6:
		h.w.Fault("broken base times")
		send(pub.RespBaseTimes, h.junk(h.r.Intn(21)))
	case 7:
		h.w.Fault("short notification, start time or completion")
		send(simrt.Pick(h.r, byte(pub.RespNotify), pub.RespStartTime, pub.RespComplete), h.junk(h.r.Intn(8)))
	case 8:
		h.w.Fault("frame shorter than a response header")
		pc.push(pub.Frame(h.junk(h.r.Intn(6))), nil)
	case 9:
		h.w.Fault("frame announcing a huge length")
		b := binary.BigEndian.AppendUint32(nil, simrt.Pick(h.r, uint32(0xFFFFFFFF), 0x7FFFFFFF, 0x80000000, 0x40000001, 0x30000000))
		pc.push(append(b, h.junk(h.r.Intn(5000))...), nil)
		pc.streamStop = true
	case 10:
		h.w.Fault("random compressed data")
		flags |= pub.FlagCompressed
		if pc.active != nil && pc.active.idx == 1 {
			flags |= pub.FlagCacheOne
		}
		for i := 0; i < 1+h.r.Intn(3); i++ {
			d := binary.BigEndian.AppendUint32([]byte{flags}, uint32(h.r.Intn(50)))
			seq := uint16(0)
			if i > 0 || h.r.P(0.3) {
				seq = uint16(h.r.Intn(4))
			}
			d = append(d, byte(simrt.Pick(h.r, 85, 85, 85, 85, 84)))
			d = binary.BigEndian.AppendUint16(d, seq)
			send(pub.RespData, append(d, h.junk(h.r.Intn(200))...))
		}
	case 11:
		h.w.Fault("broken metadata")
		b := h.junk(h.r.Intn(300))
		switch h.r.Intn(4) {
		case 0:
			b = []byte("<DataSet><xs:schema></xs:schema><MeasurementDetail><SignalID>zzz</SignalID>")
		case 1:
			b = []byte("<?xml version=\"1.0\"?><DataSet></DataSet>")
		case 2:
			v := h.metaXML(0)
			b = v[:h.r.Intn(len(v)+1)]
		}
		if pc.modes&pub.ModeCompMetadata != 0 && h.r.P(0.7) {
			b = pub.GZip(b)
		}
		pc.respond(pub.RespOK, pub.CmdMetadata, b)
	case 12:
		h.w.Fault("unframed random bytes")
		b := h.junk(4 + h.r.Intn(2000))
		if h.r.P(0.7) {
			binary.BigEndian.PutUint32(b, uint32(h.r.Intn(3000)))
		}
		pc.push(b, nil)
	case 13:
		h.w.Fault("bit flips in a valid data packet")
		if !pc.ready() {
			return
		}
		c := pc.active
		if c.idx == 1 {
			flags |= pub.FlagCacheOne
		}
		k := 1 + h.r.Intn(30)
		var body []byte
		if pc.tsscOn() {
			flags |= pub.FlagCompressed
			body, _ = pc.tsscBody(k)
		} else {
			for i := 0; i < k; i++ {
				b, _ := pc.compact(&c.recs[h.r.Intn(len(c.recs))], c.hist[0])
				body = append(body, b...)
			}
		}
		d := binary.BigEndian.AppendUint32([]byte{flags}, uint32(k))
		d = append(d, body...)
		for i := 0; i < 1+h.r.Intn(5); i++ {
			d[h.r.Intn(len(d))] ^= 1 << uint(h.r.Intn(8))
		}
		if h.r.P(0.3) {
			d = d[:h.r.Intn(len(d)+1)]
		}
		send(pub.RespData, d)
	case 14:
		h.w.Fault("unexpected response codes")
		for i := 0; i < 5; i++ {
			pc.push(pub.Frame(pub.Response(byte(h.r.Uint64()), byte(h.r.Uint64()), h.junk(h.r.Intn(30)))), nil)
		}
	case 15:
		// The same on the data channel, if there is one.
		if pc.sub == nil || pc.sub.udp == 0 {
			return
		}
		for i := 0; i < 1+h.r.Intn(6); i++ {
			h.w.Fault("broken datagram")
			var b []byte
			switch h.r.Intn(4) {
			case 0:
				b = h.junk(h.r.Intn(60))
			case 1:
				b = pub.Response(pub.RespData, pub.CmdSubscribe, h.junk(h.r.Intn(40)))
			case 2:
				b = pub.Response(byte(0x80+h.r.Intn(12)), byte(h.r.Intn(12)), h.junk(h.r.Intn(40)))
			case 3:
				b = pub.Response(pub.RespData, pub.CmdSubscribe, append([]byte{flags}, append([]byte{0, 0, 0, byte(h.r.Intn(40))}, h.junk(h.r.Intn(100))...)...))
			}
			h.w.SendUDP(pc.sub.udp, b, 1000, func() bool { return true }, func(bool) {})
		}
	}
	if op.D > 0 {
		simrt.Sleep(time.Duration(h.r.Uint64() % uint64(op.D)))
	}
}

func (pc *PConn) waitReadyBrief() bool {
	h := pc.h
	h.until(5*sec, func() bool { return pc.over() || pc.ready() })
	return pc.ready()
}

// hostileDeliver follows deliveries while malformed traffic may be mixed in.
func (a *App) hostileDeliver(n int, ms []trMeasurement) {
	for _, pc := range a.h.conns {
		if pc.hostile {
			continue
		}
		for _, l := range append([]*elist{pc.tcp}, pc.udp...) {
			if c, pos := a.fits(l, ms, -1); c == len(ms) {
				l.at(pos)
				pc.deliv += int64(c)
				a.h.note()
				return
			}
		}
	}
}
