package harness

import (
	"encoding/binary"
	"time"

	"simverif/goapi/sttp"
	"simverif/goapi/sttp/transport"
	"simverif/pub"
	"simverif/simnet"
	"simverif/simrt"
)

func (h *H) ds() *transport.DataSubscriber { return h.direct }

// directMain drives the transport level subscriber, whose command interface is open to applications.
func (h *H) directMain() {
	ds := h.directSetup()
	h.wantConn = true
	if err := ds.Connect("publisher", uint16(h.port())); err != nil {
		h.fail("C06", "connecting failed: %v", err)
	}
	h.until(30*sec, func() bool { pc := h.live(); return pc != nil && pc.validSent })
	for _, ops := range h.sc.Side {
		ops := ops
		h.sides++
		simrt.GoHarness("application thread", func() {
			for _, op := range ops {
				switch op.K {
				case "cmds":
					h.issueCommands(op)
				case "dsub":
					ds.Subscription().FilterExpression = h.sc.Sets[0].Filter
					ds.Subscribe()
				case "dmsg":
					h.message(op)
				}
			}
			h.sides--
			h.note()
		})
	}
	if !h.until(h.flushBound(), func() bool { return h.sides == 0 }) {
		h.failDump("C06", "threads sending commands are stuck")
	}
	if pc := h.live(); pc != nil {
		bound := h.flushBound()
		missing := func() *issued {
			for _, c := range h.issued {
				if c.pc == pc && c.arrived == 0 {
					return c
				}
			}
			return nil
		}
		h.until(bound, func() bool { return missing() == nil || pc.dead || pc.broken })
		if c := missing(); c != nil && !pc.broken && !pc.excused {
			h.fail("C06", "command %d of thread %d (%d bytes) never arrived although the connection is healthy", c.no, c.task, len(c.body))
		}
	}
	h.stops++
	for _, pc := range h.conns {
		pc.excused = true
	}
	h.finishing = true
	h.bounded("C11", "Dispose", h.longBound(), ds.Dispose)
	h.pubQuit = true
	simrt.Sleep(time.Second)
}

func (h *H) directSetup() *transport.DataSubscriber {
	h.makeSignals()
	h.app = &App{h: h, gens: map[string][]*gen{}, sb: sttp.NewSubscriber()}
	for _, k := range kinds {
		h.app.gens[k] = []*gen{{none: true}}
	}
	h.app.onCommand = h.onUserCommand
	ds := transport.NewDataSubscriber()
	h.direct = ds
	ds.Version = h.sc.Cfg.Version
	ds.CompressMetadata, ds.CompressPayloadData, ds.CompressSignalIndexCache = h.sc.Cfg.CompMeta, h.sc.Cfg.CompPayload, h.sc.Cfg.CompCache
	h.w.OnPair = func(lib, peer *simnet.TCPConn) {
		pc := h.newConn(lib, peer)
		lib.OnClose = func() { pc.libClosedAt = simrt.Now() }
	}
	l, err := simnet.ListenPeer(h.port())
	if err != nil {
		simrt.Abort("publisher cannot listen: %v", err)
	}
	simrt.GoHarness("publisher", func() {
		for {
			c, err := l.AcceptTCP()
			if err != nil {
				return
			}
			h.connOf(c).start()
		}
	})
	return ds
}

// message sends a command with a text message.
func (h *H) message(op Op) {
	id := simrt.TaskID()
	for i := 0; i < op.N; i++ {
		h.cmdNo[id]++
		b := binary.BigEndian.AppendUint32(nil, uint32(id))
		b = binary.BigEndian.AppendUint32(b, uint32(h.cmdNo[id]))
		for n := h.r.Intn(200); n > 0; n-- {
			b = append(b, byte('a'+h.r.Intn(26)))
		}
		code := byte(0xD0 + h.r.Intn(16))
		c := &issued{task: id, no: h.cmdNo[id], code: code, body: string(b), pc: h.live(), begin: h.seq()}
		h.issued = append(h.issued, c)
		h.direct.SendServerCommandWithMessage(transport.ServerCommandEnum(code), string(b))
		c.end = h.seq()
		if c.pc != nil && h.live() != c.pc {
			c.pc = nil
		}
	}
}

func (h *H) onUserCommand(pc *PConn, rec cmdRec) {
	if rec.code < pub.CmdUser || rec.code > 0xDF {
		return
	}
	if len(rec.data) < 8 {
		h.fail("C06", "user command arrived with %d bytes", len(rec.data))
		return
	}
	task, no := int(binary.BigEndian.Uint32(rec.data)), int(binary.BigEndian.Uint32(rec.data[4:]))
	for _, c := range h.issued {
		if c.task != task || c.no != no {
			continue
		}
		if c.code != rec.code || c.body != string(rec.data) {
			h.fail("C06", "command %d of thread %d arrived with different content", no, task)
			return
		}
		c.arrived++
		if c.arrived > 1 {
			h.fail("C06", "command %d of thread %d arrived %d times", no, task, c.arrived)
		}
		if no <= h.lastNo[task] {
			h.fail("C06", "command %d of thread %d arrived after command %d", no, task, h.lastNo[task])
		}
		h.lastNo[task] = no
		h.evals++
		return
	}
	h.fail("C06", "a command arrived that no thread sent (thread %d, number %d)", task, no)
}
