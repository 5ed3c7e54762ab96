// Package pub holds the wire formats of the publisher side of STTP, written independently of the code under test.
package pub

import "simverif/simrt"

// Code words of the time-series special compression stream.
const (
	cEnd = iota
	cID4
	cID8
	cID12
	cID16
	cID20
	cID24
	cID32
	cTF1
	cTF2
	cTF3
	cTF4
	cTR1
	cTR2
	cTR3
	cTR4
	cTime2
	cTimeXor
	cFlags2
	cFlags7
	cVal1
	cVal2
	cVal3
	cValZero
	cX4
	cX8
	cX12
	cX16
	cX20
	cX24
	cX28
	cX32
)

type point struct {
	next       int32
	f1, f2     uint32
	v1, v2, v3 uint32
	stats      [32]int
	sent       int
	stage      int
	mode       int
	short      [3]int
}

func newPoint() *point { return &point{mode: 4, short: [3]int{cVal1, cVal2, cVal3}} }

// Encoder is a TSSC encoder.
type Encoder struct {
	Seq     uint16
	Vary    *simrt.Rand // occasionally pick a longer but equivalent code
	PVary   float64
	buf     []byte
	bitAt   int // index of the open bit byte, -1: none
	bits    int // bits used in it
	t1, t2  int64
	deltas  [4]int64
	last    *point
	points  map[int32]*point
	Used    *[32]int64
	ModeUse *[5]int64
}

const maxI64 = int64(^uint64(0) >> 1)

func NewEncoder() *Encoder {
	return &Encoder{bitAt: -1, deltas: [4]int64{maxI64, maxI64, maxI64, maxI64}, last: newPoint(), points: map[int32]*point{}}
}

func (e *Encoder) vary() bool { return e.Vary != nil && e.Vary.P(e.PVary) }

func (e *Encoder) bit(b int) {
	if e.bitAt < 0 {
		e.bitAt = len(e.buf)
		e.buf = append(e.buf, 0)
		e.bits = 0
	}
	if b != 0 {
		e.buf[e.bitAt] |= 1 << (7 - e.bits)
	}
	e.bits++
	if e.bits == 8 {
		e.bitAt = -1
		e.bits = 0
	}
}

func (e *Encoder) bitsN(v uint32, n int) {
	for i := n - 1; i >= 0; i-- {
		e.bit(int(v >> i & 1))
	}
}

func (e *Encoder) byte(b byte) { e.buf = append(e.buf, b) }

func (e *Encoder) code(c int) {
	p := e.last
	if e.Used != nil {
		e.Used[c]++
		e.ModeUse[p.mode]++
	}
	long := true
	for i := 0; i < p.mode-1; i++ {
		if p.short[i] == c {
			e.bitsN(1, i+1)
			long = false
			break
		}
	}
	if long {
		e.bitsN(0, p.mode-1)
		e.bitsN(uint32(c), 5)
	}
	p.stats[c]++
	p.sent++
	switch {
	case p.stage == 0 && p.sent > 5, p.stage == 1 && p.sent > 20:
		p.stage++
		p.adapt()
	case p.stage == 2 && p.sent > 100:
		p.adapt()
	}
}

// adapt chooses the cheapest prefix mode for the codes seen since the last change.
func (p *point) adapt() {
	top := [3]int{0, 1, 2}
	n := [3]int{}
	total := 0
	for i, c := range p.stats {
		total += c
		switch {
		case c <= n[2]:
		case c > n[0]:
			top, n = [3]int{i, top[0], top[1]}, [3]int{c, n[0], n[1]}
		case c > n[1]:
			top, n = [3]int{top[0], i, top[1]}, [3]int{n[0], c, n[1]}
		default:
			top[2], n[2] = i, c
		}
		p.stats[i] = 0
	}
	size := [4]int{
		total * 5,
		n[0] + (total-n[0])*6,
		n[0] + n[1]*2 + (total-n[0]-n[1])*7,
		n[0] + n[1]*2 + n[2]*3 + (total-n[0]-n[1]-n[2])*8,
	}
	best := 0
	for i := range size {
		if size[i] < size[best] {
			best = i
		}
	}
	p.mode = best + 1
	for i := 0; i < best; i++ {
		p.short[i] = top[i]
	}
	p.sent = 0
}

// Add appends one measurement.
func (e *Encoder) Add(id int32, ts int64, flags uint32, value uint32) {
	if e.last.next != id || e.vary() {
		x := uint32(id ^ e.last.next)
		switch {
		case x < 1<<4:
			e.code(cID4)
			e.bitsN(x, 4)
		case x < 1<<8:
			e.code(cID8)
			e.byte(byte(x))
		case x < 1<<12:
			e.code(cID12)
			e.bitsN(x&15, 4)
			e.byte(byte(x >> 4))
		case x < 1<<16:
			e.code(cID16)
			e.byte(byte(x))
			e.byte(byte(x >> 8))
		case x < 1<<20:
			e.code(cID20)
			e.bitsN(x&15, 4)
			e.byte(byte(x >> 4))
			e.byte(byte(x >> 12))
		case x < 1<<24:
			e.code(cID24)
			e.byte(byte(x))
			e.byte(byte(x >> 8))
			e.byte(byte(x >> 16))
		default:
			e.code(cID32)
			e.byte(byte(x))
			e.byte(byte(x >> 8))
			e.byte(byte(x >> 16))
			e.byte(byte(x >> 24))
		}
		e.last.next = id
	}
	np := e.points[id]
	if np == nil {
		np = newPoint()
		np.next = id + 1
		e.points[id] = np
	}
	if ts != e.t1 || e.vary() {
		e.time(ts)
	}
	if flags != np.f1 || e.vary() {
		if flags == np.f2 && !e.vary() {
			e.code(cFlags2)
		} else {
			e.code(cFlags7)
			e.put7(uint64(flags), 5)
		}
		np.f1, np.f2 = flags, np.f1
	}
	switch {
	case value == np.v1 && !e.vary():
		e.code(cVal1)
	case value == np.v2 && !e.vary():
		e.code(cVal2)
		np.v1, np.v2 = value, np.v1
	case value == np.v3 && !e.vary():
		e.code(cVal3)
		np.v1, np.v2, np.v3 = value, np.v1, np.v2
	case value == 0 && !e.vary():
		e.code(cValZero)
		np.v1, np.v2, np.v3 = 0, np.v1, np.v2
	default:
		x := value ^ np.v1
		n := 0
		for n < 7 && x>>(4*(n+1)) != 0 {
			n++
		}
		for n < 7 && e.vary() {
			n++
		}
		e.code(cX4 + n)
		rest := x
		left := n + 1 // nibbles
		if left%2 == 1 {
			e.bitsN(rest&15, 4)
			rest >>= 4
		}
		for left /= 2; left > 0; left-- {
			e.byte(byte(rest))
			rest >>= 8
		}
		np.v1, np.v2, np.v3 = value, np.v1, np.v2
	}
	e.last = np
}

func (e *Encoder) time(ts int64) {
	done := false
	if !e.vary() {
		for i, d := range e.deltas {
			if e.t1+d == ts {
				e.code(cTF1 + i)
				done = true
				break
			}
			if e.t1-d == ts {
				e.code(cTR1 + i)
				done = true
				break
			}
		}
		if !done && ts == e.t2 {
			e.code(cTime2)
			done = true
		}
	}
	if !done {
		e.code(cTimeXor)
		e.put7(uint64(ts^e.t1), 9)
	}
	d := e.t1 - ts
	if d < 0 {
		d = -d
	}
	q := &e.deltas
	if d < q[3] && d != q[0] && d != q[1] && d != q[2] {
		i := 0
		for i < 3 && d >= q[i] {
			i++
		}
		copy(q[i+1:], q[i:3])
		q[i] = d
	}
	e.t1, e.t2 = ts, e.t1
}

// put7 writes seven bits per byte, low first; the last allowed byte carries all remaining bits.
func (e *Encoder) put7(v uint64, max int) {
	for n := 1; n < max; n++ {
		if v < 128 {
			e.byte(byte(v))
			return
		}
		e.byte(byte(v) | 0x80)
		v >>= 7
	}
	e.byte(byte(v))
}

// Len is the current size of the packet body.
func (e *Encoder) Len() int { return len(e.buf) }

// Finish ends the packet and returns its body (version, sequence number, stream).
func (e *Encoder) Finish() []byte {
	if e.bitAt >= 0 {
		e.code(cEnd)
	}
	out := append([]byte{85, byte(e.Seq >> 8), byte(e.Seq)}, e.buf...)
	e.buf = nil
	e.bitAt, e.bits = -1, 0
	e.Seq++
	if e.Seq == 0 {
		e.Seq = 1
	}
	return out
}
