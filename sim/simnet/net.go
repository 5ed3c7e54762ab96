// Package simnet stands in for package net: TCP, UDP and name lookups happen inside the simulation. Everything
// not defined here is the real package (see the generated aliases).
package simnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"
	"unsafe"

	"simverif/simrt"
)

// Plan says how one dial attempt goes.
type Plan struct {
	Delay int64 // nanoseconds until the outcome is known
	Err   error // nil: connect if somebody listens
}

// DialRecord is one dial attempt of the code under test.
type DialRecord struct {
	Addr     string
	Start    int64
	End      int64
	OK       bool
	Conn     *TCPConn
	TaskID   int
	Pending  bool
	ErrorStr string
}

// World is the state of the simulated network of one run.
type World struct {
	R          *simrt.Rand
	LatMin     int64 // one-way latency bounds, ns
	LatMax     int64
	SegMax     int // largest segment, 0: whole writes
	Buf        int // send window per direction
	OnDial     func(n int, addr string) Plan
	OnPair     func(lib, peer *TCPConn) // called when a connection is created
	LookupErr  bool
	LookupWait int64
	Dials      []*DialRecord
	listeners  map[int]*TCPListener
	udp        map[int]*UDPConn
	udpTaken   map[int]bool
	Conns      []*TCPConn // library side endpoints
	nextPort   int
	Faults     map[string]int
	UDPSockets []*UDPConn
	Listeners  []*TCPListener
	DialLog    func(r *DialRecord)
	OnBadAddr  func(addr string) // called when a connection is requested to something that is no address
	PeerIP     net.IP            // where peers of listening sockets connect from
}

// W is the current world.
var W *World

// Reset installs a fresh world.
func Reset(r *simrt.Rand) *World {
	W = &World{R: r, LatMin: 50_000, LatMax: 2_000_000, SegMax: 0, Buf: 1 << 16, listeners: map[int]*TCPListener{}, udp: map[int]*UDPConn{}, nextPort: 40000, Faults: map[string]int{}}
	return W
}

func (w *World) lat() int64 {
	if w.LatMax <= w.LatMin {
		return w.LatMin
	}
	return w.LatMin + int64(w.R.Uint64()%uint64(w.LatMax-w.LatMin))
}

// Fault counts an injected fault.
func (w *World) Fault(kind string) { w.Faults[kind]++ }

var (
	errRefused = os.NewSyscallError("connect", syscall.ECONNREFUSED)
	errTimeout = os.NewSyscallError("connect", syscall.ETIMEDOUT)
	errReset   = os.NewSyscallError("read", syscall.ECONNRESET)
	errPipe    = os.NewSyscallError("write", syscall.EPIPE)
	errInUse   = os.NewSyscallError("bind", syscall.EADDRINUSE)
)

var ErrRefused, ErrTimeout error = errRefused, errTimeout

func opErr(op string, l, r net.Addr, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: l, Addr: r, Err: err}
}

type segment struct {
	at int64
	b  []byte
}

// half is the receiving side of one direction.
type half struct {
	segs    []segment
	bytes   int
	lastAt  int64
	fin     bool
	finAt   int64
	minAt   int64 // nothing is delivered before (stall)
	sent    int64 // bytes accepted for this direction so far
	cut     int64 // deliver only so many bytes, then break (-1: off)
	cutRst  bool
	cutDone bool
}

// TCPConn is one endpoint of a simulated TCP connection.
type TCPConn struct {
	w        *World
	ID       int
	Lib      bool
	Dialed   bool
	peer     *TCPConn
	local    *net.TCPAddr
	remote   *net.TCPAddr
	in       half
	closed   bool
	reset    bool
	resetAt  int64
	rq, wq   simrt.WaitQ
	wlock    bool
	lockq    simrt.WaitQ
	rdl, wdl int64
	Read_    int64 // bytes handed to the reader
	Written  int64
	Listened int64 // when the listening socket was opened
	CutFault string
	Opened   int64
	ClosedAt int64
	corrupt  map[int64]byte
	OnCut    func()
	OnWrite  func(pos int64) // a write begins at this stream position
	OnClose  func()
	OnRead   func()
}

func newPair(w *World, lib, peer *net.TCPAddr, libSide bool, listener *TCPListener) (*TCPConn, *TCPConn) {
	id := len(w.Conns)
	a := &TCPConn{w: w, Listened: listener.opened, ID: id, Lib: true, Dialed: libSide, local: lib, remote: peer, Opened: simrt.Now()}
	b := &TCPConn{w: w, ID: id, local: peer, remote: lib, Opened: simrt.Now()}
	a.in.cut, b.in.cut = -1, -1
	a.peer, b.peer = b, a
	w.Conns = append(w.Conns, a)
	if w.OnPair != nil {
		w.OnPair(a, b)
	}
	return a, b
}

func (c *TCPConn) LocalAddr() net.Addr  { return c.local }
func (c *TCPConn) RemoteAddr() net.Addr { return c.remote }

// key stands for both sides of the connection.
func (c *TCPConn) key() unsafe.Pointer {
	if c.Lib {
		return unsafe.Pointer(c)
	}
	return unsafe.Pointer(c.peer)
}

func (c *TCPConn) Read(p []byte) (int, error) {
	simrt.SP()
	if !simrt.Active() {
		return 0, net.ErrClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, opErr("read", c.local, c.remote, net.ErrClosed)
		}
		now := simrt.Now()
		if c.rdl > 0 && now >= c.rdl {
			return 0, opErr("read", c.local, c.remote, os.ErrDeadlineExceeded)
		}
		if c.reset && now >= c.resetAt {
			return 0, opErr("read", c.local, c.remote, errReset)
		}
		until := int64(-1)
		if len(c.in.segs) > 0 {
			sg := &c.in.segs[0]
			at := sg.at
			if c.in.minAt > at {
				at = c.in.minAt
			}
			if at <= now {
				n := copy(p, sg.b)
				if n < len(sg.b) {
					sg.b = sg.b[n:]
				} else {
					c.in.segs[0] = segment{}
					c.in.segs = c.in.segs[1:]
				}
				c.in.bytes -= n
				c.Read_ += int64(n)
				simrt.Acq(c.key())
				c.peer.wq.Wake()
				simrt.Progress()
				if c.OnRead != nil {
					c.OnRead()
				}
				return n, nil
			}
			until = at
		} else if c.in.cutDone && c.in.cutRst {
			if !c.reset {
				c.abort()
			}
			return 0, opErr("read", c.local, c.remote, errReset)
		} else if c.in.fin {
			at := c.in.finAt
			if c.in.minAt > at {
				at = c.in.minAt
			}
			if at <= now {
				return 0, io.EOF
			}
			until = at
		}
		if c.reset && (until < 0 || c.resetAt < until) {
			until = c.resetAt
		}
		if c.rdl > 0 && (until < 0 || c.rdl < until) {
			until = c.rdl
		}
		if until < 0 {
			c.rq.Wait("network read")
		} else {
			c.rq.WaitUntil("network read", until)
		}
	}
}

func (c *TCPConn) Write(p []byte) (int, error) {
	simrt.SP()
	if !simrt.Active() {
		return 0, net.ErrClosed
	}
	for c.wlock {
		if c.closed {
			return 0, opErr("write", c.local, c.remote, net.ErrClosed)
		}
		c.lockq.Wait("network write lock")
	}
	c.wlock = true
	defer func() {
		c.wlock = false
		if simrt.Active() {
			c.lockq.WakeOne()
		}
	}()
	simrt.Wrote(c.key())
	if c.OnWrite != nil {
		c.OnWrite(c.Written)
	}
	n := 0
	for {
		if c.closed {
			return n, opErr("write", c.local, c.remote, net.ErrClosed)
		}
		now := simrt.Now()
		if c.wdl > 0 && now >= c.wdl {
			return n, opErr("write", c.local, c.remote, os.ErrDeadlineExceeded)
		}
		if c.reset && now >= c.resetAt {
			return n, opErr("write", c.local, c.remote, errPipe)
		}
		if n == len(p) {
			simrt.Progress()
			return n, nil
		}
		if q := c.peer; q.closed || (q.reset && now >= q.resetAt) {
			// The other side is gone: its reset arrives a round trip later.
			if !c.reset {
				c.reset = true
				c.resetAt = now + 2*c.w.lat()
				cc := c
				simrt.At(c.resetAt, func() { cc.rq.Wake(); cc.wq.Wake() })
			}
			c.Written += int64(len(p) - n)
			n = len(p)
			continue
		}
		space := c.w.Buf - c.peer.in.bytes
		if space <= 0 {
			if c.wdl > 0 {
				c.wq.WaitUntil("network write (window full)", c.wdl)
			} else {
				c.wq.Wait("network write (window full)")
			}
			continue
		}
		k := len(p) - n
		if k > space {
			k = space
		}
		c.peer.enqueue(p[n:n+k], now)
		n += k
		c.Written += int64(k)
	}
}

// enqueue adds bytes to this endpoint's receive queue.
func (c *TCPConn) enqueue(p []byte, now int64) {
	h := &c.in
	for len(p) > 0 {
		k := len(p)
		if m := c.w.SegMax; m > 0 && k > 1 {
			q := 1 + c.w.R.Intn(m)
			if q < k {
				k = q
			}
		}
		if h.cut >= 0 && h.sent+int64(k) > h.cut {
			k = int(h.cut - h.sent)
			if k <= 0 {
				c.doCut()
				return
			}
		}
		at := now + c.w.lat()
		if at < h.lastAt {
			at = h.lastAt
		}
		h.lastAt = at
		b := append([]byte(nil), p[:k]...)
		for i := range b {
			if x, ok := c.corrupt[h.sent+int64(i)]; ok {
				b[i] ^= x
				c.w.Fault("bytes corrupted")
			}
		}
		h.segs = append(h.segs, segment{at, b})
		h.bytes += k
		h.sent += int64(k)
		p = p[k:]
		cc := c
		if h.minAt > at {
			at = h.minAt
		}
		simrt.At(at, func() { cc.rq.Wake() })
		if h.cut >= 0 && h.sent >= h.cut {
			c.doCut()
			return
		}
	}
}

func (c *TCPConn) doCut() {
	h := &c.in
	if h.cutDone {
		return
	}
	h.cutDone = true
	c.w.Fault(c.CutFault)
	if c.OnCut != nil {
		c.OnCut()
	}
	if h.cutRst {
		// The receiver sees the bytes so far, then a reset; the sender sees it a latency later.
		p := c.peer
		p.reset = true
		p.resetAt = simrt.Now() + c.w.lat()
		simrt.At(p.resetAt, func() { p.rq.Wake(); p.wq.Wake(); c.wq.Wake() })
		at := h.lastAt
		if at < simrt.Now() {
			at = simrt.Now()
		}
		cc := c
		simrt.At(at, func() { cc.rq.Wake(); cc.wq.Wake() })
	} else {
		h.fin = true
		h.finAt = h.lastAt + 1
		cc := c
		simrt.At(h.finAt, func() { cc.rq.Wake() })
		p := c.peer
		p.reset = true
		p.resetAt = simrt.Now() + 2*c.w.lat()
		simrt.At(p.resetAt, func() { p.rq.Wake(); p.wq.Wake(); c.wq.Wake() })
	}
}

// Corrupt flips bits of the byte at the given stream offset when it passes.
func (c *TCPConn) Corrupt(off int64, x byte) {
	if c.corrupt == nil {
		c.corrupt = map[int64]byte{}
	}
	c.corrupt[off] = x
}

// CutAfter breaks the direction towards this endpoint after n more bytes, by reset or by end of stream.
func (c *TCPConn) CutAfter(n int64, rst bool, kind string) {
	c.in.cut = c.in.sent + n
	c.in.cutRst = rst
	c.CutFault = kind
}

// Stall holds back everything towards this endpoint for d nanoseconds.
func (c *TCPConn) Stall(d int64) {
	until := simrt.Now() + d
	if until > c.in.minAt {
		c.in.minAt = until
	}
	simrt.At(until, func() { c.rq.Wake() })
}

// Reset breaks the connection at once for both sides; undelivered data is lost.
func (c *TCPConn) Reset() {
	c.abort()
	c.peer.abort()
}

func (c *TCPConn) abort() {
	if c.reset && c.resetAt <= simrt.Now() {
		return
	}
	c.reset = true
	c.resetAt = simrt.Now()
	c.in.segs = nil
	c.in.bytes = 0
	c.rq.Wake()
	c.wq.Wake()
	c.lockq.Wake()
	c.peer.wq.Wake()
}

func (c *TCPConn) Close() error {
	simrt.SP()
	if !simrt.Active() {
		return nil
	}
	if c.closed {
		return opErr("close", c.local, c.remote, net.ErrClosed)
	}
	c.closed = true
	c.ClosedAt = simrt.Now()
	if c.OnClose != nil {
		c.OnClose()
	}
	c.rq.Wake()
	c.wq.Wake()
	c.lockq.Wake()
	p := c.peer
	p.wq.Wake()
	if !p.in.fin {
		p.in.fin = true
		p.in.finAt = simrt.Now() + c.w.lat()
		if p.in.finAt < p.in.lastAt {
			p.in.finAt = p.in.lastAt
		}
		simrt.At(p.in.finAt, func() { p.rq.Wake() })
	}
	return nil
}

// Closed reports whether this endpoint was closed locally.
func (c *TCPConn) Closed() bool { return c.closed }

// Dead reports whether the connection is unusable for this endpoint.
func (c *TCPConn) Dead() bool { return c.closed || (c.reset && c.resetAt <= simrt.Now()) }

// Pending is the number of bytes on their way to this endpoint.
func (c *TCPConn) Pending() int { return c.in.bytes }

func (c *TCPConn) Peer() *TCPConn { return c.peer }

func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := simrt.Now() + int64(t.Sub(simrt.WallNow()))
	if d < 1 {
		d = 1
	}
	return d
}

func (c *TCPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *TCPConn) SetReadDeadline(t time.Time) error {
	simrt.SP()
	c.rdl = dl(t)
	c.rq.Wake()
	return nil
}

func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	simrt.SP()
	c.wdl = dl(t)
	c.wq.Wake()
	return nil
}

func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) SetReadBuffer(int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(int) error               { return nil }
func (c *TCPConn) CloseRead() error                       { return nil }
func (c *TCPConn) CloseWrite() error                      { return nil }
func (c *TCPConn) ReadFrom(r io.Reader) (int64, error)    { return io.Copy(struct{ io.Writer }{c}, r) }

// TCPListener is a simulated listening socket.
type TCPListener struct {
	Host   string // the interface asked for
	w      *World
	port   int
	addr   *net.TCPAddr
	queue  []*TCPConn
	errs   int
	closed bool
	q      simrt.WaitQ
	Lib    bool
	opened int64
}

func splitPort(address string) (string, int, error) {
	h, p, err := net.SplitHostPort(address)
	if err != nil {
		return "", 0, err
	}
	n, err := strconv.Atoi(p)
	if err != nil || n < 0 || n > 65535 {
		return "", 0, &net.AddrError{Err: "invalid port", Addr: address}
	}
	return h, n, nil
}

func listen(network, address string, lib bool) (*TCPListener, error) {
	simrt.SP()
	if !simrt.Active() {
		return nil, net.ErrClosed
	}
	w := W
	host, port, err := splitPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	if port == 0 {
		w.nextPort++
		port = w.nextPort
	}
	if l := w.listeners[port]; l != nil && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errInUse}
	}
	l := &TCPListener{w: w, port: port, addr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}, Lib: lib, Host: host, opened: simrt.Now()}
	w.listeners[port] = l
	if lib {
		w.Listeners = append(w.Listeners, l)
	}
	return l, nil
}

// Listen is net.Listen for the code under test.
func Listen(network, address string) (net.Listener, error) {
	l, err := listen(network, address, true)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func ListenTCP(network string, a *net.TCPAddr) (*TCPListener, error) {
	port := 0
	if a != nil {
		port = a.Port
	}
	host := ""
	if a != nil && a.IP != nil {
		host = a.IP.String()
	}
	return listen(network, net.JoinHostPort(host, strconv.Itoa(port)), true)
}

// ListenPeer opens a listening socket for the simulated publisher.
func ListenPeer(port int) (*TCPListener, error) {
	return listen("tcp", ":"+strconv.Itoa(port), false)
}

func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	simrt.SP()
	for {
		if !simrt.Active() || l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if l.errs > 0 {
			l.errs--
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.NewSyscallError("accept4", syscall.ECONNABORTED)}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			simrt.Progress()
			return c, nil
		}
		l.q.Wait("accept")
	}
}

// FailAccepts makes the next n accepts fail.
func (l *TCPListener) FailAccepts(n int) {
	l.errs += n
	l.q.Wake()
}

func (l *TCPListener) Close() error {
	simrt.SP()
	if !simrt.Active() {
		return nil
	}
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	for _, c := range l.queue {
		c.Reset()
		c.closed = true
	}
	l.queue = nil
	l.q.Wake()
	return nil
}

func (l *TCPListener) Closed() bool                { return l.closed }
func (l *TCPListener) Addr() net.Addr              { return l.addr }
func (l *TCPListener) SetDeadline(time.Time) error { return nil }

// LibListener returns the open listener of the code under test on a port, if any.
func (w *World) LibListener(port int) *TCPListener {
	l := w.listeners[port]
	if l == nil || l.closed {
		return nil
	}
	return l
}

// Dial is net.Dial for the code under test.
func Dial(network, address string) (net.Conn, error) {
	return dialCtx(nil, network, address, 0)
}

func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return dialCtx(nil, network, address, d)
}

func DialTCP(network string, l, r *net.TCPAddr) (*TCPConn, error) {
	c, err := dialCtx(nil, network, r.String(), 0)
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

// Dialer mirrors net.Dialer.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Cancel        <-chan struct{}
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return dialCtx(nil, network, address, d.Timeout)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	return dialCtx(ctx, network, address, d.Timeout)
}

func dialCtx(ctx context.Context, network, address string, timeout time.Duration) (net.Conn, error) {
	simrt.SP()
	if !simrt.Active() {
		return nil, net.ErrClosed
	}
	w := W
	fail := func(err error) (net.Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	_, port, err := splitPort(address)
	rec := &DialRecord{Addr: address, Start: simrt.Now(), TaskID: simrt.TaskID(), Pending: true}
	w.Dials = append(w.Dials, rec)
	if w.DialLog != nil {
		w.DialLog(rec)
	}
	defer func() { rec.End = simrt.Now(); rec.Pending = false }()
	if err != nil {
		if w.OnBadAddr != nil {
			w.OnBadAddr(address)
		}
		return fail(err)
	}
	pl := Plan{Delay: 2 * w.lat()}
	if w.OnDial != nil {
		pl = w.OnDial(len(w.Dials)-1, address)
	}
	wait := pl.Delay
	if timeout > 0 && wait > int64(timeout) {
		wait = int64(timeout)
		pl.Err = os.ErrDeadlineExceeded
	}
	for end := simrt.Now() + wait; ctx != nil && simrt.Now() < end; {
		if err := ctx.Err(); err != nil {
			return fail(err)
		}
		step := int64(1_000_000)
		if end-simrt.Now() < step {
			step = end - simrt.Now()
		}
		simrt.Sleep(time.Duration(step))
	}
	if ctx == nil {
		simrt.Sleep(time.Duration(wait))
	}
	if pl.Err != nil {
		rec.ErrorStr = pl.Err.Error()
		return fail(pl.Err)
	}
	l := w.listeners[port]
	if l == nil || l.closed || l.Lib {
		rec.ErrorStr = "refused"
		return fail(errRefused)
	}
	w.nextPort++
	a, b := newPair(w, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: w.nextPort}, l.addr, true, l)
	rec.OK = true
	rec.Conn = a
	l.queue = append(l.queue, b)
	l.q.Wake()
	return a, nil
}

// DialPeer connects the simulated publisher to a listener of the code under test.
func DialPeer(port int) (*TCPConn, error) {
	simrt.SP()
	w := W
	simrt.Sleep(time.Duration(2 * w.lat()))
	l := w.listeners[port]
	if l == nil || l.closed {
		return nil, errRefused
	}
	w.nextPort++
	ip := w.PeerIP
	if ip == nil {
		ip = net.IPv4(127, 0, 0, 1)
	}
	a, b := newPair(w, l.addr, &net.TCPAddr{IP: ip, Port: w.nextPort}, false, l)
	l.queue = append(l.queue, a)
	l.q.Wake()
	return b, nil
}

// UDPConn is a simulated UDP socket.
type UDPConn struct {
	w        *World
	Port     int
	queue    [][]byte
	closed   bool
	q        simrt.WaitQ
	rdl      int64
	Received int64 // bytes handed to the reader
	Datagram int64
	OpenedAt int64
}

func ListenUDP(network string, a *net.UDPAddr) (*UDPConn, error) {
	simrt.SP()
	if !simrt.Active() {
		return nil, net.ErrClosed
	}
	w := W
	port := 0
	if a != nil {
		port = a.Port
	}
	if port == 0 {
		w.nextPort++
		port = w.nextPort
	}
	if u := w.udp[port]; u != nil && !u.closed || w.udpTaken[port] {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: a, Err: errInUse}
	}
	u := &UDPConn{w: w, Port: port, OpenedAt: simrt.Now()}
	w.udp[port] = u
	w.UDPSockets = append(w.UDPSockets, u)
	return u, nil
}

// TakeUDP makes another program hold a UDP port, or give it back.
func (w *World) TakeUDP(port int, take bool) {
	if w.udpTaken == nil {
		w.udpTaken = map[int]bool{}
	}
	w.udpTaken[port] = take
}

func ListenPacket(network, address string) (net.PacketConn, error) {
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, err
	}
	u, err := ListenUDP(network, a)
	if err != nil {
		return nil, err
	}
	return u, nil
}

func ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	h, port, err := splitPort(address)
	if err != nil {
		return nil, err
	}
	ip := net.ParseIP(h)
	return &net.UDPAddr{IP: ip, Port: port}, nil
}

func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	h, port, err := splitPort(address)
	if err != nil {
		return nil, err
	}
	return &net.TCPAddr{IP: net.ParseIP(h), Port: port}, nil
}

// UDPOpen reports whether a UDP port is bound.
func (w *World) UDPOpen(port int) bool {
	u := w.udp[port]
	return u != nil && !u.closed
}

// UDPSocket is the socket bound to a port, if any.
func (w *World) UDPSocket(port int) *UDPConn {
	if u := w.udp[port]; u != nil && !u.closed {
		return u
	}
	return nil
}

// SendUDP delivers a datagram to a port after the given delay, if the port is bound by then.
func (w *World) SendUDP(port int, b []byte, delay int64, alive func() bool, delivered func(bool)) {
	b = append([]byte(nil), b...)
	simrt.At(simrt.Now()+delay, func() {
		u := w.udp[port]
		ok := u != nil && !u.closed && len(u.queue) < 4096 && (alive == nil || alive())
		if delivered != nil {
			delivered(ok)
		}
		if ok {
			u.queue = append(u.queue, b)
			u.q.Wake()
		}
	})
}

func (u *UDPConn) Read(p []byte) (int, error) {
	simrt.SP()
	for {
		if !simrt.Active() || u == nil || u.closed {
			return 0, &net.OpError{Op: "read", Net: "udp", Err: net.ErrClosed}
		}
		if len(u.queue) > 0 {
			n := copy(p, u.queue[0])
			u.queue = u.queue[1:]
			u.Received += int64(n)
			u.Datagram++
			simrt.ReadDatagram()
			simrt.Progress()
			return n, nil
		}
		if u.rdl > 0 {
			if simrt.Now() >= u.rdl {
				return 0, &net.OpError{Op: "read", Net: "udp", Err: os.ErrDeadlineExceeded}
			}
			u.q.WaitUntil("udp read", u.rdl)
		} else {
			u.q.Wait("udp read")
		}
	}
}

func (u *UDPConn) ReadFrom(p []byte) (int, net.Addr, error) {
	n, err := u.Read(p)
	return n, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}, err
}

func (u *UDPConn) ReadFromUDP(p []byte) (int, *net.UDPAddr, error) {
	n, err := u.Read(p)
	return n, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}, err
}

func (u *UDPConn) Write(p []byte) (int, error)                      { return len(p), nil }
func (u *UDPConn) WriteTo(p []byte, a net.Addr) (int, error)        { return len(p), nil }
func (u *UDPConn) WriteToUDP(p []byte, a *net.UDPAddr) (int, error) { return len(p), nil }
func (u *UDPConn) LocalAddr() net.Addr                              { return &net.UDPAddr{Port: u.Port} }
func (u *UDPConn) RemoteAddr() net.Addr                             { return nil }
func (u *UDPConn) SetReadBuffer(int) error                          { return nil }
func (u *UDPConn) SetWriteBuffer(int) error                         { return nil }
func (u *UDPConn) SetDeadline(t time.Time) error                    { return u.SetReadDeadline(t) }
func (u *UDPConn) SetWriteDeadline(t time.Time) error               { return nil }
func (u *UDPConn) SetReadDeadline(t time.Time) error {
	u.rdl = dl(t)
	u.q.Wake()
	return nil
}

func (u *UDPConn) Close() error {
	simrt.SP()
	if u == nil {
		return syscall.EINVAL
	}
	if !simrt.Active() {
		return nil
	}
	if u.closed {
		return &net.OpError{Op: "close", Net: "udp", Err: net.ErrClosed}
	}
	u.closed = true
	u.q.Wake()
	return nil
}

func (u *UDPConn) Closed() bool { return u.closed }

func lookup() error {
	simrt.SP()
	if !simrt.Active() {
		return net.ErrClosed
	}
	simrt.Sleep(time.Duration(W.LookupWait))
	if W.LookupErr {
		return &net.DNSError{Err: "no such host", IsNotFound: true}
	}
	return nil
}

func LookupAddr(addr string) ([]string, error) {
	if err := lookup(); err != nil {
		return nil, err
	}
	return []string{"peer.sim."}, nil
}

func LookupHost(host string) ([]string, error) {
	if err := lookup(); err != nil {
		return nil, err
	}
	return []string{"127.0.0.1"}, nil
}

func LookupIP(host string) ([]net.IP, error) {
	if err := lookup(); err != nil {
		return nil, err
	}
	return []net.IP{net.IPv4(127, 0, 0, 1)}, nil
}

// OpenLib lists sockets the code under test still holds open.
func (w *World) OpenLib() (out []string) {
	for _, c := range w.Conns {
		if !c.closed {
			out = append(out, "tcp connection "+strconv.Itoa(c.ID))
		}
	}
	for _, l := range w.Listeners {
		if !l.closed {
			out = append(out, "listener on port "+strconv.Itoa(l.port))
		}
	}
	for _, u := range w.UDPSockets {
		if !u.closed {
			out = append(out, "udp port "+strconv.Itoa(u.Port))
		}
	}
	return
}

var _ = errors.New
