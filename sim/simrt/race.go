package simrt

import (
	"fmt"
	"os"
	"reflect"
	"strings"
	"unsafe"
)

// Happens-before tracking: every task has a vector clock, synchronisation passes clocks on, and two accesses of one
// variable by different tasks, at least one of them a write, that no clock orders are a data race. The accesses are
// reported by code that was instrumented for it (see Rd and Wr); without it nothing is tracked.

type vclock []uint32

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v vclock) join(o vclock) vclock {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, c := range o {
		if c > v[i] {
			v[i] = c
		}
	}
	return v
}

type access struct {
	t    int // slot
	id   int
	clk  uint32
	site string
	wr   bool
}

type cell struct {
	w  access
	rd []access
	at []access // atomic operations since the last plain write
}

type raceState struct {
	cells map[unsafe.Pointer]*cell
	syncs map[unsafe.Pointer]vclock
	n     int64
	slots int
	last  []uint32 // clock of the last task in a slot
	free  []int
}

// Clocks have a component per slot. The slots of ended tasks are used again, those of the longest ended first, once
// there are many: accesses of two tasks in one slot count as ordered.
const manySlots = 512

func (x *sim) slot(t *task) {
	r := &x.race
	if r.slots < manySlots || len(r.free) == 0 {
		t.slot = r.slots
		r.slots++
		r.last = append(r.last, 0)
	} else {
		t.slot, r.free = r.free[0], r.free[1:]
	}
	for len(t.vc) <= t.slot {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.slot] = r.last[t.slot] + 1
}

func (x *sim) unslot(t *task) {
	if raceOn && !x.dying {
		x.race.last[t.slot] = t.clock()
		x.race.free = append(x.race.free, t.slot)
	}
}

const manyCells = 2_000_000

var raceOn bool

var raceLog map[string]int

func init() {
	if os.Getenv("SIM_RACES") != "" {
		raceLog = map[string]int{}
	}
}

// TrackRaces switches happens-before tracking on for all later runs.
func TrackRaces() { raceOn = true }

// RaceTracking reports whether accesses are tracked.
func RaceTracking() bool { return raceOn }

func tracking() bool { return raceOn && s != nil && !s.dying && !s.ended && s.cur != nil }

func (t *task) clock() uint32 {
	for len(t.vc) <= t.slot {
		t.vc = append(t.vc, 0)
	}
	if t.vc[t.slot] == 0 {
		t.vc[t.slot] = 1
	}
	return t.vc[t.slot]
}

// Acq orders what was released at p before what the running task does next.
func Acq(p unsafe.Pointer) {
	if !tracking() {
		return
	}
	if v := s.race.syncs[p]; v != nil {
		s.cur.clock()
		s.cur.vc = s.cur.vc.join(v)
	}
}

// Rel orders what the running task did before what tasks that acquire p do next.
func Rel(p unsafe.Pointer) {
	if !tracking() {
		return
	}
	t := s.cur
	t.clock()
	s.race.syncs[p] = s.race.syncs[p].join(t.vc)
	t.vc[t.slot]++
}

// AL is the scheduling point of an atomic load, AS that of any other atomic operation.
func AL(p unsafe.Pointer) {
	SP()
	if tracking() {
		s.atomic(p, false)
		Acq(p)
	}
}

func AS(p unsafe.Pointer) {
	SP()
	if tracking() {
		s.atomic(p, true)
		Acq(p)
		Rel(p)
	}
}

var ioSync int

// Wrote orders what happened before a write to a connection before what follows a read of that connection, on
// either side: the peer may have answered. A datagram may be the answer to anything written before.
func Wrote(conn unsafe.Pointer) {
	Rel(conn)
	Rel(unsafe.Pointer(&ioSync))
}

func ReadDatagram() { Acq(unsafe.Pointer(&ioSync)) }

func (x *sim) inherit(t *task) {
	if !raceOn {
		return
	}
	if x.cur != nil {
		x.cur.clock()
		t.vc = append(vclock{}, x.cur.vc...)
		x.cur.vc[x.cur.slot]++
	}
	x.slot(t)
}

func (x *sim) cell(p unsafe.Pointer) *cell {
	c := x.race.cells[p]
	if c == nil {
		c = &cell{}
		if len(x.race.cells) < manyCells {
			x.race.cells[p] = c
		}
	}
	return c
}

func (x *sim) raced(kind string, a access, kind2, site string) {
	p, q := strings.Split(a.site, "|"), strings.Split(site, "|")
	l := kind + " in " + p[1]
	r := kind2 + " in " + q[1]
	if r < l {
		l, r = r, l
	}
	if q[0] == "" {
		q[0] = p[0]
	}
	if raceLog != nil {
		m := fmt.Sprintf("data race on %s: %s, %s", q[0], l, r)
		if raceLog[m]++; raceLog[m] == 1 {
			fmt.Fprintf(os.Stderr, "RACE %s   [%s %s]\n", m, p[2], q[2])
		}
		return
	}
	x.violate("race", fmt.Sprintf("data race on %s: %s, %s", q[0], l, r),
		fmt.Sprintf("%s of %s at %s by task %d %s\n%s of %s at %s by task %d %s\n", kind, p[0], p[2], a.id, x.tasks[a.id].name, kind2, q[0], q[2], x.cur.id, x.cur.name))
	x.finish()
	x.park(x.cur)
}

func (x *sim) read(p unsafe.Pointer, site string) {
	t, c := x.cur, x.cell(p)
	clk := t.clock()
	x.race.n++
	if c.w.site != "" && c.w.t != t.slot && c.w.clk > t.vc.at(c.w.t) {
		x.raced("write", c.w, "read", site)
	}
	if c.at != nil {
		x.atomics(c, "read", site)
	}
	for i := range c.rd {
		if a := &c.rd[i]; a.t == t.slot || a.clk <= t.vc.at(a.t) {
			*a = access{t.slot, t.id, clk, site, false}
			return
		}
	}
	c.rd = append(c.rd, access{t.slot, t.id, clk, site, false})
}

// atomic checks an atomic operation against the plain accesses.
func (x *sim) atomic(p unsafe.Pointer, wr bool) {
	t, c := x.cur, x.cell(p)
	clk := t.clock()
	if c.w.site != "" && c.w.t != t.slot && c.w.clk > t.vc.at(c.w.t) {
		x.raced("write", c.w, "access", "|atomic operation|atomic operation")
	}
	if wr {
		for _, a := range c.rd {
			if a.t != t.slot && a.clk > t.vc.at(a.t) {
				x.raced("read", a, "write", "|atomic operation|atomic operation")
			}
		}
	}
	for i := range c.at {
		if a := &c.at[i]; a.t == t.slot && a.wr == wr {
			a.clk = clk
			return
		}
	}
	c.at = append(c.at, access{t.slot, t.id, clk, "|atomic operation|atomic operation", wr})
}

func (x *sim) atomics(c *cell, kind, site string) {
	for _, a := range c.at {
		if (a.wr || kind == "write") && a.t != x.cur.slot && a.clk > x.cur.vc.at(a.t) {
			x.raced("access", a, kind, site)
		}
	}
}

func (x *sim) write(p unsafe.Pointer, site string) {
	t, c := x.cur, x.cell(p)
	clk := t.clock()
	x.race.n++
	if c.w.site != "" && c.w.t != t.slot && c.w.clk > t.vc.at(c.w.t) {
		x.raced("write", c.w, "write", site)
	}
	for _, a := range c.rd {
		if a.t != t.slot && a.clk > t.vc.at(a.t) {
			x.raced("read", a, "write", site)
		}
	}
	if c.at != nil {
		x.atomics(c, "write", site)
		c.at = c.at[:0]
	}
	c.w, c.rd = access{t.slot, t.id, clk, site, true}, c.rd[:0]
}

// Rd reports a read of *p; site is "variable|function|position".
func Rd[T any](p *T, site string) *T {
	if tracking() && unsafe.Sizeof(*p) > 0 {
		for _, o := range leaves[T]() {
			s.read(unsafe.Add(unsafe.Pointer(p), o), site)
		}
	}
	return p
}

// Wr reports a write of *p.
func Wr[T any](p *T, site string) *T {
	if tracking() && unsafe.Sizeof(*p) > 0 {
		for _, o := range leaves[T]() {
			s.write(unsafe.Add(unsafe.Pointer(p), o), site)
		}
	}
	return p
}

// RS reports a read of all elements of a slice.
func RS[S ~[]T, T any](l S, site string) S {
	if tracking() {
		for i := range l {
			Rd(&l[i], site)
		}
	}
	return l
}

// leaves gives the offsets of what a value of type T is made of: the fields of structures, other types as a whole.
func leaves[T any]() []uintptr {
	t := reflect.TypeFor[T]()
	if t.Kind() != reflect.Struct {
		return whole
	}
	l, ok := leafCache[t]
	if !ok {
		var walk func(t reflect.Type, at uintptr)
		walk = func(t reflect.Type, at uintptr) {
			if t.Kind() != reflect.Struct {
				l = append(l, at)
				return
			}
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type, at+t.Field(i).Offset)
			}
		}
		walk(t, 0)
		leafCache[t] = l
	}
	return l
}

var (
	whole     = []uintptr{0}
	leafCache = map[reflect.Type][]uintptr{}
)

// MR reports a read of a map's contents.
func MR[M ~map[K]V, K comparable, V any](m M, site string) M {
	if m != nil && tracking() {
		s.read(*(*unsafe.Pointer)(unsafe.Pointer(&m)), site)
	}
	return m
}

// MW reports a change of a map's contents.
func MW[M ~map[K]V, K comparable, V any](m M, site string) M {
	if m != nil && tracking() {
		s.write(*(*unsafe.Pointer)(unsafe.Pointer(&m)), site)
	}
	return m
}
