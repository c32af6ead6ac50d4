// Package simnet is the simulated network: in-memory connections whose
// latency, segmentation and failures are decided by a plan, in the virtual
// time of the surrounding synctest bubble.
package simnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Fault is one injected failure of one direction of a connection.
type Fault struct {
	Dir  string `json:"dir"`          // "up" (client to server) or "down"
	At   int    `json:"at"`           // byte offset in that direction
	Kind string `json:"kind"`         // rst | fin | stall | pause
	Ms   int    `json:"ms,omitempty"` // pause length
}

// Plan describes one connection, in dial order.
type Plan struct {
	DialErr   string  `json:"dial_err,omitempty"` // refused | timeout | unreachable | nohost | hang
	DialMs    int     `json:"dial_ms,omitempty"`
	LatencyMs int     `json:"latency_ms,omitempty"`
	JitterMs  int     `json:"jitter_ms,omitempty"`
	SegMax    int     `json:"seg_max,omitempty"` // largest segment delivered at once (0: unlimited)
	Window    int     `json:"window,omitempty"`  // bytes in flight before writes block (0: unlimited)
	Faults    []Fault `json:"faults,omitempty"`
}

// Net is the simulated network.
type Net struct {
	Hosts   map[string]func(c *Conn) // "host:port" -> server; runs on its own goroutine
	Plans   []Plan
	Default Plan
	Seed    uint64
	Fired   map[string]int // fault kind -> times it took effect
	Dials   []DialRec
	Conns   []*Conn // client ends, in dial order
	LogOn   bool
	Log     []string
	Start   time.Time
	OnDial  func(rec DialRec)
}

// DialRec records one dial.
type DialRec struct {
	Addr string
	At   time.Duration
	OK   bool
}

func New(seed uint64) *Net {
	return &Net{Hosts: map[string]func(*Conn){}, Seed: seed, Fired: map[string]int{}, Start: time.Now()}
}

func (n *Net) fire(kind string) { n.Fired[kind]++ }

func (n *Net) logf(format string, a ...any) {
	if n.LogOn {
		n.Log = append(n.Log, fmt.Sprintf("%v ", time.Since(n.Start))+fmt.Sprintf(format, a...))
	}
}

// Open lists the client ends that were never closed.
func (n *Net) Open() []string {
	var out []string
	for _, c := range n.Conns {
		if !c.closedSelf() {
			out = append(out, fmt.Sprintf("#%d %s", c.id, c.raddr))
		}
	}
	sort.Strings(out)
	return out
}

func opErr(op, addr string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: simAddr(addr), Err: err}
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// Dial implements net.SimDial.
func (n *Net) Dial(ctx context.Context, d *net.Dialer, network, addr string) (net.Conn, error) {
	idx := len(n.Dials)
	plan := n.Default
	if idx < len(n.Plans) {
		plan = n.Plans[idx]
	}
	rec := DialRec{Addr: addr, At: time.Since(n.Start)}
	n.Dials = append(n.Dials, rec)
	if n.OnDial != nil {
		n.OnDial(rec)
	}
	n.logf("dial #%d %s %s", idx, network, addr)
	wait := time.Duration(plan.DialMs+2*plan.LatencyMs) * time.Millisecond
	deadline := time.Time{}
	if d.Timeout > 0 {
		deadline = time.Now().Add(d.Timeout)
	}
	if !d.Deadline.IsZero() && (deadline.IsZero() || d.Deadline.Before(deadline)) {
		deadline = d.Deadline
	}
	timedOut := false
	if plan.DialErr == "hang" {
		n.fire("dial-hang")
		wait = 1<<62 - 1
	}
	if !deadline.IsZero() && time.Until(deadline) < wait {
		wait, timedOut = time.Until(deadline), true
	}
	if wait > 0 {
		var cancel <-chan struct{} = ctx.Done()
		if wait == 1<<62-1 {
			if cancel == nil && d.Cancel == nil {
				// Nobody can ever end this dial: durable block.
				<-make(chan struct{})
			}
			select {
			case <-cancel:
			case <-d.Cancel:
			}
			return nil, opErr("dial", addr, ctxErr(ctx))
		}
		t := time.NewTimer(wait)
		select {
		case <-t.C:
		case <-cancel:
			t.Stop()
			return nil, opErr("dial", addr, ctxErr(ctx))
		}
	}
	if timedOut {
		return nil, opErr("dial", addr, timeoutErr{})
	}
	srv := n.Hosts[strings.ToLower(addr)]
	switch plan.DialErr {
	case "refused":
		n.fire("dial-refused")
		return nil, opErr("dial", addr, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	case "timeout":
		n.fire("dial-timeout")
		return nil, opErr("dial", addr, os.NewSyscallError("connect", syscall.ETIMEDOUT))
	case "unreachable":
		n.fire("dial-unreachable")
		return nil, opErr("dial", addr, os.NewSyscallError("connect", syscall.EHOSTUNREACH))
	case "nohost":
		n.fire("dial-nohost")
		h, _, _ := net.SplitHostPort(addr)
		return nil, opErr("dial", addr, &net.DNSError{Err: "no such host", Name: h, IsNotFound: true})
	}
	if srv == nil {
		h, _, _ := net.SplitHostPort(addr)
		return nil, opErr("dial", addr, &net.DNSError{Err: "no such host", Name: h, IsNotFound: true})
	}
	n.Dials[idx].OK = true
	up := newStream(n, plan, "up", idx)
	down := newStream(n, plan, "down", idx)
	c := &Conn{n: n, id: idx, laddr: "10.0.0.1:4000", raddr: addr, in: down, out: up}
	s := &Conn{n: n, id: idx, laddr: addr, raddr: "10.0.0.1:4000", in: up, out: down, server: true}
	c.peer, s.peer = s, c
	n.Conns = append(n.Conns, c)
	go srv(s)
	return c, nil
}

func ctxErr(ctx context.Context) error {
	if ctx.Err() == context.DeadlineExceeded {
		return timeoutErr{}
	}
	if ctx.Err() != nil {
		return errors.New("operation was canceled")
	}
	return errors.New("operation was canceled")
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

type segment struct {
	at   time.Time
	data []byte
	err  error // io.EOF (FIN) or ECONNRESET
}

// stream is one direction of a connection.
type stream struct {
	mu       sync.Mutex
	n        *Net
	plan     Plan
	dir      string
	id       int
	rng      uint64
	q        []segment
	queued   int
	last     time.Time
	written  int
	faults   []Fault
	dead     error // after rst/fin/stall: how further writes behave
	silent   bool  // further bytes vanish
	stalled  bool  // ... and nobody notices
	wake     chan struct{}
	room     chan struct{}
	rdead    time.Time
	wdead    time.Time
	rclosed  bool // reader side closed
	wclosed  bool // writer side closed
	consumed int
}

func newStream(n *Net, p Plan, dir string, id int) *stream {
	s := &stream{n: n, plan: p, dir: dir, id: id, rng: n.Seed ^ uint64(id*2+1)*0x9e3779b97f4a7c15, wake: make(chan struct{}, 1), room: make(chan struct{}, 1)}
	if dir == "down" {
		s.rng ^= 0x5555555555555555
	}
	for _, f := range p.Faults {
		if f.Dir == dir {
			s.faults = append(s.faults, f)
		}
	}
	sort.SliceStable(s.faults, func(i, j int) bool { return s.faults[i].At < s.faults[j].At })
	return s
}

func (s *stream) rand(n int) int {
	if n <= 0 {
		return 0
	}
	s.rng += 0x9e3779b97f4a7c15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return int((z ^ (z >> 31)) >> 1 % uint64(n))
}

func poke(c chan struct{}) {
	select {
	case c <- struct{}{}:
	default:
	}
}

func (s *stream) push(data []byte, err error) {
	at := time.Now().Add(time.Duration(s.plan.LatencyMs) * time.Millisecond)
	if s.plan.JitterMs > 0 {
		at = at.Add(time.Duration(s.rand(s.plan.JitterMs*1000)) * time.Microsecond)
	}
	if at.Before(s.last) {
		at = s.last
	}
	s.last = at
	s.q = append(s.q, segment{at: at, data: data, err: err})
	s.queued += len(data)
	poke(s.wake)
}

// deliver queues bytes, applying the faults whose offset they cross.
func (s *stream) deliver(p []byte) {
	for len(p) > 0 && !s.silent {
		k := len(p)
		if s.plan.SegMax > 0 {
			m := 1 + s.rand(s.plan.SegMax)
			if k > m {
				k = m
			}
		}
		if len(s.faults) > 0 && s.faults[0].At < s.written+k {
			k = s.faults[0].At - s.written
			if k < 0 {
				k = 0
			}
		}
		if k > 0 {
			s.push(append([]byte(nil), p[:k]...), nil)
			s.written += k
			p = p[k:]
		}
		if len(s.faults) > 0 && s.faults[0].At <= s.written && len(p) > 0 {
			f := s.faults[0]
			s.faults = s.faults[1:]
			s.n.fire("conn-" + f.Kind)
			s.n.logf("fault #%d %s %s at %d", s.id, s.dir, f.Kind, s.written)
			switch f.Kind {
			case "rst":
				s.push(nil, syscall.ECONNRESET)
				s.dead, s.silent = syscall.ECONNRESET, true
			case "fin":
				s.push(nil, io.EOF)
				s.silent = true
			case "stall":
				s.silent, s.stalled = true, true
			case "pause":
				s.last = time.Now().Add(time.Duration(f.Ms) * time.Millisecond)
			}
		}
	}
}

// Conn is one end of a simulated connection.
type Conn struct {
	n            *Net
	id           int
	laddr, raddr string
	in, out      *stream
	peer         *Conn
	server       bool
	// Sent holds every byte this end handed to the network.
	Sent   []byte
	cmu    sync.Mutex
	closed bool
	shut   time.Duration
	rst    bool
}

// ID is the dial index of the connection.
func (c *Conn) ID() int { return c.id }

func (c *Conn) closedSelf() bool { c.cmu.Lock(); defer c.cmu.Unlock(); return c.closed }

// Remote is the address dialled.
func (c *Conn) Remote() string { return c.raddr }

// Closed reports whether this end was closed.
func (c *Conn) Closed() bool { return c.closedSelf() }

// PeerClosed reports whether the other end closed the connection.
func (c *Conn) PeerClosed() bool { return c.peer.closedSelf() }

// PeerClosedAt is when.
func (c *Conn) PeerClosedAt() time.Duration {
	c.peer.cmu.Lock()
	defer c.peer.cmu.Unlock()
	return c.peer.shut
}

func (c *Conn) Read(p []byte) (int, error) {
	s := c.in
	for {
		s.mu.Lock()
		if s.rclosed {
			s.mu.Unlock()
			return 0, opErr("read", c.raddr, net.ErrClosed)
		}
		if !s.rdead.IsZero() && !time.Now().Before(s.rdead) {
			s.mu.Unlock()
			return 0, opErr("read", c.raddr, os.ErrDeadlineExceeded)
		}
		if len(p) == 0 {
			s.mu.Unlock()
			return 0, nil
		}
		wait := time.Duration(-1)
		if len(s.q) > 0 {
			h := &s.q[0]
			wait = time.Until(h.at)
			if wait <= 0 {
				if h.err != nil {
					err := h.err
					s.mu.Unlock()
					if err == io.EOF {
						return 0, io.EOF
					}
					return 0, opErr("read", c.raddr, os.NewSyscallError("read", err))
				}
				k := copy(p, h.data)
				h.data = h.data[k:]
				if len(h.data) == 0 {
					s.q = s.q[1:]
				}
				s.queued -= k
				s.consumed += k
				poke(s.room)
				if s.n.LogOn {
					s.n.logf("#%d %s %d", s.id, s.dir, k)
				}
				s.mu.Unlock()
				return k, nil
			}
		}
		if !s.rdead.IsZero() {
			if d := time.Until(s.rdead); wait < 0 || d < wait {
				wait = d
			}
		}
		s.mu.Unlock()
		if wait < 0 {
			<-s.wake
			continue
		}
		t := time.NewTimer(wait)
		select {
		case <-t.C:
		case <-s.wake:
			t.Stop()
		}
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	s := c.out
	total := 0
	for {
		s.mu.Lock()
		if s.wclosed {
			s.mu.Unlock()
			return total, opErr("write", c.raddr, net.ErrClosed)
		}
		if s.dead != nil {
			s.mu.Unlock()
			return total, opErr("write", c.raddr, os.NewSyscallError("write", s.dead))
		}
		if s.rclosed && !s.stalled {
			s.mu.Unlock()
			return total, opErr("write", c.raddr, os.NewSyscallError("write", syscall.EPIPE))
		}
		if !s.wdead.IsZero() && !time.Now().Before(s.wdead) {
			s.mu.Unlock()
			return total, opErr("write", c.raddr, os.ErrDeadlineExceeded)
		}
		k := len(p)
		if s.plan.Window > 0 {
			if free := s.plan.Window - s.queued; free < k {
				k = free
			}
			if s.stalled && len(p) > s.plan.Window {
				k = 0 // stalled peer never opens the window
			} else if s.silent {
				k = len(p)
			}
		}
		if k > 0 || len(p) == 0 {
			if !c.server {
				c.Sent = append(c.Sent, p[:k]...)
			}
			s.deliver(p[:k])
			p = p[k:]
			total += k
			if len(p) == 0 {
				s.mu.Unlock()
				return total, nil
			}
		}
		var wait time.Duration = -1
		if !s.wdead.IsZero() {
			wait = time.Until(s.wdead)
		}
		s.mu.Unlock()
		if wait < 0 {
			<-s.room
			continue
		}
		t := time.NewTimer(wait)
		select {
		case <-t.C:
		case <-s.room:
			t.Stop()
		}
	}
}

// Close closes this end.
func (c *Conn) Close() error { return c.close(io.EOF) }

// Reset aborts the connection from this end.
func (c *Conn) Reset() { c.close(syscall.ECONNRESET) }

func (c *Conn) close(how error) error {
	c.cmu.Lock()
	if c.closed {
		c.cmu.Unlock()
		return opErr("close", c.raddr, net.ErrClosed)
	}
	c.closed, c.shut = true, time.Since(c.n.Start)
	c.cmu.Unlock()
	who := "client"
	if c.server {
		who = "server"
	}
	c.n.logf("close #%d by %s (%v)", c.id, who, how)
	s := c.out
	s.mu.Lock()
	s.wclosed = true
	if !s.silent {
		s.push(nil, how)
	}
	s.mu.Unlock()
	poke(s.room)
	s = c.in
	s.mu.Lock()
	s.rclosed = true
	s.q = nil
	s.mu.Unlock()
	poke(s.wake)
	poke(s.room)
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return simAddr(c.laddr) }
func (c *Conn) RemoteAddr() net.Addr { return simAddr(c.raddr) }
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.in.mu.Lock()
	c.in.rdead = t
	c.in.mu.Unlock()
	poke(c.in.wake)
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.out.mu.Lock()
	c.out.wdead = t
	c.out.mu.Unlock()
	poke(c.out.room)
	return nil
}
