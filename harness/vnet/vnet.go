// Package vnet is an in-memory network with bounded buffers, deadlines,
// configurable fragmentation, latency, stalls and faults. Everything it blocks
// on is a channel or a timer, so it lives in a testing/synctest bubble.
package vnet

import (
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Opts of one direction of a connection
type Opts struct {
	Buf    int             // buffer capacity (default 64KB)
	Lat    time.Duration   // one way latency
	RChunk []int           // cyclic list of maximum sizes returned by Read (0: any)
	WChunk []int           // cyclic list of sizes accepted at a time by Write (0: any)
	WStall []time.Duration // cyclic list of pauses before each accepted chunk
	CutAt  int64           // >0: the connection breaks after this many bytes were accepted
	Tap    func(b []byte)  // sees every accepted byte, in order
}

type half struct {
	mu      sync.Mutex
	o       Opts
	segs    []seg
	size    int
	total   int64
	ri, wi  int
	wclosed bool
	rclosed bool
	broken  error
	notify  chan struct{}

	unlimited  bool // takes any number of bytes at once
	smooth     bool // no pauses, latency or small buffer for now
	stalled    bool
	stallUntil time.Time
}

type seg struct {
	b     []byte
	ready time.Time
}

func newHalf(o Opts) *half {
	if o.Buf <= 0 {
		o.Buf = 64 << 10
	}
	return &half{o: o, notify: make(chan struct{})}
}

func (h *half) wake() {
	close(h.notify)
	h.notify = make(chan struct{})
}

type deadline struct {
	mu sync.Mutex
	t  time.Time
	ch chan struct{}
}

func (d *deadline) set(t time.Time) {
	d.mu.Lock()
	d.t = t
	if d.ch != nil {
		close(d.ch)
	}
	d.ch = make(chan struct{})
	d.mu.Unlock()
}

func (d *deadline) get() (time.Time, chan struct{}) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.ch == nil {
		d.ch = make(chan struct{})
	}
	return d.t, d.ch
}

// Conn is one end
type Conn struct {
	in, out  *half
	rd, wd   deadline
	local    net.Addr
	remote   net.Addr
	wmu      chan struct{} // serializes Write calls, as a socket does
	mu       sync.Mutex
	closed   bool
	closedCh chan struct{}
	onClose  func()

	QuickAlert bool // tls.Conn.Close does not wait for the network
}

func (c *Conn) op(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *Conn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// wait blocks for a state change of h, the deadline, or until t (if non zero)
func (c *Conn) wait(h chan struct{}, d *deadline, until time.Time) (timeout bool) {
	dl, dch := d.get()
	var timer <-chan time.Time
	when := dl
	if !until.IsZero() && (when.IsZero() || until.Before(when)) {
		when = until
	}
	if !when.IsZero() {
		dur := time.Until(when)
		if dur < 0 {
			dur = 0
		}
		tm := time.NewTimer(dur)
		defer tm.Stop()
		timer = tm.C
	}
	select {
	case <-h:
	case <-dch:
	case <-c.closedCh:
	case <-timer:
	}
	return false
}

func expired(d *deadline) bool {
	t, _ := d.get()
	return !t.IsZero() && !time.Now().Before(t)
}

// Read implements net.Conn
func (c *Conn) Read(b []byte) (int, error) {
	h := c.in
	for {
		if c.isClosed() {
			return 0, c.op("read", net.ErrClosed)
		}
		if expired(&c.rd) {
			time.Sleep(time.Microsecond)
			return 0, c.op("read", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		h.mu.Lock()
		if h.broken != nil {
			err := h.broken
			h.mu.Unlock()
			return 0, c.op("read", err)
		}
		var until time.Time
		if len(h.segs) > 0 {
			s := &h.segs[0]
			if !time.Now().Before(s.ready) {
				max := len(b)
				if len(h.o.RChunk) > 0 {
					if k := h.o.RChunk[h.ri%len(h.o.RChunk)]; k > 0 && k < max {
						max = k
					}
					h.ri++
				}
				n := 0
				for n < max && len(h.segs) > 0 && !time.Now().Before(h.segs[0].ready) {
					k := copy(b[n:max], h.segs[0].b)
					n += k
					h.segs[0].b = h.segs[0].b[k:]
					if len(h.segs[0].b) == 0 {
						h.segs = h.segs[1:]
					}
				}
				h.size -= n
				h.wake()
				h.mu.Unlock()
				return n, nil
			}
			until = s.ready
		} else if h.wclosed {
			h.mu.Unlock()
			return 0, io.EOF
		}
		ch := h.notify
		h.mu.Unlock()
		c.wait(ch, &c.rd, until)
	}
}

// Write implements net.Conn
func (c *Conn) Write(b []byte) (n int, err error) {
	select {
	case c.wmu <- struct{}{}:
	case <-c.closedCh:
		return 0, c.op("write", net.ErrClosed)
	}
	defer func() { <-c.wmu }()
	h := c.out
	for {
		if c.isClosed() {
			return n, c.op("write", net.ErrClosed)
		}
		if expired(&c.wd) {
			time.Sleep(time.Microsecond)
			return n, c.op("write", os.ErrDeadlineExceeded)
		}
		if n == len(b) {
			return n, nil
		}
		h.mu.Lock()
		if h.broken != nil {
			e := h.broken
			h.mu.Unlock()
			return n, c.op("write", e)
		}
		if h.rclosed {
			h.mu.Unlock()
			return n, c.op("write", syscall.EPIPE)
		}
		// a pause belongs to the network: it goes on when a Write times out
		if !h.stalled && len(h.o.WStall) > 0 && !h.smooth {
			h.stallUntil = time.Now().Add(h.o.WStall[h.wi%len(h.o.WStall)])
			h.stalled = true
		}
		if until := h.stallUntil; time.Now().Before(until) {
			ch := h.notify
			h.mu.Unlock()
			c.wait(ch, &c.wd, until)
			continue
		}
		room, lat := h.o.Buf-h.size, h.o.Lat
		if h.smooth {
			room, lat = 64<<10-h.size, 0
		}
		if h.unlimited {
			room = 1 << 30
		}
		if room <= 0 {
			ch := h.notify
			h.mu.Unlock()
			c.wait(ch, &c.wd, time.Time{})
			continue
		}
		k := len(b) - n
		if k > room {
			k = room
		}
		if len(h.o.WChunk) > 0 {
			if m := h.o.WChunk[h.wi%len(h.o.WChunk)]; m > 0 && m < k {
				k = m
			}
		}
		cut := false
		if h.o.CutAt > 0 && h.total+int64(k) >= h.o.CutAt {
			k = int(h.o.CutAt - h.total)
			cut = true
		}
		h.wi++
		h.stalled = false
		if k > 0 {
			data := append([]byte(nil), b[n:n+k]...)
			h.segs = append(h.segs, seg{b: data, ready: time.Now().Add(lat)})
			h.size += k
			h.total += int64(k)
			n += k
			if h.o.Tap != nil {
				h.o.Tap(data)
			}
			h.wake()
		}
		h.mu.Unlock()
		if cut {
			c.Break()
		}
	}
}

// ErrReset is what both ends see after Break
var ErrReset error = syscall.ECONNRESET

// Break resets the connection: both ends fail at once, buffered data is lost
func (c *Conn) Break() {
	for _, h := range []*half{c.in, c.out} {
		h.mu.Lock()
		if h.broken == nil {
			h.broken = ErrReset
			h.segs = nil
			h.size = 0
			h.wake()
		}
		h.mu.Unlock()
	}
}

// BreakSoft ends the connection cleanly in both directions: buffered data is
// still readable, then EOF; writes fail
func (c *Conn) BreakSoft() {
	for _, h := range []*half{c.in, c.out} {
		h.mu.Lock()
		h.wclosed = true
		h.rclosed = true
		h.wake()
		h.mu.Unlock()
	}
}

// CloseWrite half-closes
func (c *Conn) CloseWrite() {
	h := c.out
	h.mu.Lock()
	h.wclosed = true
	h.wake()
	h.mu.Unlock()
}

// Close implements net.Conn
func (c *Conn) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return c.op("close", net.ErrClosed)
	}
	c.closed = true
	close(c.closedCh)
	f := c.onClose
	c.mu.Unlock()
	c.out.mu.Lock()
	c.out.wclosed = true
	c.out.wake()
	c.out.mu.Unlock()
	c.in.mu.Lock()
	c.in.rclosed = true
	c.in.wake()
	c.in.mu.Unlock()
	if f != nil {
		f()
	}
	return nil
}

// Closed tells whether this end was closed locally
func (c *Conn) Closed() bool { return c.isClosed() }

// PeerClosed tells whether the other end was closed (or the connection broken)
func (c *Conn) PeerClosed() bool {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.in.wclosed || c.in.broken != nil
}

// Accepted returns how many bytes this end has sent
func (c *Conn) Accepted() int64 {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return c.out.total
}

// Smooth makes both directions perfect (while a transport is set up) or normal again
func (c *Conn) Smooth(on bool) {
	for _, h := range []*half{c.in, c.out} {
		h.mu.Lock()
		h.smooth = on
		h.mu.Unlock()
	}
}

// Prompt tells whether the other end's writes of n bytes take less than d as
// long as this end reads
func (c *Conn) Prompt(n int, d time.Duration) bool {
	h := c.in
	h.mu.Lock()
	defer h.mu.Unlock()
	k := h.o.Buf
	for _, x := range h.o.WChunk {
		if x > 0 {
			k = min(k, x)
		}
	}
	var stall time.Duration
	for _, x := range h.o.WStall {
		stall = max(stall, x)
	}
	return time.Duration(n/k+2)*stall+time.Duration(n/h.o.Buf+2)*h.o.Lat < d
}

// LocalAddr implements net.Conn
func (c *Conn) LocalAddr() net.Addr { return c.local }

// RemoteAddr implements net.Conn
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

// SetDeadline implements net.Conn
func (c *Conn) SetDeadline(t time.Time) error {
	c.rd.set(t)
	c.wd.set(t)
	return nil
}

// SetReadDeadline implements net.Conn
func (c *Conn) SetReadDeadline(t time.Time) error { c.rd.set(t); return nil }

// SetWriteDeadline implements net.Conn
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.QuickAlert && closingTLS() {
		// tls.Conn.Close sends an alert, within 5 seconds, and its caller may
		// hold a lock, which would stop virtual time
		c.Smooth(true)
		c.out.mu.Lock()
		c.out.unlimited = true
		c.out.stallUntil = time.Time{}
		c.out.wake()
		c.out.mu.Unlock()
	}
	c.wd.set(t)
	return nil
}

func closingTLS() bool {
	var pcs [6]uintptr
	fs := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs[:])])
	for {
		f, more := fs.Next()
		if strings.HasSuffix(f.Function, "tls.(*Conn).closeNotify") {
			return true
		}
		if !more {
			return false
		}
	}
}

// SetKeepAlive and friends make it a qrpc.TCPConn
func (c *Conn) SetKeepAlive(bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *Conn) SetWriteBuffer(int) error               { return nil }
func (c *Conn) SetReadBuffer(int) error                { return nil }

// Pair makes a connected pair; ab are the options of the a->b direction
func Pair(ab, ba Opts, aAddr, bAddr net.Addr) (a, b *Conn) {
	h1, h2 := newHalf(ab), newHalf(ba)
	a = &Conn{in: h2, out: h1, local: aAddr, remote: bAddr, wmu: make(chan struct{}, 1), closedCh: make(chan struct{})}
	b = &Conn{in: h1, out: h2, local: bAddr, remote: aAddr, wmu: make(chan struct{}, 1), closedCh: make(chan struct{})}
	return
}

// Network is a set of listeners
type Network struct {
	mu   sync.Mutex
	ls   map[string]*Listener
	port int

	QuickAlert bool // of the connections
}

// New network
func New() *Network { return &Network{ls: map[string]*Listener{}, port: 20000} }

// Listener implements net.Listener
type Listener struct {
	n      *Network
	addr   string
	mu     sync.Mutex
	q      []*Conn
	notify chan struct{}
	closed bool
}

// Listen on addr
func (n *Network) Listen(addr string) (*Listener, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.ls[addr] != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: syscall.EADDRINUSE}
	}
	l := &Listener{n: n, addr: addr, notify: make(chan struct{})}
	n.ls[addr] = l
	return l, nil
}

// Dial connects to addr; c2s and s2c are the options of the two directions
func (n *Network) Dial(addr string, c2s, s2c Opts) (client, server *Conn, err error) {
	n.mu.Lock()
	l := n.ls[addr]
	n.port++
	port := n.port
	n.mu.Unlock()
	refused := &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	if l == nil {
		return nil, nil, refused
	}
	ca := &net.TCPAddr{IP: net.IPv4(10, 0, byte(port>>16), 1), Port: port & 0xffff}
	sa := &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 80}
	c, s := Pair(c2s, s2c, ca, sa)
	c.QuickAlert, s.QuickAlert = n.QuickAlert, n.QuickAlert
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return nil, nil, refused
	}
	l.q = append(l.q, s)
	close(l.notify)
	l.notify = make(chan struct{})
	l.mu.Unlock()
	return c, s, nil
}

// Listening tells whether addr has a listener
func (n *Network) Listening(addr string) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.ls[addr] != nil
}

// Accept implements net.Listener
func (l *Listener) Accept() (net.Conn, error) {
	for {
		l.mu.Lock()
		if l.closed {
			l.mu.Unlock()
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			l.mu.Unlock()
			return c, nil
		}
		ch := l.notify
		l.mu.Unlock()
		<-ch
	}
}

// Close implements net.Listener
func (l *Listener) Close() error {
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	l.closed = true
	q := l.q
	l.q = nil
	close(l.notify)
	l.notify = make(chan struct{})
	l.mu.Unlock()
	for _, c := range q {
		c.Break()
		c.Close()
	}
	l.n.mu.Lock()
	if l.n.ls[l.addr] == l {
		delete(l.n.ls, l.addr)
	}
	l.n.mu.Unlock()
	return nil
}

// Addr implements net.Listener
func (l *Listener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 80} }

// IsTimeout reports a deadline error
func IsTimeout(err error) bool { return errors.Is(err, os.ErrDeadlineExceeded) }
