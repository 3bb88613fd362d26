// Package props states the properties of qrpc as generated checks.
package props

import (
	"errors"
	"fmt"
	"net"
	"sort"
	"sync"
	"time"

	"verif/pbt"
	"verif/vnet"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// yieldCore is a logger core which logs nothing; it only perturbs the schedule
type yieldCore struct{}

func (yieldCore) Enabled(zapcore.Level) bool { pbt.Yield(); return false }
func (c yieldCore) With([]zapcore.Field) zapcore.Core {
	return c
}
func (c yieldCore) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	return ce
}
func (yieldCore) Write(zapcore.Entry, []zapcore.Field) error { return nil }
func (yieldCore) Sync() error                                { return nil }

func init() { qrpc.SetLogger(zap.New(yieldCore{})) }

// World is the environment of one case
type World struct {
	c   *pbt.C
	net *vnet.Network
	mu  sync.Mutex
	env
}

// env is what a scenario of one property is run under by another one
type env struct {
	tr   int    // transport
	re   int    // connections a client of dial has lost before
	seed uint64 // what those were like
	pre  int
	bind int // bindings before those of the scenario
}

func newWorld(c *pbt.C) *World {
	w := &World{c: c, net: vnet.New()}
	w.env, _ = c.Tag.(env)
	w.net.QuickAlert = w.tr != trTCP
	return w
}

// Srv is a running server
type Srv struct {
	*qrpc.Server
	w         *World
	addrs     []string
	serveErr  error
	done      <-chan struct{}
	throttled bool
	shift     int // index of the first binding of the scenario
}

// plainListener strips TCP methods when asked
func (w *World) listenFunc(addr string) func(network, address string) (net.Listener, error) {
	return func(string, string) (net.Listener, error) {
		l, err := w.net.Listen(addr)
		if err != nil {
			return nil, err
		}
		return l, nil
	}
}

// serve starts a server for the bindings (Addr defaults to s0, s1, ...)
func (w *World) serve(bs ...qrpc.ServerBinding) *Srv {
	s := w.newServer(bs...)
	s.start()
	return s
}

func (w *World) newServer(bs ...qrpc.ServerBinding) *Srv {
	s := &Srv{w: w}
	for i := range bs {
		if bs[i].Addr == "" {
			bs[i].Addr = fmt.Sprintf("s%d", i)
		}
		s.addrs = append(s.addrs, bs[i].Addr)
		if bs[i].ListenFunc == nil {
			bs[i].ListenFunc = w.listenFunc(bs[i].Addr)
		}
		w.binding(&bs[i])
	}
	bs = w.around(s, bs)
	s.Server = qrpc.NewServer(bs)
	return s
}

func (s *Srv) start() {
	s.done = s.w.c.Go(func() { s.serveErr = s.Server.ListenAndServe() })
	s.w.c.Cleanup(func() {
		s.w.c.Go(func() { s.Server.Shutdown() })
		time.Sleep(2 * time.Second)
	})
	s.w.c.Quiesce()
	for i, addr := range s.addrs {
		if got := s.BindingConfig(i).Addr; got != addr {
			s.w.c.Fatalf("BindingConfig of %s is that of %s", addr, got)
		}
	}
	s.hinder()
}

// NetOpt are the options of the two directions of a connection
type NetOpt struct {
	C2S, S2C vnet.Opts
}

// overlay dials the virtual network
func (w *World) overlay(o NetOpt, got func(c, s *vnet.Conn)) func(string, qrpc.DialConfig) (net.Conn, error) {
	return func(addr string, _ qrpc.DialConfig) (net.Conn, error) {
		c, s, err := w.dialFar(addr, o)
		if err != nil {
			return nil, err
		}
		if got != nil {
			got(c, s)
		}
		up, down := w.taps(&o)
		return w.clientEnd(addr, c, up, down)
	}
}

// dial makes a client connection; the harness keeps both vnet ends
func (w *World) dial(addr string, conf qrpc.ConnectionConfig, sub qrpc.SubFunc, o NetOpt) (conn *qrpc.Connection, cc, sc *vnet.Conn) {
	conf.OverlayNetwork = w.overlay(o, func(a, b *vnet.Conn) { cc, sc = a, b })
	conn, err := w.connect(addr, conf, sub)
	if err != nil {
		w.c.Fatalf("NewConnection(%s): %v", addr, err)
	}
	w.c.Cleanup(func() { w.c.Go(func() { conn.Close() }); cc.Break(); cc.Close() })
	return
}

// connect is NewConnection. Under env.re it gives a reconnecting client which
// has lost that many connections before, and which closes itself, as any other
// client does, when it loses this one.
func (w *World) connect(addr string, conf qrpc.ConnectionConfig, sub qrpc.SubFunc) (*qrpc.Connection, error) {
	if w.re == 0 {
		return qrpc.NewConnection(addr, conf, sub)
	}
	w.mu.Lock()
	w.pre++
	pre := fmt.Sprint("before", w.pre)
	rnd := pbt.NewR(w.seed + uint64(w.pre))
	w.mu.Unlock()
	l, err := w.net.Listen(pre)
	if err != nil {
		return nil, err
	}
	defer l.Close()
	var (
		real    = conf.OverlayNetwork
		dials   int
		derr    error
		ready   = make(chan struct{})
		onConn  = conf.LifecycleCallbacks.OnConnect
		onDis   = conf.LifecycleCallbacks.OnDisconnect
		current int
	)
	conf.OverlayNetwork = func(a string, dc qrpc.DialConfig) (net.Conn, error) {
		dials++
		if dials <= w.re {
			c, s, err := w.net.Dial(pre, vnet.Opts{}, vnet.Opts{})
			if err != nil {
				return nil, err
			}
			w.before(rnd, s)
			return c, nil
		}
		if dials > w.re+1 {
			return nil, errors.New("no more connections")
		}
		nc, err := real(a, dc)
		if err != nil {
			derr = err
			close(ready)
		}
		return nc, err
	}
	conf.LifecycleCallbacks.OnConnect = func(c *qrpc.Connection) {
		if current++; current <= w.re {
			// passes the writer without being visible
			go c.ResetFrame(1<<62+1, 0)
			return
		}
		if onConn != nil {
			onConn(c)
		}
		close(ready)
	}
	conf.LifecycleCallbacks.OnDisconnect = func(c *qrpc.Connection) {
		if current <= w.re {
			return
		}
		if onDis != nil {
			onDis(c)
		}
		c.Close()
	}
	conn := qrpc.NewConnectionWithReconnect([]string{addr}, conf, sub)
	select {
	case <-ready:
	case <-time.After(pbt.Long):
		w.c.Fatalf("the client did not connect after %d lost connections", w.re)
	}
	if derr != nil {
		conn.Close()
		return nil, derr
	}
	return conn, nil
}

// before is the server's side of a connection which is lost: it may send what
// no user can see, complete or cut off
func (w *World) before(rnd *pbt.R, s *vnet.Conn) {
	var b []byte
	for n := rnd.Intn(3); n > 0; n-- {
		switch rnd.Intn(3) {
		case 0:
			b = append(b, wire.Encode(wire.Frame{ID: 1<<62 + 3, Flags: wire.Rst})...)
		case 1:
			b = append(b, wire.Encode(wire.Frame{ID: 1<<62 + 5, Payload: pbt.Bytes(rnd.Len(300), rnd.U64())})...)
		case 2:
			b = append(b, wire.Encode(wire.Frame{ID: 1<<62 + 7, Flags: wire.Stream, Payload: pbt.Bytes(rnd.Len(300), rnd.U64())})...)
		}
	}
	if rnd.P(1, 2) {
		x := wire.Encode(wire.Frame{ID: 1<<62 + 9, Payload: pbt.Bytes(rnd.Len(300), rnd.U64())})
		b = append(b, x[:rnd.Intn(len(x))]...)
	}
	s.Write(b)
	if rnd.P(1, 2) {
		s.Break()
	}
	s.Close()
}

// Ev is one frame seen by a peer
type Ev struct {
	wire.Frame
	At time.Duration
}

// Peer is a raw endpoint which speaks the wire format through the reference codec
type Peer struct {
	w     *World
	conn  *vnet.Conn // the network connection
	nc    net.Conn   // the byte stream
	mu    sync.Mutex
	evs   []Ev
	err   error // end of the stream
	bad   error // malformed bytes
	rest  int   // bytes of a partial frame at the end
	wake  chan struct{}
	ended bool
	pause chan struct{}
}

func (w *World) peer(conn *vnet.Conn) *Peer {
	p := &Peer{w: w, conn: conn, nc: conn, wake: make(chan struct{})}
	w.c.Cleanup(func() { conn.Break(); conn.Close() })
	return p
}

// rawClient connects to a server and starts reading
func (w *World) rawClient(addr string, o NetOpt) *Peer {
	p, _, err := w.dialPeer(addr, o)
	if err != nil {
		w.c.Fatalf("dial %s: %v", addr, err)
	}
	p.read()
	return p
}

// dialFar connects without a transport; taps are left to the transport
func (w *World) dialFar(addr string, o NetOpt) (c, s *vnet.Conn, err error) {
	w.taps(&o)
	return w.net.Dial(addr, o.C2S, o.S2C)
}

// dialPeer is rawClient without the reading
func (w *World) dialPeer(addr string, o NetOpt) (p *Peer, far *vnet.Conn, err error) {
	up, down := w.taps(&o)
	c, far, err := w.net.Dial(addr, o.C2S, o.S2C)
	if err != nil {
		return
	}
	p = w.peer(c)
	p.nc, err = w.rawClientEnd(addr, c, up, down)
	return
}

// read starts the reading goroutine
func (p *Peer) read() {
	go func() {
		var d wire.Decoder
		buf := make([]byte, 64<<10)
		for {
			n, err := p.nc.Read(buf)
			fs, derr := d.Feed(buf[:n])
			p.mu.Lock()
			now := p.w.c.Now()
			for _, f := range fs {
				p.evs = append(p.evs, Ev{Frame: f, At: now})
			}
			if derr != nil && p.bad == nil {
				p.bad = derr
			}
			if err != nil || derr != nil {
				p.ended = true
				p.err = err
				p.rest = d.Pending()
			}
			close(p.wake)
			p.wake = make(chan struct{})
			p.mu.Unlock()
			if err != nil || derr != nil {
				return
			}
		}
	}()
}

// Send writes frames; the error is the connection's
func (p *Peer) Send(fs ...wire.Frame) error {
	var b []byte
	for _, f := range fs {
		b = append(b, wire.Encode(f)...)
	}
	return p.Raw(b)
}

// Raw writes bytes
func (p *Peer) Raw(b []byte) error {
	_, err := p.nc.Write(b)
	return err
}

// Frames seen so far
func (p *Peer) Frames() []Ev {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]Ev(nil), p.evs...)
}

// Ended tells whether the stream has ended
func (p *Peer) Ended() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.ended
}

// Bad is a format error in what was received
func (p *Peer) Bad() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.bad
}

// WaitFor blocks until cond(frames) holds, the stream ends or timeout
func (p *Peer) WaitFor(timeout time.Duration, cond func([]Ev) bool) bool {
	tm := time.NewTimer(timeout)
	defer tm.Stop()
	for {
		p.mu.Lock()
		ok := cond(p.evs)
		ended := p.ended
		wake := p.wake
		p.mu.Unlock()
		if ok {
			return true
		}
		if ended {
			return false
		}
		select {
		case <-wake:
		case <-tm.C:
			return false
		}
	}
}

// WaitN waits for n frames
func (p *Peer) WaitN(n int, timeout time.Duration) bool {
	return p.WaitFor(timeout, func(e []Ev) bool { return len(e) >= n })
}

// WaitEnd waits for the end of the stream
func (p *Peer) WaitEnd(timeout time.Duration) bool {
	tm := time.NewTimer(timeout)
	defer tm.Stop()
	for {
		p.mu.Lock()
		ended := p.ended
		wake := p.wake
		p.mu.Unlock()
		if ended {
			return true
		}
		select {
		case <-wake:
		case <-tm.C:
			return false
		}
	}
}

// rawServer listens with the reference codec; accepted peers come on the channel
func (w *World) rawServer(addr string) <-chan *Peer {
	l, err := w.net.Listen(addr)
	if err != nil {
		w.c.Fatalf("listen: %v", err)
	}
	ch := make(chan *Peer, 1000)
	go w.rawAccept(l, func(raw *vnet.Conn, nc net.Conn) {
		p := w.peer(raw)
		p.nc = nc
		p.read()
		ch <- p
	})
	w.c.Cleanup(func() { l.Close() })
	return ch
}

// accept takes the next raw server peer
func (w *World) accept(ch <-chan *Peer) *Peer {
	tm := time.NewTimer(time.Hour)
	defer tm.Stop()
	select {
	case p := <-ch:
		return p
	case <-tm.C:
		w.c.Fatalf("no connection arrived")
		return nil
	}
}

// Pay is a payload as data
type Pay struct {
	N int
	S uint64
}

// Bytes of the payload
func (p Pay) Bytes() []byte { return pbt.Bytes(p.N, p.S) }

func genPay(r *pbt.R, max int) Pay { return Pay{N: r.Len(max), S: uint64(r.Intn(1 << 30))} }

// Link is a connection's behaviour as data
type Link struct {
	Buf    int
	LatUS  int
	RChunk []int
	WChunk []int
	StallU []int // microseconds
}

func (l Link) opts() vnet.Opts {
	o := vnet.Opts{Buf: l.Buf, Lat: time.Duration(clamp(l.LatUS, 0, 1000000)) * time.Microsecond}
	for _, x := range l.RChunk {
		o.RChunk = append(o.RChunk, clamp(x, 0, 1<<20))
	}
	for _, x := range l.WChunk {
		o.WChunk = append(o.WChunk, clamp(x, 0, 1<<20))
	}
	for _, x := range l.StallU {
		o.WStall = append(o.WStall, time.Duration(clamp(x, 0, 10000000))*time.Microsecond)
	}
	return o
}

func clamp(x, lo, hi int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

// genLink draws fragmentation, latency and buffering. total is the amount of
// data expected, so that tiny fragments stay affordable.
func genLink(r *pbt.R, total int) Link {
	var l Link
	switch r.W(4, 2, 2, 1) {
	case 0:
		l.Buf = 64 << 10
	case 1:
		l.Buf = 1 << 20
	case 2:
		l.Buf = r.Range(64, 4096)
	case 3:
		l.Buf = r.Range(1, 64)
	}
	if total > 20000 && l.Buf < 256 {
		l.Buf = 256
	}
	small := total < 5000
	frag := func() []int {
		switch r.W(4, 2, 2, 1) {
		case 0:
			return nil
		case 1:
			return []int{r.Range(1, 16), r.Range(1, 2000)}
		case 2:
			return []int{r.Range(500, 1500), r.Range(1, 30)}
		default:
			if small {
				return []int{1}
			}
			return []int{r.Range(100, 300)}
		}
	}
	l.RChunk = frag()
	l.WChunk = frag()
	switch r.W(4, 1, 1) {
	case 1:
		l.LatUS = r.Range(1, 2000)
	case 2:
		l.LatUS = r.Range(1000, 200000)
	}
	if r.P(1, 5) {
		l.StallU = []int{0, r.Range(0, 5000)}
	}
	return l
}

func (l Link) trivial() bool {
	return len(l.RChunk) == 0 && len(l.WChunk) == 0 && len(l.StallU) == 0 && l.LatUS == 0
}

// call issues a non streamed request and waits for the response with a virtual limit
type callResult struct {
	id    uint64
	frame *qrpc.Frame
	err   error // from Request
	rerr  error // from GetFrame
	hung  string
}

// getFrame with the hang limit
func (w *World) getFrame(resp qrpc.Response) (f *qrpc.Frame, err error, ok bool) {
	ok = w.c.Do(pbt.Long, func() { f, err = resp.GetFrame() })
	return
}

var errHung = errors.New("hung")

func sortedKeys[K ~int | ~string | ~uint64, V any](m map[K]V) []K {
	out := make([]K, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func short(b []byte) string {
	if len(b) > 20 {
		return fmt.Sprintf("%x..(%d bytes)", b[:20], len(b))
	}
	return fmt.Sprintf("%x", b)
}
