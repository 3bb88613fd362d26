package props

import (
	"bytes"
	"context"
	"fmt"
	"sync"
	"time"

	"verif/pbt"
	"verif/vnet"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// The session engine runs generated programs of calls between real clients and
// a real server and checks every frame both ends observe against the program.

// Chunk is a continuation frame
type Chunk struct {
	P   Pay
	Gap int // µs before it
}

// handler modes
const (
	mAnswer   = iota // one response frame
	mStream          // streamed response
	mIgnore          // return without answering
	mPanic           // panic without answering
	mPanicMid        // panic in the middle of a streamed response
	mStopMid         // return in the middle of a streamed response
	nModes
)

// how a handler reads its own stream
const (
	rdFirst = iota // all of it, then answer
	rdPar          // concurrently with the answer
	rdLast         // answer first
	rdSome         // only some frames, then return
	nReads
)

// Plan of a handler
type Plan struct {
	Mode    int
	Read    int
	Some    int // frames read with rdSome
	Delay   int // µs before the answer
	RP      Pay
	RChunks []Chunk
	Split   int
	Panic   int // kind of panic value
	Slow    int // µs before reading each frame
	Own     int // 1: answers with a writer of its own (GetWriter) instead of the one it was given
}

// Call is a request and what its handler does
type Call struct {
	Lane   int
	Wait   bool // the lane waits for the outcome before its next call
	Gap    int  // µs
	NB     bool
	Stream bool
	P      Pay
	Chunks []Chunk
	Slow   int // µs the requester takes before reading each frame of the response
	H      Plan
}

// SConn is a connection with its two programs
type SConn struct {
	WCh      int
	C2S, S2C Link
	Calls    []Call // client to server
	Back     []Call // server to client
}

// Session is the scenario
type Session struct {
	WCh, RCh int
	Conns    []SConn
}

// streams tells whether there is any continuation frame
func (d *SConn) streams() bool {
	for _, l := range [][]Call{d.Calls, d.Back} {
		for i := range l {
			if len(l[i].Chunks) > 0 || len(l[i].H.RChunks) > 0 {
				return true
			}
		}
	}
	return false
}

type handled struct {
	conn       string
	start, end time.Duration
	seq, eseq  int
	flags      byte
	payload    []byte
	chunks     []wire.Frame
	ended      bool // saw the end of its stream
	ctxDone    bool // context already cancelled at the start
	werr       []error
	ctxEnd     time.Duration // when its context ended, -1
}

type gotten struct {
	issued   time.Duration
	got      time.Duration
	id       uint64
	err      error // of the request
	rerr     error // of GetFrame
	frames   []wire.Frame
	closed   bool // saw the end of the response
	werrs    []error
	sentAll  bool
	finished bool
}

type key struct {
	conn int
	back bool
	idx  int
}

type session struct {
	c       *pbt.C
	w       *World
	s       *Session
	mu      sync.Mutex
	seq     int
	handled map[key][]*handled
	gotten  map[key]*gotten
	unknown []string
	cmdOf   map[uint32]key
	conns   []*sconn
	srv     *Srv
	// lenient: outcomes after failures are not compared (the caller does)
	hook    func(k key, w qrpc.FrameWriter, f *qrpc.RequestFrame)
	net     func(conn int, o *NetOpt)
	srvConf func(b *qrpc.ServerBinding)
	cliConf func(conn int, conf *qrpc.ConnectionConfig)
}

type sconn struct {
	i      int
	conn   *qrpc.Connection
	cc, sc *vnet.Conn
	addr   string
	ci     *qrpc.ConnectionInfo
	up     *tap
	down   *tap
}

type tap struct {
	mu  sync.Mutex
	d   wire.Decoder
	fs  []Ev
	err error
	c   *pbt.C
}

func (t *tap) feed(b []byte) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.err != nil {
		return
	}
	fs, err := t.d.Feed(b)
	for _, f := range fs {
		t.fs = append(t.fs, Ev{Frame: f, At: t.c.Now()})
	}
	t.err = err
}

func (t *tap) frames() ([]Ev, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]Ev(nil), t.fs...), t.err
}

func us(n int) time.Duration { return time.Duration(clamp(n, 0, 1<<40)) * time.Microsecond }

func (k key) cmd() uint32 {
	v := uint32(k.conn&0xf)<<12 | uint32(k.idx&0x7ff)
	if k.back {
		v |= 0x800
	}
	return v + 1
}

// runSession runs the whole program; it returns once every call has finished
func runSession(c *pbt.C, w *World, s *Session) *session {
	x := startSession(c, w, s)
	x.run()
	return x
}

func startSession(c *pbt.C, w *World, s *Session, opts ...func(*session)) *session {
	if len(s.Conns) > 8 {
		s.Conns = s.Conns[:8]
	}
	x := &session{c: c, w: w, s: s, handled: map[key][]*handled{}, gotten: map[key]*gotten{}, cmdOf: map[uint32]key{}}
	for _, f := range opts {
		f(x)
	}
	for i := range s.Conns {
		if len(s.Conns[i].Calls) > 1500 {
			s.Conns[i].Calls = s.Conns[i].Calls[:1500]
		}
		if len(s.Conns[i].Back) > 1500 {
			s.Conns[i].Back = s.Conns[i].Back[:1500]
		}
		for j := range s.Conns[i].Calls {
			k := key{i, false, j}
			x.cmdOf[k.cmd()] = k
		}
		for j := range s.Conns[i].Back {
			k := key{i, true, j}
			x.cmdOf[k.cmd()] = k
			s.Conns[i].Back[j].NB = true // clients only take non-blocking requests
		}
	}
	b := qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		x.handle(wr, f, f.ConnectionInfo().RemoteAddr(), false)
	}), WriteFrameChSize: s.WCh, ReadFrameChSize: s.RCh}
	if x.srvConf != nil {
		x.srvConf(&b)
	}
	x.srv = w.serve(b)
	for i := range s.Conns {
		x.connect(i)
	}
	c.Quiesce()
	byAddr := map[string]*qrpc.ConnectionInfo{}
	x.srv.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
		byAddr[ci.RemoteAddr()] = ci
		return true
	})
	for _, sc := range x.conns {
		sc.ci = byAddr[sc.addr]
		if sc.ci == nil {
			c.Fatalf("connection %d is not known to the server", sc.i)
		}
	}
	return x
}

func (x *session) connect(i int) {
	d := x.s.Conns[i]
	sc := &sconn{i: i, up: &tap{c: x.c}, down: &tap{c: x.c}}
	o := NetOpt{C2S: d.C2S.opts(), S2C: d.S2C.opts()}
	if d.streams() {
		// Stream frames are handed over synchronously, so both ends may have
		// to wait for a consumer which itself waits for a write. With streams
		// the network takes everything that may be in flight.
		o.C2S.Buf, o.S2C.Buf = 64<<20, 64<<20
	}
	o.C2S.Tap = sc.up.feed
	o.S2C.Tap = sc.down.feed
	if x.net != nil {
		x.net(i, &o)
	}
	conf := qrpc.ConnectionConfig{WriteFrameChSize: clamp(d.WCh, 0, 4096)}
	conf.Handler = qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if cci := f.ClientConnectionInfo(); cci == nil || cci.CC == nil {
			x.c.Failf("request from the server without its client connection")
		}
		x.handle(wr, f, sc.addr, true)
	})
	if x.cliConf != nil {
		x.cliConf(i, &conf)
	}
	sc.conn, sc.cc, sc.sc = x.w.dial(x.srv.addrs[0], conf, nil, o)
	sc.addr = sc.cc.LocalAddr().String()
	x.conns = append(x.conns, sc)
}

func (x *session) call(k key) *Call {
	if k.back {
		return &x.s.Conns[k.conn].Back[k.idx]
	}
	return &x.s.Conns[k.conn].Calls[k.idx]
}

func toWire(f *qrpc.Frame) wire.Frame {
	return wire.Frame{ID: f.RequestID, Flags: byte(f.Flags), Cmd: uint32(f.Cmd), Payload: append([]byte(nil), f.Payload...)}
}

type planPanic struct{}

func (x *session) handle(wr qrpc.FrameWriter, f *qrpc.RequestFrame, conn string, back bool) {
	x.mu.Lock()
	k, ok := x.cmdOf[uint32(f.Cmd)]
	h := &handled{conn: conn, start: x.c.Now(), seq: x.seq, flags: byte(f.Flags), payload: append([]byte(nil), f.Payload...), eseq: -1, ctxEnd: -1}
	x.seq++
	if !ok || k.back != back {
		x.unknown = append(x.unknown, fmt.Sprintf("%v", toWire((*qrpc.Frame)(f))))
		x.mu.Unlock()
		return
	}
	select {
	case <-f.Context().Done():
		h.ctxDone = true
	default:
	}
	x.handled[k] = append(x.handled[k], h)
	x.mu.Unlock()
	context.AfterFunc(f.Context(), func() {
		x.mu.Lock()
		h.ctxEnd = x.c.Now()
		x.mu.Unlock()
	})
	defer func() {
		x.mu.Lock()
		h.end = x.c.Now()
		h.eseq = x.seq
		x.seq++
		x.mu.Unlock()
	}()
	if x.hook != nil {
		x.hook(k, wr, f)
	}
	call := x.call(k)
	p := call.H
	out := wr
	if p.Own == 1 && !back {
		out = f.ConnectionInfo().GetWriter()
	}
	read := func(max int) {
		for n := 0; max < 0 || n < max; n++ {
			if p.Slow > 0 {
				time.Sleep(us(p.Slow))
			}
			fr, ok := <-f.FrameCh()
			if !ok || fr == nil {
				x.mu.Lock()
				h.ended = true
				x.mu.Unlock()
				return
			}
			x.mu.Lock()
			h.chunks = append(h.chunks, toWire(fr))
			x.mu.Unlock()
		}
	}
	var par chan struct{}
	switch p.Read % nReads {
	case rdFirst:
		read(-1)
	case rdSome:
		read(clamp(p.Some, 0, len(call.Chunks)))
	case rdPar:
		par = make(chan struct{})
		go func() { defer close(par); read(-1) }()
	}
	if p.Delay > 0 {
		time.Sleep(us(p.Delay))
	}
	write := func(cmd uint32, flags byte, b []byte) {
		out.StartWrite(f.RequestID, qrpc.Cmd(cmd&0xffffff), qrpc.FrameFlag(flags))
		writeSplit(out, b, p.Split)
		err := out.EndWrite()
		x.mu.Lock()
		h.werr = append(h.werr, err)
		x.mu.Unlock()
	}
	rcmd := k.cmd() + 0x400000
	switch p.Mode % nModes {
	case mAnswer:
		write(rcmd, 0, p.RP.Bytes())
	case mStream, mPanicMid, mStopMid:
		n := len(p.RChunks)
		fl := byte(wire.Stream)
		if n == 0 && p.Mode%nModes == mStream {
			fl |= wire.StreamEnd
		}
		write(rcmd, fl, p.RP.Bytes())
		for i, ch := range p.RChunks {
			time.Sleep(us(ch.Gap))
			fl := byte(wire.Stream)
			if i == n-1 && p.Mode%nModes == mStream {
				fl = wire.StreamEnd
				if p.Split%2 == 1 {
					fl |= wire.Stream
				}
			}
			write(rcmd+uint32(i)+1, fl, ch.P.Bytes())
		}
		if p.Mode%nModes == mPanicMid {
			x.finishRead(p, read, par)
			doPanic(p.Panic)
		}
	case mPanic:
		x.finishRead(p, read, par)
		doPanic(p.Panic)
	}
	x.finishRead(p, read, par)
}

func (x *session) finishRead(p Plan, read func(int), par chan struct{}) {
	switch p.Read % nReads {
	case rdLast:
		read(-1)
	case rdPar:
		<-par
	}
}

func doPanic(kind int) {
	switch kind % 3 {
	case 0:
		panic("planned panic")
	case 1:
		panic(fmt.Errorf("planned error"))
	default:
		panic(planPanic{})
	}
}

// reqFlags are the flags the requester passes
func (cl *Call) reqFlags() byte {
	var fl byte
	if cl.NB {
		fl |= wire.NB
	}
	if cl.Stream && len(cl.Chunks) == 0 {
		fl |= wire.StreamEnd
	}
	return fl
}

// wantFlags are the flags on the wire
func (cl *Call) wantFlags(back bool) byte {
	fl := cl.reqFlags()
	if cl.Stream {
		fl |= wire.Stream
	} else if back {
		fl |= wire.NB
	}
	return fl
}

// issue performs one call; done is called when its outcome is complete
func (x *session) issue(k key) (done chan struct{}) {
	cl := x.call(k)
	sc := x.conns[k.conn]
	g := &gotten{issued: x.c.Now()}
	x.mu.Lock()
	x.gotten[k] = g
	x.mu.Unlock()
	done = make(chan struct{})
	var (
		id   uint64
		resp qrpc.Response
		sw   qrpc.StreamWriter
		err  error
	)
	body := cl.P.Bytes()
	cmd, fl := qrpc.Cmd(k.cmd()), qrpc.FrameFlag(cl.reqFlags())
	switch {
	case cl.Stream && k.back:
		sw, resp, err = sc.ci.StreamRequest(cmd, fl, body)
	case cl.Stream:
		sw, resp, err = sc.conn.StreamRequest(cmd, fl, body)
	case k.back:
		id, resp, err = sc.ci.Request(cmd, fl, body)
	default:
		id, resp, err = sc.conn.Request(cmd, fl, body)
	}
	if err == nil && sw != nil {
		id = sw.RequestID()
	}
	for i := range body {
		body[i] = 0xdd
	}
	x.mu.Lock()
	g.id, g.err = id, err
	x.mu.Unlock()
	if err != nil {
		g.finished = true
		close(done)
		return
	}
	sent := make(chan struct{})
	go func() {
		defer close(sent)
		if !cl.Stream || len(cl.Chunks) == 0 {
			g.sentAll = true
			return
		}
		for i, ch := range cl.Chunks {
			time.Sleep(us(ch.Gap))
			b := ch.P.Bytes()
			sw.StartWrite(qrpc.Cmd((k.cmd() + uint32(i) + 1) & 0xffffff))
			sw.WriteBytes(b)
			for j := range b {
				b[j] = 0xcc
			}
			err := sw.EndWrite(i == len(cl.Chunks)-1)
			x.mu.Lock()
			g.werrs = append(g.werrs, err)
			x.mu.Unlock()
			if err != nil {
				return
			}
		}
		x.mu.Lock()
		g.sentAll = true
		x.mu.Unlock()
	}()
	go func() {
		defer close(done)
		f, err := resp.GetFrame()
		x.mu.Lock()
		g.got = x.c.Now()
		g.rerr = err
		x.mu.Unlock()
		if err == nil && f == nil {
			x.c.Failf("GetFrame returned no frame and no error")
			return
		}
		if err == nil {
			x.mu.Lock()
			g.frames = append(g.frames, toWire(f))
			x.mu.Unlock()
			for {
				if cl.Slow > 0 {
					time.Sleep(us(cl.Slow))
				}
				nf, ok := <-f.FrameCh()
				if !ok || nf == nil {
					break
				}
				x.mu.Lock()
				g.frames = append(g.frames, toWire(nf))
				x.mu.Unlock()
			}
			x.mu.Lock()
			g.closed = true
			x.mu.Unlock()
		}
		<-sent
		x.mu.Lock()
		g.finished = true
		x.mu.Unlock()
	}()
	return done
}

// run issues everything and waits for all outcomes
func (x *session) run() {
	var all []<-chan struct{}
	for i := range x.s.Conns {
		for _, back := range []bool{false, true} {
			calls := x.s.Conns[i].Calls
			if back {
				calls = x.s.Conns[i].Back
			}
			lanes := map[int][]int{}
			for j := range calls {
				lanes[calls[j].Lane] = append(lanes[calls[j].Lane], j)
			}
			for _, lane := range sortedKeys(lanes) {
				idxs := lanes[lane]
				i, back := i, back
				all = append(all, x.c.Go(func() {
					var waits []chan struct{}
					for _, j := range idxs {
						cl := &calls[j]
						if cl.Gap > 0 {
							time.Sleep(us(cl.Gap))
						}
						d := x.issue(key{i, back, j})
						if cl.Wait {
							<-d
						} else {
							waits = append(waits, d)
						}
					}
					for _, d := range waits {
						<-d
					}
				}))
			}
		}
	}
	limit := pbt.Long
	for _, k := range x.keys() {
		cl := x.call(k)
		limit += us(cl.Gap) + us(cl.H.Delay)
		limit += time.Duration(len(cl.Chunks)+1)*us(cl.H.Slow) + time.Duration(len(cl.H.RChunks)+1)*us(cl.Slow)
		for _, l := range [][]Chunk{cl.Chunks, cl.H.RChunks} {
			for i := range l {
				limit += us(l[i].Gap)
			}
		}
	}
	deadline := time.Now().Add(limit)
	for _, d := range all {
		if !x.c.WaitDone(d, time.Until(deadline)) {
			x.c.Fatalf("calls never finished: %s", x.pending())
		}
	}
	x.c.Sleep(time.Second)
}

func (x *session) pending() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	var out string
	n := 0
	for i := range x.s.Conns {
		for _, back := range []bool{false, true} {
			l := len(x.s.Conns[i].Calls)
			if back {
				l = len(x.s.Conns[i].Back)
			}
			for j := 0; j < l; j++ {
				k := key{i, back, j}
				g := x.gotten[k]
				if g != nil && g.finished {
					continue
				}
				n++
				if n > 6 {
					continue
				}
				hs := x.handled[k]
				out += fmt.Sprintf("\n  conn %d back=%v call %d: issued=%v handler runs=%d", i, back, j, g != nil, len(hs))
				if g != nil {
					out += fmt.Sprintf(" id=%d frames=%d rerr=%v sentAll=%v", g.id, len(g.frames), g.rerr, g.sentAll)
				}
				if len(hs) > 0 {
					out += fmt.Sprintf(" handler returned=%v read=%d ended=%v", hs[0].eseq >= 0, len(hs[0].chunks), hs[0].ended)
				}
			}
		}
	}
	return fmt.Sprintf("%d calls%s", n, out)
}

func (x *session) keys() []key {
	var out []key
	for i := range x.s.Conns {
		for j := range x.s.Conns[i].Calls {
			out = append(out, key{i, false, j})
		}
		for j := range x.s.Conns[i].Back {
			out = append(out, key{i, true, j})
		}
	}
	return out
}

func (k key) String() string {
	d := "client->server"
	if k.back {
		d = "server->client"
	}
	return fmt.Sprintf("conn %d %s call %d", k.conn, d, k.idx)
}

// expected response frames of a plan
func (x *session) wantResp(k key, id uint64) []wire.Frame {
	p := x.call(k).H
	rcmd := k.cmd() + 0x400000
	switch p.Mode % nModes {
	case mAnswer:
		return []wire.Frame{{ID: id, Cmd: rcmd, Payload: p.RP.Bytes()}}
	case mStream, mPanicMid, mStopMid:
		complete := p.Mode%nModes == mStream
		fl := byte(wire.Stream)
		n := len(p.RChunks)
		if n == 0 && complete {
			fl |= wire.StreamEnd
		}
		out := []wire.Frame{{ID: id, Flags: fl, Cmd: rcmd, Payload: p.RP.Bytes()}}
		for i, ch := range p.RChunks {
			fl := byte(wire.Stream)
			if i == n-1 && complete {
				fl = wire.StreamEnd
				if p.Split%2 == 1 {
					fl |= wire.Stream
				}
			}
			out = append(out, wire.Frame{ID: id, Flags: fl, Cmd: (rcmd + uint32(i) + 1) & 0xffffff, Payload: ch.P.Bytes()})
		}
		return out
	}
	return nil
}

func (x *session) wantReq(k key, id uint64) []wire.Frame {
	cl := x.call(k)
	out := []wire.Frame{{ID: id, Flags: cl.wantFlags(k.back), Cmd: k.cmd(), Payload: cl.P.Bytes()}}
	if cl.Stream {
		for i, ch := range cl.Chunks {
			fl := cl.wantFlags(k.back)
			if i == len(cl.Chunks)-1 {
				fl |= wire.StreamEnd
			}
			out = append(out, wire.Frame{ID: id, Flags: fl, Cmd: (k.cmd() + uint32(i) + 1) & 0xffffff, Payload: ch.P.Bytes()})
		}
	}
	return out
}

// check compares everything observed with the program (no faults injected)
func (x *session) check() { x.checkBut(nil) }

// checkBut leaves out some connections
func (x *session) checkBut(lost map[int]bool) {
	c := x.c
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.unknown) > 0 {
		c.Fatalf("a handler got a request nobody sent to it: %s", x.unknown[0])
	}
	ids := map[int]map[uint64]key{}
	for _, k := range x.keys() {
		if lost[k.conn] {
			continue
		}
		cl := x.call(k)
		g := x.gotten[k]
		if g == nil {
			c.Fatalf("%v was never issued", k)
		}
		if g.err != nil {
			c.Fatalf("%v: request failed on a healthy connection: %v", k, g.err)
		}
		if ids[k.conn] == nil {
			ids[k.conn] = map[uint64]key{}
		}
		if o, dup := ids[k.conn][g.id]; dup {
			c.Fatalf("%v and %v share id %d", k, o, g.id)
		}
		ids[k.conn][g.id] = k
		if (g.id%2 == 1) == k.back {
			c.Fatalf("%v has id %d of the wrong parity", k, g.id)
		}
		hs := x.handled[k]
		if len(hs) != 1 {
			c.Fatalf("%v was handled %d times", k, len(hs))
		}
		h := hs[0]
		if h.conn != x.conns[k.conn].addr {
			c.Fatalf("%v was handled on connection %s instead of %s", k, h.conn, x.conns[k.conn].addr)
		}
		want := x.wantReq(k, g.id)
		if err := sameFrame(wire.Frame{ID: g.id, Flags: h.flags, Cmd: k.cmd(), Payload: h.payload}, want[0]); err != nil {
			c.Fatalf("%v: handler saw another request: %v", k, err)
		}
		if h.ctxDone {
			c.Fatalf("%v: the request's context was cancelled before its handler ran", k)
		}
		// the request stream
		if cl.H.Read%nReads != rdSome {
			if !h.ended || h.eseq < 0 {
				c.Fatalf("%v: handler did not see the end of its stream", k)
			}
			if err := sameFrames(h.chunks, want[1:]); err != nil {
				c.Fatalf("%v: handler's stream: %v", k, err)
			}
			if !g.sentAll {
				c.Fatalf("%v: writing the request stream failed: %v", k, g.werrs)
			}
		} else if err := samePrefix(h.chunks, want[1:]); err != nil {
			c.Fatalf("%v: handler's stream: %v", k, err)
		}
		for i, e := range h.werr {
			if e != nil {
				c.Fatalf("%v: response frame %d failed: %v", k, i, e)
			}
		}
		// the response
		wantR := x.wantResp(k, g.id)
		if wantR == nil {
			if g.rerr != qrpc.ErrStreamClosed {
				c.Fatalf("%v: the handler did not answer; GetFrame returned err=%v frames=%v, want ErrStreamClosed", k, g.rerr, g.frames)
			}
			continue
		}
		if g.rerr != nil {
			c.Fatalf("%v: the handler answered but GetFrame returned %v", k, g.rerr)
		}
		if err := sameFrames(g.frames, wantR); err != nil {
			c.Fatalf("%v: response: %v", k, err)
		}
		if !g.closed {
			c.Fatalf("%v: response stream did not end", k)
		}
	}
}

// checkWire compares what went over the wire with the program: every frame once
func (x *session) checkWire() { x.checkWireBut(nil) }

func (x *session) checkWireBut(lost map[int]bool) {
	c := x.c
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, sc := range x.conns {
		if lost[sc.i] {
			continue
		}
		up, err := sc.up.frames()
		if err != nil {
			c.Fatalf("conn %d: the client wrote malformed bytes: %v", sc.i, err)
		}
		down, err := sc.down.frames()
		if err != nil {
			c.Fatalf("conn %d: the server wrote malformed bytes: %v", sc.i, err)
		}
		byID := map[uint64]key{}
		for _, k := range x.keys() {
			if k.conn == sc.i {
				byID[x.gotten[k].id] = k
			}
		}
		for dir, evs := range [][]Ev{up, down} {
			got := map[uint64][]wire.Frame{}
			for _, e := range evs {
				got[e.ID] = append(got[e.ID], e.Frame)
			}
			for id, fs := range got {
				k, ok := byID[id]
				if !ok {
					c.Fatalf("conn %d: frame with an id no call has: %v", sc.i, fs[0])
				}
				var want []wire.Frame
				rst := 0
				for len(fs) > 0 && fs[len(fs)-1].Flags&wire.Rst != 0 {
					rst++
					fs = fs[:len(fs)-1]
				}
				m := x.call(k).H.Mode % nModes
				wantRst := 0
				if (dir == 1) == k.back {
					want = x.wantReq(k, id)
				} else {
					want = x.wantResp(k, id)
					if m != mAnswer && m != mStream {
						wantRst = 1
					}
				}
				if err := sameFrames(fs, want); err != nil {
					c.Fatalf("%v: on the wire: %v", k, err)
				}
				if rst != wantRst {
					c.Fatalf("%v: %d reset frames on the wire, want %d", k, rst, wantRst)
				}
			}
		}
	}
}

func sameFrames(got, want []wire.Frame) error {
	for i := range got {
		if i >= len(want) {
			return fmt.Errorf("%d frames, want %d; extra %v", len(got), len(want), got[i])
		}
		if got[i].ID != want[i].ID || got[i].Cmd != want[i].Cmd || got[i].Flags != want[i].Flags || !bytes.Equal(got[i].Payload, want[i].Payload) {
			return fmt.Errorf("frame %d of %d: got %v want %v", i, len(want), got[i], want[i])
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("%d frames, want %d", len(got), len(want))
	}
	return nil
}

func samePrefix(got, want []wire.Frame) error {
	if len(got) > len(want) {
		return fmt.Errorf("%d frames, want at most %d", len(got), len(want))
	}
	return sameFrames(got, want[:len(got)])
}

// ---- generators

type sesOpt struct {
	conns     int
	maxCalls  int
	back      bool
	modes     []int // weights of handler modes
	streams   int   // percent of streamed requests
	nb        int   // percent of non-blocking ones
	reads     []int // weights of the read modes of streamed requests
	maxPay    int
	maxChunks int
	plainLink bool
	slow      bool
	delay     func(r *pbt.R) int
	lanes     int
}

func genSession(r *pbt.R, o sesOpt) *Session {
	s := &Session{WCh: pbt.Pick(r, 0, 1, 2, 3, 8, 64, 1000), RCh: pbt.Pick(r, 0, 0, 0, 0, 1, 4)}
	nc := r.Range(1, o.conns)
	total := 0
	pay := func(max int) Pay {
		if total > 800000 {
			max = 40
		}
		p := genPay(r, max)
		total += p.N
		return p
	}
	chunks := func(max int) []Chunk {
		var out []Chunk
		n := 0
		switch r.W(2, 3, 1) {
		case 0:
			n = r.Range(0, 2)
		case 1:
			n = r.Range(0, max)
		case 2:
			n = max
		}
		mp := pbt.Pick(r, 20, 2000, o.maxPay)
		for i := 0; i < n; i++ {
			ch := Chunk{P: pay(mp)}
			if r.P(1, 4) {
				ch.Gap = r.Intn(3000)
			}
			out = append(out, ch)
		}
		return out
	}
	call := func() Call {
		mp := pbt.Pick(r, 30, 3000, o.maxPay)
		cl := Call{Lane: r.Intn(o.lanes), Wait: r.P(1, 3), P: pay(mp)}
		if r.P(1, 3) {
			cl.Gap = r.Intn(5000)
		}
		cl.NB = r.Intn(100) < o.nb
		cl.Stream = r.Intn(100) < o.streams
		cl.H = Plan{Mode: r.W(o.modes...), RP: pay(mp), Split: r.Intn(4), Panic: r.Intn(3)}
		if r.P(1, 6) {
			cl.H.Own = 1
		}
		if cl.Stream {
			cl.Chunks = chunks(o.maxChunks)
			cl.H.Read = r.W(o.reads...)
			cl.H.Some = r.Intn(len(cl.Chunks) + 1)
		}
		if m := cl.H.Mode; m == mStream || m == mPanicMid || m == mStopMid {
			cl.H.RChunks = chunks(o.maxChunks)
		}
		if o.slow && r.P(1, 5) {
			cl.Slow = r.Intn(20000)
		}
		if o.slow && r.P(1, 5) {
			cl.H.Slow = r.Intn(20000)
		}
		if o.delay != nil {
			cl.H.Delay = o.delay(r)
		} else if r.P(1, 3) {
			cl.H.Delay = r.Intn(5000)
		}
		return cl
	}
	for i := 0; i < nc; i++ {
		var d SConn
		d.WCh = pbt.Pick(r, 0, 1, 2, 3, 8, 64, 1000)
		n := r.N(1, o.maxCalls)
		for j := 0; j < n; j++ {
			d.Calls = append(d.Calls, call())
		}
		if o.back && r.P(2, 3) {
			n := r.N(1, o.maxCalls)
			for j := 0; j < n; j++ {
				d.Back = append(d.Back, call())
			}
		}
		if !o.plainLink {
			d.C2S, d.S2C = genLink(r, total), genLink(r, total)
		} else {
			d.C2S.Buf, d.S2C.Buf = 8<<20, 8<<20
		}
		s.Conns = append(s.Conns, d)
	}
	return s
}
