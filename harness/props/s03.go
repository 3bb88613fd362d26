package props

import (
	"encoding/binary"
	"fmt"
	"sync"
	"time"

	"verif/pbt"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// ---- S03: resets. A real server with a raw client and a real client with a
// raw server; the raw ends reset streams. The raw ends act at even ticks, the
// real ones at odd ticks, so every order of events is decided by the scenario.

const (
	evFrame = iota
	evEnd
	evRst
	nEvs
)

const (
	roleServerHandler = iota
	roleClientHandler
	roleClientInit
	roleServerInit
	roleClientSub
	roleServerSub
	nRoles
)

type s03Ev struct {
	T    int
	Kind int
}

type s03Stream struct {
	Role  int
	Start int
	Peer  []s03Ev
	Local []s03Ev
	Ret   int // ticks after the last local event a handler returns
	Alt   bool
}

type s03Noise struct {
	T    int
	ID   uint64
	Push bool
	Far  bool
}

type s03 struct {
	WCh, CWCh int
	Streams   []s03Stream
	Noise     []s03Noise
}

const s03Tick = time.Millisecond

func genS03(r *pbt.R) any {
	s := &s03{WCh: pbt.Pick(r, 0, 1, 2, 8, 64), CWCh: pbt.Pick(r, 0, 1, 2, 8, 64)}
	span := pbt.Pick(r, 4, 20, 60)
	for i := r.N(1, 10); i > 0; i-- {
		st := s03Stream{Role: r.Intn(nRoles), Start: r.Intn(span), Alt: r.P(1, 2), Ret: r.Intn(span)}
		ev := func(w ...int) (out []s03Ev) {
			t := 0
			for j := r.Len(6); j > 0; j-- {
				t += r.Intn(span/2 + 1)
				out = append(out, s03Ev{T: t, Kind: r.W(w...)})
			}
			return
		}
		st.Peer = ev(4, 1, 3)
		st.Local = ev(4, 1, 1)
		s.Streams = append(s.Streams, st)
	}
	for i := r.Len(5); i > 0; i-- {
		n := s03Noise{T: r.Intn(3 * span), ID: uint64(5000 + r.Intn(6)), Push: r.P(1, 3), Far: r.P(1, 2)}
		if r.P(1, 6) {
			n.ID = uint64(r.Intn(2))
		}
		s.Noise = append(s.Noise, n)
	}
	return s
}

type s03Got struct {
	seq uint32
	at  int
}

type s03Rec struct {
	id      uint64
	runs    int
	started int
	got     []s03Got
	closed  int // tick the frame channel ended, -1
	ctx     int // tick the context was cancelled, -1
	ret     int
	getErr  error
	getAt   int // tick GetFrame returned, -1
	werr    map[int]error
	wat     map[int]int
	bad     string
}

type s03State struct {
	c    *pbt.C
	s    *s03
	mu   sync.Mutex
	recs []*s03Rec
	base time.Duration
}

func (x *s03State) tick() int { return int((x.c.Now() - x.base) / s03Tick) }

func (x *s03State) sleepUntil(tick int) {
	if d := x.base + time.Duration(tick)*s03Tick - x.c.Now(); d > 0 {
		time.Sleep(d)
	}
}

// absolute ticks: the raw ends at even, the real ends at odd ones
func (st *s03Stream) start() int { return 4 * clamp(st.Start, 0, 1000) }
func (st *s03Stream) peerAt(i int) int {
	return st.start() + 2 + 2*clamp(st.Peer[i].T, 0, 1000) + 2*i
}
func (st *s03Stream) localAt(i int) int {
	return st.start() + 1 + 2*clamp(st.Local[i].T, 0, 1000) + 2*i
}
func (st *s03Stream) retAt() int {
	t := st.start() + 1
	if n := len(st.Local); n > 0 {
		t = st.localAt(n-1) + 2
	}
	return t + 2*clamp(st.Ret, 0, 1000)
}

// sent are the events a conforming raw end really sends
func (st *s03Stream) sent() (out []int) {
	closed, rst := false, false
	for i, e := range st.Peer {
		if i > 0 && st.Peer[i].T < st.Peer[i-1].T {
			continue
		}
		switch e.Kind % nEvs {
		case evRst:
			closed, rst = true, true
		case evEnd:
			if closed {
				continue
			}
			closed = true
		default:
			if closed {
				continue
			}
		}
		out = append(out, i)
	}
	_ = rst
	return
}

// watch follows what arrives on the stream of a first frame
func (x *s03State) watch(si int, f *qrpc.Frame) {
	rec := x.recs[si]
	go func() {
		for nf := range f.FrameCh() {
			x.add(si, nf)
		}
		x.mu.Lock()
		rec.closed = x.tick()
		x.mu.Unlock()
	}()
	go func() {
		<-f.Context().Done()
		x.mu.Lock()
		rec.ctx = x.tick()
		x.mu.Unlock()
	}()
}

func (x *s03State) add(si int, f *qrpc.Frame) {
	x.mu.Lock()
	defer x.mu.Unlock()
	rec := x.recs[si]
	if len(f.Payload) != 8 || binary.BigEndian.Uint32(f.Payload) != uint32(si) || f.RequestID != rec.id {
		rec.bad = fmt.Sprintf("frame of another stream: %v", toWire(f))
		return
	}
	rec.got = append(rec.got, s03Got{binary.BigEndian.Uint32(f.Payload[4:]), x.tick()})
}

func s03Body(si, seq int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint32(b, uint32(si))
	binary.BigEndian.PutUint32(b[4:], uint32(seq))
	return b
}

// locals performs the local events
func (x *s03State) locals(si int, write func(i, kind int, b []byte) error) {
	st := &x.s.Streams[si]
	for i, e := range st.Local {
		if i > 0 && e.T < st.Local[i-1].T {
			continue
		}
		x.sleepUntil(st.localAt(i))
		err := write(i, e.Kind%nEvs, s03Body(si, i))
		x.mu.Lock()
		x.recs[si].werr[i] = err
		x.recs[si].wat[i] = x.tick()
		x.mu.Unlock()
	}
}

func (x *s03State) handler(role int) qrpc.HandlerFunc {
	return func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		si := int(f.Cmd)
		if si >= len(x.s.Streams) || x.s.Streams[si].Role%nRoles != role {
			x.c.Failf("a handler ran for %v", toWire((*qrpc.Frame)(f)))
			return
		}
		rec, st := x.recs[si], &x.s.Streams[si]
		x.mu.Lock()
		rec.runs++
		rec.started = x.tick()
		x.mu.Unlock()
		x.watch(si, (*qrpc.Frame)(f))
		x.locals(si, func(i, kind int, b []byte) error {
			if kind == evRst && (st.Start+i)%2 == 1 {
				w.StartWrite(f.RequestID, 7, qrpc.StreamRstFlag)
				w.WriteBytes(b)
				return w.EndWrite()
			}
			if kind == evRst {
				return w.ResetFrame(f.RequestID, 7)
			}
			fl := qrpc.StreamFlag
			if kind == evEnd {
				fl |= qrpc.StreamEndFlag
				if i == 0 && st.Alt {
					fl = 0
				}
			}
			w.StartWrite(f.RequestID, 900, fl)
			w.WriteBytes(b)
			return w.EndWrite()
		})
		x.sleepUntil(st.retAt())
		x.mu.Lock()
		rec.ret = x.tick()
		x.mu.Unlock()
	}
}

func (x *s03State) sub(role int, f *qrpc.Frame) {
	si := int(f.Cmd)
	if si >= len(x.s.Streams) || x.s.Streams[si].Role%nRoles != role {
		x.c.Failf("a subscriber got %v", toWire(f))
		return
	}
	x.mu.Lock()
	x.recs[si].runs++
	x.recs[si].started = x.tick()
	x.mu.Unlock()
	x.watch(si, f)
}

func runS03(c *pbt.C, sc any) {
	s := sc.(*s03)
	if len(s.Streams) > 200 {
		s.Streams = s.Streams[:200]
	}
	w := newWorld(c)
	x := &s03State{c: c, s: s}
	for range s.Streams {
		x.recs = append(x.recs, &s03Rec{closed: -1, ctx: -1, getAt: -1, ret: -1, werr: map[int]error{}, wat: map[int]int{}})
	}
	big := NetOpt{}
	big.C2S.Buf, big.S2C.Buf = 8<<20, 8<<20
	srvTap, cliTap := &tap{c: c}, &tap{c: c}
	big.S2C.Tap = srvTap.feed
	srv := w.serve(qrpc.ServerBinding{WriteFrameChSize: s.WCh, Handler: x.handler(roleServerHandler), SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { x.sub(roleServerSub, f) }})
	cl := w.rawClient(srv.addrs[0], big)
	big.S2C.Tap, big.C2S.Tap = nil, cliTap.feed
	acc := w.rawServer("raw")
	conn, _, _ := w.dial("raw", qrpc.ConnectionConfig{WriteFrameChSize: clamp(s.CWCh, 0, 1000), Handler: x.handler(roleClientHandler)}, func(_ *qrpc.Connection, f *qrpc.Frame) { x.sub(roleClientSub, f) }, big)
	far := w.accept(acc)
	c.Quiesce()
	var ci *qrpc.ConnectionInfo
	srv.WalkConn(0, func(_ qrpc.FrameWriter, i *qrpc.ConnectionInfo) bool { ci = i; return true })
	if ci == nil {
		c.Fatalf("connection unknown to the server")
	}
	x.base = c.Now()
	last := 0
	for si := range s.Streams {
		si := si
		st := &s.Streams[si]
		role := st.Role % nRoles
		rec := x.recs[si]
		peer := cl
		if role == roleClientHandler || role == roleClientInit || role == roleClientSub {
			peer = far
		}
		for i := range st.Peer {
			last = max(last, st.peerAt(i))
		}
		last = max(last, st.retAt())
		peerEvents := func(first bool) {
			for _, i := range st.sent() {
				x.sleepUntil(st.peerAt(i))
				fr := wire.Frame{ID: rec.id, Cmd: 901, Payload: s03Body(si, i), Flags: wire.Stream}
				if role == roleClientSub || role == roleServerSub {
					fr.Flags |= wire.Push
				}
				switch st.Peer[i].Kind % nEvs {
				case evEnd:
					fr.Flags |= wire.StreamEnd
					if first && st.Alt {
						fr.Flags = 0
					}
				case evRst:
					fr.Flags = fr.Flags&wire.Push | wire.Rst
					if (st.Start+i)%2 == 0 { // a reset may say why
						fr.Payload = nil
					}
				}
				first = false
				peer.Send(fr)
			}
		}
		c.Go(func() {
			x.sleepUntil(st.start())
			switch role {
			case roleServerHandler, roleClientHandler, roleClientSub, roleServerSub:
				rec.id = uint64(2*si + 1001)
				if peer == far {
					rec.id++
				}
				fr := wire.Frame{ID: rec.id, Cmd: uint32(si), Flags: wire.Stream | wire.NB}
				if role == roleClientSub || role == roleServerSub {
					fr.Flags = wire.Stream | wire.Push
				}
				peer.Send(fr)
				peerEvents(false)
			default:
				var (
					sw   qrpc.StreamWriter
					resp qrpc.Response
					err  error
				)
				if role == roleClientInit {
					sw, resp, err = conn.StreamRequest(400, 0, nil)
				} else {
					sw, resp, err = ci.StreamRequest(400, 0, nil)
				}
				if err != nil {
					c.Failf("StreamRequest: %v", err)
					return
				}
				rec.id = sw.RequestID()
				c.Go(func() {
					f, err := resp.GetFrame()
					x.mu.Lock()
					rec.getErr, rec.getAt = err, x.tick()
					x.mu.Unlock()
					if err == nil {
						x.add(si, f)
						x.watch(si, f)
					}
				})
				c.Go(func() { peerEvents(true) })
				x.locals(si, func(_, kind int, b []byte) error {
					if kind == evRst {
						return sw.ResetFrame(7)
					}
					sw.StartWrite(900)
					sw.WriteBytes(b)
					return sw.EndWrite(kind == evEnd)
				})
			}
		})
	}
	for _, n := range s.Noise {
		n := n
		if n.ID >= 1000 && n.ID < 5000 || n.ID > 1 && n.ID < 1000 {
			continue
		}
		c.Go(func() {
			x.sleepUntil(2 * clamp(n.T, 0, 2000))
			p := cl
			if n.Far {
				p = far
			}
			fr := wire.Frame{ID: n.ID, Flags: wire.Rst}
			if n.T%2 == 1 {
				fr.Payload = []byte("why")
			}
			if n.Push {
				fr.Flags |= wire.Push
			}
			p.Send(fr)
		})
	}
	x.sleepUntil(last + 10)
	c.Quiesce()
	if cl.Ended() || far.Ended() || conn.IsClosed() {
		c.Fatalf("a connection was closed")
	}
	sevs, err := srvTap.frames()
	if err != nil {
		c.Fatalf("server wrote malformed bytes: %v", err)
	}
	cevs, err := cliTap.frames()
	if err != nil {
		c.Fatalf("client wrote malformed bytes: %v", err)
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	known := [2]map[uint64]bool{{}, {}}
	for si := range s.Streams {
		d := 0
		evs := sevs
		if ro := s.Streams[si].Role % nRoles; ro == roleClientHandler || ro == roleClientInit || ro == roleClientSub {
			evs, d = cevs, 1
		}
		known[d][x.recs[si].id] = true
		x.judge(si, evs)
	}
	for d, evs := range [][]Ev{sevs, cevs} {
		for _, e := range evs {
			if !known[d][e.ID] {
				c.Fatalf("a frame for an unknown stream was sent: %v", e.Frame)
			}
		}
	}
}

func (x *s03State) judge(si int, evs []Ev) {
	c, st, rec := x.c, &x.s.Streams[si], x.recs[si]
	role := st.Role % nRoles
	name := fmt.Sprintf("stream %d (%s)", si, []string{"server handler", "client handler", "client initiator", "server initiator", "client subscriber", "server subscriber"}[role])
	const never = 1 << 30
	push := role == roleClientSub || role == roleServerSub
	init := role == roleClientInit || role == roleServerInit
	handler := !push && !init
	if rec.bad != "" {
		c.Fatalf("%s: %s", name, rec.bad)
	}
	if !init && (rec.runs != 1 || rec.started != st.start()) {
		c.Fatalf("%s: %d runs, started at %d, want once at %d", name, rec.runs, rec.started, st.start())
	}
	tRst, tPeer, first := never, never, never
	var want []s03Got
	for _, i := range st.sent() {
		at := st.peerAt(i)
		first = min(first, at)
		switch st.Peer[i].Kind % nEvs {
		case evRst:
			tRst = min(tRst, at)
			tPeer = min(tPeer, at)
		case evEnd:
			tPeer = min(tPeer, at)
			want = append(want, s03Got{uint32(i), at})
		default:
			want = append(want, s03Got{uint32(i), at})
		}
	}
	tSelf, tRet := never, never
	if push {
		tSelf = st.start()
	}
	if handler {
		tRet = st.retAt()
		if rec.ret != tRet {
			c.Fatalf("%s: handler returned at %d, planned %d", name, rec.ret, tRet)
		}
	}
	var wantOut []int
	if !push {
		for i, e := range st.Local {
			err, did := rec.werr[i]
			if !did {
				if i > 0 && e.T < st.Local[i-1].T {
					continue
				}
				c.Fatalf("%s: operation %d did not return", name, i)
			}
			at := st.localAt(i)
			if rec.wat[i] != at {
				c.Fatalf("%s: operation %d took until %d, started at %d", name, i, rec.wat[i], at)
			}
			if e.Kind%nEvs == evRst {
				tSelf = min(tSelf, at)
				continue
			}
			if at <= tSelf && err != nil && (handler || at < tRst) {
				c.Fatalf("%s: operation %d at %d failed although its side was open (reset by the peer at %s): %v", name, i, at, tickStr(tRst), err)
			}
			if err == nil {
				wantOut = append(wantOut, i)
				if tRst < at {
					c.Label("answer finished after a reset by the peer")
				}
			}
			if e.Kind%nEvs == evEnd {
				tSelf = min(tSelf, at)
			}
		}
	}
	// the earliest and the latest moment the context may be cancelled
	earliest := min(tRst, max(tSelf, tPeer), tRet)
	latest := min(tRst, tRet)
	answered := !init || len(want) > 0 && want[0].at == first
	if init && answered {
		earliest, latest = max(earliest, first), max(latest, first)
	}
	if answered {
		if rec.ctx < 0 && latest < never {
			c.Fatalf("%s: context never cancelled; reset by the peer at %s, handler returned at %s", name, tickStr(tRst), tickStr(tRet))
		}
		if rec.ctx >= 0 && rec.ctx > latest {
			c.Fatalf("%s: context cancelled at %d; reset by the peer at %s, handler returned at %s", name, rec.ctx, tickStr(tRst), tickStr(tRet))
		}
		if rec.ctx >= 0 && rec.ctx < earliest {
			c.Fatalf("%s: context cancelled at %d without a reason; the first one came at %s", name, rec.ctx, tickStr(earliest))
		}
	}
	// what was delivered
	free := tRet // from here on incoming frames may be dropped
	j := 0
	for _, g := range want {
		if j < len(rec.got) && rec.got[j] == g {
			j++
			continue
		}
		if g.at < free {
			c.Fatalf("%s: the peer's frame %d of tick %d was not delivered then: %v", name, g.seq, g.at, rec.got)
		}
	}
	if j < len(rec.got) {
		c.Fatalf("%s: delivered %v, the peer sent %v", name, rec.got, want)
	}
	if init {
		if first == never {
			if rec.getAt >= 0 {
				c.Fatalf("%s: GetFrame returned at %d (%v) without a reason", name, rec.getAt, rec.getErr)
			}
		} else {
			if rec.getAt != first {
				c.Fatalf("%s: GetFrame returned at %d, the peer answered or reset at %d", name, rec.getAt, first)
			}
			if answered && rec.getErr != nil {
				c.Fatalf("%s: answered, but GetFrame returned %v", name, rec.getErr)
			}
			if !answered && rec.getErr != qrpc.ErrStreamClosed {
				c.Fatalf("%s: reset unanswered, but GetFrame returned %v", name, rec.getErr)
			}
		}
	}
	if answered && tPeer < free && rec.closed != tPeer {
		c.Fatalf("%s: the peer closed its side at %d, the frame channel ended at %d", name, tPeer, rec.closed)
	}
	if answered && rec.closed >= 0 && rec.closed < min(tPeer, free) {
		c.Fatalf("%s: the frame channel ended at %d without a reason", name, rec.closed)
	}
	// what was sent
	var out []int
	rsts := 0
	for _, e := range evs {
		if e.ID != rec.id || e.Cmd == 400 {
			continue
		}
		if e.Flags&wire.Rst != 0 {
			rsts++
			continue
		}
		if len(e.Payload) != 8 || binary.BigEndian.Uint32(e.Payload) != uint32(si) {
			c.Fatalf("%s: a frame nobody wrote: %v", name, e.Frame)
		}
		out = append(out, int(binary.BigEndian.Uint32(e.Payload[4:])))
	}
	if fmt.Sprint(out) != fmt.Sprint(wantOut) {
		c.Fatalf("%s: sent %v, written %v", name, out, wantOut)
	}
	if handler && tSelf == never && rsts != 1 {
		c.Fatalf("%s: handler returned without finishing its answer and %d reset frames went out", name, rsts)
	}
	if push && rsts > 0 {
		c.Fatalf("%s: a push was reset", name)
	}
	if tRst < never && len(x.s.Streams) > 1 {
		c.NonTrivial()
	}
	if tRst < never {
		switch {
		case tRst > max(tSelf, tPeer):
			c.Label("reset of a finished stream, %s", name[len(fmt.Sprintf("stream %d ", si)):])
		default:
			c.Label("reset, %s", name[len(fmt.Sprintf("stream %d ", si)):])
		}
	}
}

func tickStr(t int) string {
	if t >= 1<<30 {
		return "never"
	}
	return fmt.Sprint(t)
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "S03",
		Title: "resets",
		Rule:  "generated: up to ten concurrent streams in all six roles (handler, initiator, subscriber; client and server), the conforming peer sends, ends and resets (also repeatedly, after the end, and for unknown ids) at generated ticks, the local side writes, ends and resets at others; oracle: a model of the two sides of each stream decides what is delivered when, when the context ends, which writes succeed and what is on the wire. Non-trivial: at least two streams of which one is reset by the peer",
		Gen:   genS03, New: func() any { return &s03{} }, Run: runS03,
		Quick:    pbt.Budget{Cases: 60000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 3000000, MaxSec: 900},
	})
}
