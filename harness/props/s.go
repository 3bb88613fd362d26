package props

import (
	"encoding/binary"
	"fmt"
	"sync"
	"time"

	"verif/pbt"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

func runS01(c *pbt.C, sc any) {
	s := sc.(*Session)
	w := newWorld(c)
	x := runSession(c, w, s)
	x.check()
	x.checkWire()
	both, n := false, 0
	for _, k := range x.keys() {
		cl := x.call(k)
		if len(cl.Chunks) > 0 {
			n++
		}
		if len(cl.H.RChunks) > 0 {
			n++
			if len(cl.Chunks) > 0 {
				both = true
			}
		}
	}
	if n >= 2 {
		c.NonTrivial()
	}
	if both {
		c.Label("streams in both directions of one request")
	}
}

// ---- S02: nothing after the end

const (
	opPlain = iota // an unstreamed frame
	opFrame        // a stream frame
	opEnd          // the last stream frame
	opReset
	nOps
)

const (
	sideServerHandler = iota
	sideClientHandler
	sideClientInit
	sideServerInit
	nSides
)

type s02Op struct {
	Kind int
	Gap  int // µs before it
}

type s02Stream struct {
	Side    int
	Start   int // µs
	Threads [][]s02Op
	Hold    int  // µs the handler stays after its own operations
	Open    bool // the peer's side is a stream which is not ended
	PeerEnd int  // µs after the start the peer ends or answers, 0: never
	PeerRst int  // µs after the start the peer resets, 0: never
}

type s02 struct {
	WCh, CWCh int
	Streams   []s02Stream
}

func genS02(r *pbt.R) any {
	s := &s02{WCh: pbt.Pick(r, 0, 1, 2, 8, 64), CWCh: pbt.Pick(r, 0, 1, 2, 8, 64)}
	// coinciding times make frames meet in one batch
	grid := func() int { return 1000 * r.Intn(5) }
	for i := r.N(1, 8); i > 0; i-- {
		st := s02Stream{Side: r.Intn(nSides), Start: grid(), Open: r.P(1, 2)}
		for t := r.Range(1, 3); t > 0; t-- {
			var ops []s02Op
			for j := r.N(1, 6); j > 0; j-- {
				op := s02Op{Kind: r.W(2, 4, 3, 1)}
				if r.P(1, 2) {
					op.Gap = grid()
				}
				ops = append(ops, op)
			}
			st.Threads = append(st.Threads, ops)
		}
		if r.P(1, 2) {
			st.Hold = grid()
		}
		if r.P(1, 2) {
			st.PeerEnd = 1 + grid()
		}
		if r.P(1, 4) {
			st.PeerRst = 1 + grid()
		}
		s.Streams = append(s.Streams, st)
	}
	return s
}

type s02Rec struct {
	stream, thread, op int
	kind               int
	start, end         int // event order
	at                 time.Duration
	err                error
	done               bool
}

type s02State struct {
	c      *pbt.C
	s      *s02
	mu     sync.Mutex
	clock  int
	recs   []*s02Rec
	ids    map[int]uint64 // stream -> id
	resets map[int]int
}

func (x *s02State) do(si, ti, oi, kind int, f func(b []byte) error) {
	b := make([]byte, 8)
	binary.BigEndian.PutUint16(b, uint16(si))
	binary.BigEndian.PutUint16(b[2:], uint16(ti))
	binary.BigEndian.PutUint32(b[4:], uint32(oi))
	x.mu.Lock()
	x.clock++
	rec := &s02Rec{stream: si, thread: ti, op: oi, kind: kind, start: x.clock, at: x.c.Now()}
	x.recs = append(x.recs, rec)
	x.mu.Unlock()
	err := f(b)
	x.mu.Lock()
	x.clock++
	rec.end, rec.err, rec.done = x.clock, err, true
	x.mu.Unlock()
}

// writer runs a thread on a FrameWriter
func (x *s02State) writer(si, ti int, w qrpc.FrameWriter, id uint64) {
	for oi, op := range x.s.Streams[si].Threads[ti] {
		if op.Gap > 0 {
			time.Sleep(us(op.Gap))
		}
		kind := op.Kind % nOps
		x.do(si, ti, oi, kind, func(b []byte) error {
			if kind == opReset {
				return w.ResetFrame(id, 0)
			}
			fl := []qrpc.FrameFlag{0, qrpc.StreamFlag, qrpc.StreamFlag | qrpc.StreamEndFlag}[kind]
			w.StartWrite(id, qrpc.Cmd(500+si), fl)
			w.WriteBytes(b)
			return w.EndWrite()
		})
	}
}

// stream runs a thread on a StreamWriter
func (x *s02State) stream(si, ti int, sw qrpc.StreamWriter) {
	for oi, op := range x.s.Streams[si].Threads[ti] {
		if op.Gap > 0 {
			time.Sleep(us(op.Gap))
		}
		kind := op.Kind % nOps
		if kind == opPlain {
			kind = opEnd
		}
		x.do(si, ti, oi, kind, func(b []byte) error {
			if kind == opReset {
				return sw.ResetFrame(0)
			}
			sw.StartWrite(qrpc.Cmd(500 + si))
			sw.WriteBytes(b)
			return sw.EndWrite(kind == opEnd)
		})
	}
}

// resetter runs a thread which can only reset
func (x *s02State) resetter(si, ti int, reset func() error) {
	for oi, op := range x.s.Streams[si].Threads[ti] {
		if op.Gap > 0 {
			time.Sleep(us(op.Gap))
		}
		if op.Kind%nOps == opReset {
			x.do(si, ti, oi, opReset, func([]byte) error { return reset() })
		}
	}
}

func runS02(c *pbt.C, sc any) {
	s := sc.(*s02)
	w := newWorld(c)
	x := &s02State{c: c, s: s, ids: map[int]uint64{}}
	big := NetOpt{}
	big.C2S.Buf, big.S2C.Buf = 8<<20, 8<<20
	srvTap, cliTap := &tap{c: c}, &tap{c: c}
	big.S2C.Tap = srvTap.feed
	drain := func(f *qrpc.RequestFrame) {
		go func() {
			for range f.FrameCh() {
			}
		}()
	}
	srv := w.serve(qrpc.ServerBinding{WriteFrameChSize: s.WCh, Handler: qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		si := int(f.Cmd)
		if si >= len(s.Streams) || len(s.Streams[si].Threads) == 0 {
			return
		}
		drain(f)
		st := s.Streams[si]
		for ti := 1; ti < len(st.Threads); ti++ {
			ti := ti
			own := f.ConnectionInfo().GetWriter()
			c.Go(func() { x.writer(si, ti, own, f.RequestID) })
		}
		x.writer(si, 0, wr, f.RequestID)
		time.Sleep(us(st.Hold))
	})})
	cl := w.rawClient(srv.addrs[0], big)
	big.S2C.Tap, big.C2S.Tap = nil, cliTap.feed
	acc := w.rawServer("raw")
	conn, _, _ := w.dial("raw", qrpc.ConnectionConfig{WriteFrameChSize: clamp(s.CWCh, 0, 1000), Handler: qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		si := int(f.Cmd)
		if si >= len(s.Streams) || len(s.Streams[si].Threads) == 0 {
			return
		}
		drain(f)
		st := s.Streams[si]
		for ti := 1; ti < len(st.Threads); ti++ {
			ti := ti
			c.Go(func() {
				x.resetter(si, ti, func() error { return f.ClientConnectionInfo().CC.ResetFrame(f.RequestID, 0) })
			})
		}
		x.writer(si, 0, wr, f.RequestID)
		time.Sleep(us(st.Hold))
	})}, nil, big)
	far := w.accept(acc)
	c.Quiesce()
	var ci *qrpc.ConnectionInfo
	srv.WalkConn(0, func(_ qrpc.FrameWriter, i *qrpc.ConnectionInfo) bool { ci = i; return true })
	if ci == nil {
		c.Fatalf("connection unknown to the server")
	}
	for si := range s.Streams {
		si := si
		st := s.Streams[si]
		if len(st.Threads) == 0 {
			continue
		}
		peer := cl
		if sd := st.Side % nSides; sd == sideClientHandler || sd == sideClientInit {
			peer = far
		}
		peerTimes := func(id uint64, endFlags byte) {
			c.Go(func() {
				end, rst := us(st.PeerEnd), us(st.PeerRst)
				if end > 0 && (rst == 0 || end <= rst) { // nothing follows a reset
					time.Sleep(end)
					peer.Send(wire.Frame{ID: id, Flags: endFlags, Cmd: 3})
					rst -= end
				}
				if st.PeerRst > 0 {
					time.Sleep(rst)
					peer.Send(wire.Frame{ID: id, Flags: wire.Rst})
				}
			})
		}
		c.Go(func() {
			time.Sleep(us(st.Start))
			switch sd := st.Side % nSides; sd {
			case sideServerHandler, sideClientHandler:
				id := uint64(2*si + 1001)
				if sd == sideClientHandler {
					id++
				}
				x.mu.Lock()
				x.ids[si] = id
				x.mu.Unlock()
				fl := byte(wire.NB)
				if st.Open {
					fl |= wire.Stream
				}
				peer.Send(wire.Frame{ID: id, Flags: fl, Cmd: uint32(si)})
				if st.Open {
					peerTimes(id, wire.Stream|wire.StreamEnd)
				} else {
					st.PeerEnd = 0
					peerTimes(id, 0)
				}
			default:
				var (
					sw  qrpc.StreamWriter
					err error
				)
				if sd == sideClientInit {
					sw, _, err = conn.StreamRequest(qrpc.Cmd(400), 0, nil)
				} else {
					sw, _, err = ci.StreamRequest(qrpc.Cmd(400), 0, nil)
				}
				if err != nil {
					c.Failf("StreamRequest: %v", err)
					return
				}
				id := sw.RequestID()
				x.mu.Lock()
				x.ids[si] = id
				x.mu.Unlock()
				peerTimes(id, 0)
				for ti := 1; ti < len(st.Threads); ti++ {
					ti := ti
					if sd == sideClientInit {
						c.Go(func() { x.resetter(si, ti, func() error { return conn.ResetFrame(id, 0) }) })
					} else {
						own := ci.GetWriter()
						c.Go(func() { x.writer(si, ti, own, id) })
					}
				}
				x.stream(si, 0, sw)
			}
		})
	}
	c.Sleep(10 * time.Minute)
	x.mu.Lock()
	defer x.mu.Unlock()
	if cl.Ended() || far.Ended() || conn.IsClosed() {
		c.Fatalf("a connection was closed")
	}
	sevs, err := srvTap.frames()
	if err != nil {
		c.Fatalf("server wrote malformed bytes: %v", err)
	}
	cevs, err := cliTap.frames()
	if err != nil {
		c.Fatalf("client wrote malformed bytes: %v", err)
	}
	for si, st := range s.Streams {
		if len(st.Threads) == 0 {
			continue
		}
		evs := sevs
		if sd := st.Side % nSides; sd == sideClientHandler || sd == sideClientInit {
			evs = cevs
		}
		x.judge(si, evs)
	}
}

func (x *s02State) judge(si int, evs []Ev) {
	c := x.c
	name := fmt.Sprintf("stream %d (%s)", si, []string{"server handler", "client handler", "client initiator", "server initiator"}[x.s.Streams[si].Side%nSides])
	var recs []*s02Rec
	firstFinal := 1 << 60 // start of the earliest final operation
	finals, late := 0, 0
	for _, r := range x.recs {
		if r.stream != si {
			continue
		}
		recs = append(recs, r)
		if !r.done {
			c.Fatalf("%s: operation %d of thread %d did not return", name, r.op, r.thread)
		}
		if r.kind != opFrame {
			firstFinal = min(firstFinal, r.start)
			finals++
		}
	}
	onWire := map[[2]int]Ev{}
	closed := -1
	var closedAt time.Duration
	rsts := 0
	id := x.ids[si]
	i := 0
	for _, e := range evs {
		if e.ID != id || e.Cmd == 400 {
			continue
		}
		i++
		if e.Flags&wire.Rst != 0 {
			rsts++
			if len(e.Payload) > 0 {
				c.Fatalf("%s: a reset frame carries a payload: %v", name, e.Frame)
			}
			if closed < 0 {
				closed, closedAt = i, e.At
			}
			continue
		}
		if len(e.Payload) != 8 || int(binary.BigEndian.Uint16(e.Payload)) != si {
			c.Fatalf("%s: a frame nobody wrote: %v", name, e.Frame)
		}
		k := [2]int{int(binary.BigEndian.Uint16(e.Payload[2:])), int(binary.BigEndian.Uint32(e.Payload[4:]))}
		if closed >= 0 {
			c.Fatalf("%s: frame of operation %d of thread %d went out after the side had been closed", name, k[1], k[0])
		}
		if _, dup := onWire[k]; dup {
			c.Fatalf("%s: frame sent twice", name)
		}
		onWire[k] = e
		if e.Flags&(wire.Stream|wire.StreamEnd) == 0 || e.Flags&wire.StreamEnd != 0 {
			closed, closedAt = i, e.At
		}
	}
	resets, okFinal, minClosed, answered := 0, 0, 1<<60, false
	for _, r := range recs {
		if r.kind == opReset {
			resets++
			if r.err == nil {
				minClosed = min(minClosed, r.end)
			}
			continue
		}
		e, sent := onWire[[2]int{r.thread, r.op}]
		if sent != (r.err == nil) {
			c.Fatalf("%s: operation %d of thread %d returned %v, on the wire: %v (%v)", name, r.op, r.thread, r.err, sent, e.Frame)
		}
		if r.err == nil && r.kind != opFrame {
			okFinal++
			answered = answered || r.thread == 0
			minClosed = min(minClosed, r.end)
		}
		if closed >= 0 && r.at > closedAt && r.err == nil {
			c.Fatalf("%s: operation %d of thread %d succeeded after the side had been closed", name, r.op, r.thread)
		}
		if closed >= 0 && r.at > closedAt {
			late++
		}
	}
	handlerSide := x.s.Streams[si].Side%nSides < sideClientInit
	for _, r := range recs {
		if r.kind == opReset {
			continue
		}
		if r.start > minClosed && r.err == nil {
			c.Fatalf("%s: operation %d of thread %d succeeded although a final one had returned before", name, r.op, r.thread)
		}
		// the end of a handler closes its side, too
		if r.end < firstFinal && r.err != nil && !(handlerSide && r.thread > 0) {
			c.Fatalf("%s: operation %d of thread %d failed before anything closed the side: %v", name, r.op, r.thread, r.err)
		}
	}
	if okFinal > 1 {
		c.Fatalf("%s: %d final frames were accepted", name, okFinal)
	}
	if finals > resets && okFinal == 0 && resets == 0 && !handlerSide {
		c.Fatalf("%s: no final frame was accepted", name)
	}
	if max := resets + b2i(handlerSide); rsts > max {
		c.Fatalf("%s: %d reset frames for %d resets", name, rsts, max)
	}
	// (a goroutine which outlives the handler races with the reset of an unanswered request)
	if handlerSide && answered && resets == 0 && rsts > 0 {
		c.Fatalf("%s: an answered request was reset", name)
	}
	if late > 0 {
		c.NonTrivial()
		c.Label("write after close, %s", name[len(fmt.Sprintf("stream %d ", si)):])
	}
	if finals > 1 {
		c.Label("several final operations")
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "S01",
		Title: "streams",
		Rule:  "generated: streamed requests and streamed answers in both directions at once, up to 40 frames each, fast and slow readers and writers, mixed with plain requests, over fragmenting links; oracle: the program, at both ends and on the wire. Non-trivial: at least two streams",
		Gen: func(r *pbt.R) any {
			return genSession(r, sesOpt{conns: 3, maxCalls: 9, back: true, modes: []int{3, 7, 0, 0, 1, 1}, streams: 75, nb: 60, reads: []int{2, 3, 1}, maxPay: 20000, maxChunks: pbt.Pick(r, 4, 10, 40), lanes: 5, slow: true})
		},
		New: newSession, Run: runS01,
		Quick:    pbt.Budget{Cases: 12000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 400000, MaxSec: 900},
	})
	pbt.Register(&pbt.Prop{
		ID:    "S02",
		Title: "nothing after the end",
		Rule:  "generated: writes, final writes and resets by up to three goroutines on one side of up to eight concurrent streams, in all four roles, with the peer's side open, ended or reset at any time; oracle: the return values, the wire and the clock. Non-trivial: a write issued after its side was closed",
		Gen:   genS02, New: func() any { return &s02{} }, Run: runS02,
		Quick:    pbt.Budget{Cases: 100000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 4000000, MaxSec: 900},
	})
}
