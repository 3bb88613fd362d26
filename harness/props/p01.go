package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"sync"
	"time"

	"verif/pbt"

	"github.com/zhiqiangxu/qrpc"
)

// ---- P01: pushes. Connections open and close at even ticks, operations run at
// odd ticks and take no virtual time.

const (
	pClientPlain  = iota // client pushes N frames
	pClientStream        // client pushes a stream of N+1 frames
	pServerPlain         // server pushes N frames with one writer
	pServerStream
	pServerReq  // server pushes through ConnectionInfo.Request
	pWalk       // push to every connection of a binding
	pWalkID     // push by ids
	pInRequest  // handler on the server pushes with the id of its request
	pInBack     // handler on the client pushes with the id of its request
	pServerSReq // server pushes a stream through ConnectionInfo.StreamRequest
	nPKinds
)

type p01Conn struct {
	Binding     int
	Open, Close int // ticks, Close 0: never
	Bind        bool
	Link        Link
	WCh         int
}

type p01Op struct {
	T      int
	Conn   int
	Kind   int
	N      int
	P      Pay
	Stream bool // pInRequest, pInBack: also push a stream, answer with a stream
	NB     bool
	IDs    []int // pWalkID: connection numbers (unknown ones allowed)
	PushID int   // id for plain server pushes: 0 GetPushID, otherwise this one
}

type p01 struct {
	WCh   int
	Conns []p01Conn
	Ops   []p01Op
}

func genP01(r *pbt.R) any {
	s := &p01{WCh: pbt.Pick(r, 0, 1, 2, 8, 64)}
	span := pbt.Pick(r, 2, 6, 15)
	for i := r.N(1, 5); i > 0; i-- {
		cn := p01Conn{Binding: r.Intn(2), Bind: r.P(1, 2), WCh: pbt.Pick(r, 0, 1, 2, 8, 64)}
		if r.P(1, 3) {
			cn.Open = r.Intn(span)
		}
		if r.P(1, 3) {
			cn.Close = cn.Open + 1 + r.Intn(span)
		}
		cn.Link = genLink(r, 4000)
		cn.Link.LatUS, cn.Link.StallU, cn.Link.Buf = 0, nil, 0
		s.Conns = append(s.Conns, cn)
	}
	for i := r.N(1, 14); i > 0; i-- {
		op := p01Op{T: r.Intn(span), Conn: r.Intn(len(s.Conns)), Kind: r.Intn(nPKinds), N: r.Len(6), Stream: r.P(1, 2), NB: r.P(1, 2)}
		if r.P(1, 3) {
			op.P = genPay(r, 3000)
		}
		if op.Kind == pWalkID {
			for j := r.Len(5); j > 0; j-- {
				op.IDs = append(op.IDs, r.Intn(len(s.Conns)+1))
			}
		}
		if r.P(1, 2) {
			op.PushID = 1 + r.Intn(8)
		}
		s.Ops = append(s.Ops, op)
	}
	return s
}

func (s *p01) openAt(ci, tick int) bool {
	cn := &s.Conns[ci]
	return cn.Open <= tick && (cn.Close == 0 || cn.Close > tick)
}

type p01Key struct {
	op       int
	conn     int
	toServer bool
	stream   bool
}

type p01Got struct {
	first  [][]byte
	rest   [][]byte
	ended  bool
	flags  []byte
	strays int
}

type p01State struct {
	c    *pbt.C
	s    *p01
	mu   sync.Mutex
	got  map[p01Key]*p01Got
	want map[p01Key]int // number of frames pushed
	errs []string
}

func (x *p01State) body(op, seq int) []byte {
	b := make([]byte, 8, 8+x.s.Ops[op].P.N)
	binary.BigEndian.PutUint32(b, uint32(op))
	binary.BigEndian.PutUint32(b[4:], uint32(seq))
	return append(b, x.s.Ops[op].P.Bytes()...)
}

func (x *p01State) rec(k p01Key) *p01Got {
	g := x.got[k]
	if g == nil {
		g = &p01Got{}
		x.got[k] = g
	}
	return g
}

// arrived is called by the subscriber of connection ci
func (x *p01State) arrived(ci int, toServer bool, f *qrpc.Frame) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(f.Payload) < 8 || !f.Flags.IsPush() {
		x.errs = append(x.errs, fmt.Sprintf("subscriber got %v", toWire(f)))
		return
	}
	k := p01Key{int(binary.BigEndian.Uint32(f.Payload)), ci, toServer, f.Flags.IsStream()}
	g := x.rec(k)
	g.first = append(g.first, append([]byte(nil), f.Payload...))
	g.flags = append(g.flags, byte(f.Flags))
	if int(f.Cmd) != 600+k.op {
		x.errs = append(x.errs, fmt.Sprintf("subscriber got a wrong command %d for operation %d", f.Cmd, k.op))
	}
	if k.stream {
		go func() {
			for nf := range f.FrameCh() {
				x.mu.Lock()
				g.rest = append(g.rest, append([]byte(nil), nf.Payload...))
				x.mu.Unlock()
			}
			x.mu.Lock()
			g.ended = true
			x.mu.Unlock()
		}()
	}
}

func (x *p01State) expect(k p01Key, n int) {
	x.mu.Lock()
	x.want[k] += n
	x.mu.Unlock()
}

func (x *p01State) fail(f string, a ...any) {
	x.mu.Lock()
	x.errs = append(x.errs, fmt.Sprintf(f, a...))
	x.mu.Unlock()
}

// plain pushes N frames through w
func (x *p01State) plain(w qrpc.FrameWriter, oi, n int, id func() uint64, fl qrpc.FrameFlag) {
	for i := 0; i < n; i++ {
		w.StartWrite(id(), qrpc.Cmd(600+oi), fl|qrpc.PushFlag)
		w.WriteBytes(x.body(oi, i))
		if err := w.EndWrite(); err != nil {
			x.fail("operation %d: push failed: %v", oi, err)
		}
	}
}

// stream pushes a stream of n+1 frames through w
func (x *p01State) stream(w qrpc.FrameWriter, oi, n int, id uint64) {
	for i := 0; i <= n; i++ {
		fl := qrpc.PushFlag | qrpc.StreamFlag
		if i == n {
			fl |= qrpc.StreamEndFlag
		}
		w.StartWrite(id, qrpc.Cmd(600+oi), fl)
		w.WriteBytes(x.body(oi, i))
		if err := w.EndWrite(); err != nil {
			x.fail("operation %d: push failed: %v", oi, err)
		}
	}
}

func (x *p01State) sw(sw qrpc.StreamWriter, err error, oi, n int) {
	if err != nil {
		x.fail("operation %d: StreamRequest: %v", oi, err)
		return
	}
	for i := 1; i <= n; i++ {
		sw.StartWrite(qrpc.Cmd(600 + oi))
		sw.WriteBytes(x.body(oi, i))
		if err := sw.EndWrite(i == n); err != nil {
			x.fail("operation %d: push failed: %v", oi, err)
		}
	}
}

// answer is what the handlers of pInRequest and pInBack do
func (x *p01State) answer(w qrpc.FrameWriter, f *qrpc.RequestFrame, ci int, toServer bool) {
	oi := int(f.Cmd) - 600
	if oi < 0 || oi >= len(x.s.Ops) || len(f.Payload) != 0 {
		x.fail("a handler ran for %v", toWire((*qrpc.Frame)(f)))
		return
	}
	op := &x.s.Ops[oi]
	if want := pInRequest; op.Kind != want && (!toServer || op.Kind != pInBack) {
		x.fail("a handler ran for %v", toWire((*qrpc.Frame)(f)))
		return
	}
	id := func() uint64 { return f.RequestID }
	x.expect(p01Key{oi, ci, toServer, false}, op.N)
	x.plain(w, oi, op.N, id, 0)
	if !op.Stream {
		w.StartWrite(f.RequestID, f.Cmd, 0)
		w.EndWrite()
		return
	}
	w.StartWrite(f.RequestID, f.Cmd, qrpc.StreamFlag)
	w.WriteBytes([]byte("1"))
	w.EndWrite()
	x.expect(p01Key{oi, ci, toServer, true}, op.N+1)
	x.stream(w, oi, op.N, f.RequestID)
	w.StartWrite(f.RequestID, f.Cmd, qrpc.StreamFlag|qrpc.StreamEndFlag)
	w.WriteBytes([]byte("2"))
	w.EndWrite()
}

// result checks the answer to pInRequest and pInBack
func (x *p01State) result(oi int, id uint64, resp qrpc.Response, err error) {
	if err != nil {
		x.fail("operation %d: request: %v", oi, err)
		return
	}
	f, err := resp.GetFrame()
	if err != nil {
		x.fail("operation %d: GetFrame: %v", oi, err)
		return
	}
	want := []string{""}
	if x.s.Ops[oi].Stream {
		want = []string{"1", "2"}
	}
	got := []string{string(f.Payload)}
	bad := f.RequestID != id || f.Flags.IsPush()
	for nf := range f.FrameCh() {
		got = append(got, string(nf.Payload))
		bad = bad || nf.RequestID != id || nf.Flags.IsPush()
	}
	if bad || fmt.Sprint(got) != fmt.Sprint(want) {
		x.fail("operation %d: the request was answered with %q (%v), want %q", oi, got, toWire(f), want)
	}
	x.mu.Lock()
	x.want[p01Key{oi, -1, false, false}]++
	x.mu.Unlock()
}

func runP01(c *pbt.C, sc any) {
	s := sc.(*p01)
	if len(s.Conns) > 50 {
		s.Conns = s.Conns[:50]
	}
	for i := range s.Conns {
		cn := &s.Conns[i]
		cn.Binding &= 1
		cn.Open = clamp(cn.Open, 0, 1000)
		cn.Close = clamp(cn.Close, 0, 1000)
		if cn.Close > 0 && cn.Close <= cn.Open {
			cn.Close = cn.Open + 1
		}
		cn.Link.LatUS, cn.Link.StallU, cn.Link.Buf = 0, nil, 16<<20
	}
	w := newWorld(c)
	x := &p01State{c: c, s: s, got: map[p01Key]*p01Got{}, want: map[p01Key]int{}}
	base := c.Now()
	at := func(halfticks int) {
		if d := base + time.Duration(halfticks)*time.Millisecond - c.Now(); d > 0 {
			time.Sleep(d)
		}
	}
	var mu sync.Mutex
	byAddr := map[string]int{}
	infos := map[int]*qrpc.ConnectionInfo{}
	index := func(ci *qrpc.ConnectionInfo) int {
		mu.Lock()
		defer mu.Unlock()
		if i, ok := byAddr[ci.RemoteAddr()]; ok {
			return i
		}
		return -1
	}
	b := qrpc.ServerBinding{WriteFrameChSize: s.WCh,
		SubFunc: func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) { x.arrived(index(ci), true, f) },
		Handler: qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
			ci := f.ConnectionInfo()
			x.answer(wr, f, index(ci), false)
		})}
	b2 := b
	srv := w.serve(b, b2)
	// ids of request and GetPushID may meet; nobody may use both for streams
	ownIDs := false
	for _, op := range s.Ops {
		ownIDs = ownIDs || op.Kind == pInRequest && op.Stream
	}
	conns := make([]*qrpc.Connection, len(s.Conns))
	last := 0
	for i := range s.Conns {
		i := i
		cn := &s.Conns[i]
		last = max(last, cn.Open, cn.Close)
		c.Go(func() {
			at(2 * cn.Open)
			o := NetOpt{C2S: cn.Link.opts(), S2C: cn.Link.opts()}
			conf := qrpc.ConnectionConfig{WriteFrameChSize: clamp(cn.WCh, 0, 1000)}
			conf.Handler = qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) { x.answer(wr, f, i, true) })
			conf.OverlayNetwork = func(addr string, _ qrpc.DialConfig) (net.Conn, error) {
				a, _, err := w.dialFar(addr, o)
				if err != nil {
					return nil, err
				}
				mu.Lock()
				byAddr[a.LocalAddr().String()] = i
				mu.Unlock()
				return w.clientEnd(addr, a, nil, nil)
			}
			conn, err := w.connect(srv.addrs[cn.Binding], conf, func(_ *qrpc.Connection, f *qrpc.Frame) { x.arrived(i, false, f) })
			if err != nil {
				c.Failf("connect: %v", err)
				return
			}
			c.Cleanup(func() { c.Go(func() { conn.Close() }) })
			mu.Lock()
			conns[i] = conn
			mu.Unlock()
			time.Sleep(time.Millisecond / 2)
			srv.WalkConn(cn.Binding, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				if index(ci) == i {
					mu.Lock()
					infos[i] = ci
					mu.Unlock()
				}
				return true
			})
			mu.Lock()
			info := infos[i]
			mu.Unlock()
			if info == nil {
				c.Failf("connection %d is open but not walked", i)
				return
			}
			if cn.Bind {
				if kick, _ := info.SetID(fmt.Sprint("id", i)); kick {
					c.Failf("SetID of a fresh id kicked")
				}
			}
			if cn.Close > 0 {
				at(2 * cn.Close)
				if i%2 == 0 {
					conn.Close()
				} else {
					info.Close()
				}
			}
		})
	}
	for oi := range s.Ops {
		oi := oi
		op := &s.Ops[oi]
		op.Kind = clamp(op.Kind, 0, nPKinds-1)
		op.T = clamp(op.T, 0, 1000)
		op.N = clamp(op.N, 0, 100)
		last = max(last, op.T)
		if op.Conn < 0 || op.Conn >= len(s.Conns) {
			continue
		}
		cn := op.Conn
		if !s.openAt(cn, op.T) && op.Kind != pWalk && op.Kind != pWalkID {
			continue
		}
		c.Go(func() {
			at(2*op.T + 1)
			mu.Lock()
			info := infos[cn]
			conn := conns[cn]
			mu.Unlock()
			var fl qrpc.FrameFlag
			if op.NB {
				fl = qrpc.NBFlag
			}
			pid := func() uint64 {
				if op.PushID > 0 || ownIDs {
					return uint64(2000000 + op.PushID)
				}
				return srv.GetPushID()
			}
			switch op.Kind {
			case pClientPlain:
				x.expect(p01Key{oi, cn, true, false}, op.N)
				for i := 0; i < op.N; i++ {
					_, resp, err := conn.Request(qrpc.Cmd(600+oi), fl|qrpc.PushFlag, x.body(oi, i))
					if err != nil || resp != nil {
						x.fail("operation %d: push: %v %v", oi, resp, err)
					}
				}
			case pClientStream, pServerSReq:
				toServer := op.Kind == pClientStream
				x.expect(p01Key{oi, cn, toServer, true}, op.N+1)
				fl |= qrpc.PushFlag
				if op.N == 0 {
					fl |= qrpc.StreamEndFlag
				}
				if toServer {
					sw, _, err := conn.StreamRequest(qrpc.Cmd(600+oi), fl, x.body(oi, 0))
					x.sw(sw, err, oi, op.N)
				} else {
					sw, _, err := info.StreamRequest(qrpc.Cmd(600+oi), fl, x.body(oi, 0))
					x.sw(sw, err, oi, op.N)
				}
			case pServerPlain:
				x.expect(p01Key{oi, cn, false, false}, op.N)
				x.plain(info.GetWriter(), oi, op.N, pid, fl)
			case pServerStream:
				x.expect(p01Key{oi, cn, false, true}, op.N+1)
				x.stream(info.GetWriter(), oi, op.N, uint64(1000000+oi))
			case pServerReq:
				x.expect(p01Key{oi, cn, false, false}, op.N)
				for i := 0; i < op.N; i++ {
					_, resp, err := info.Request(qrpc.Cmd(600+oi), fl|qrpc.PushFlag, x.body(oi, i))
					if err != nil || resp != nil {
						x.fail("operation %d: push: %v %v", oi, resp, err)
					}
				}
			case pWalk:
				for j := range s.Conns {
					if s.Conns[j].Binding == s.Conns[cn].Binding && s.openAt(j, op.T) {
						x.expect(p01Key{oi, j, false, false}, 1)
					}
				}
				srv.WalkConn(s.Conns[cn].Binding, func(wr qrpc.FrameWriter, _ *qrpc.ConnectionInfo) bool {
					x.plain(wr, oi, 1, pid, 0)
					return true
				})
			case pWalkID:
				var ids []string
				for _, j := range op.IDs {
					ids = append(ids, fmt.Sprint("id", j))
					if j >= 0 && j < len(s.Conns) && s.Conns[j].Bind && s.Conns[j].Binding == s.Conns[cn].Binding && s.openAt(j, op.T) {
						x.expect(p01Key{oi, j, false, false}, 1)
					}
				}
				srv.WalkConnByID(s.Conns[cn].Binding, ids, func(wr qrpc.FrameWriter, ci *qrpc.ConnectionInfo, i int) {
					if i < 0 || i >= len(op.IDs) || index(ci) != op.IDs[i] {
						x.fail("operation %d: WalkConnByID visits connection %d as number %d of %v", oi, index(ci), i, op.IDs)
						return
					}
					x.plain(wr, oi, 1, pid, 0)
				})
			case pInRequest, pInBack:
				var (
					id   uint64
					resp qrpc.Response
					err  error
				)
				if op.Kind == pInRequest {
					id, resp, err = conn.Request(qrpc.Cmd(600+oi), fl, nil)
				} else {
					id, resp, err = info.Request(qrpc.Cmd(600+oi), fl, nil)
				}
				x.result(oi, id, resp, err)
			}
		})
	}
	at(2*last + 4)
	c.Quiesce()
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.errs) > 0 {
		c.Fatalf("%s", x.errs[0])
	}
	kinds, total := map[int]bool{}, 0
	for oi, op := range s.Ops {
		if (op.Kind == pInRequest || op.Kind == pInBack) && op.Conn >= 0 && op.Conn < len(s.Conns) && s.openAt(op.Conn, op.T) {
			if x.want[p01Key{oi, -1, false, false}] != 1 {
				c.Fatalf("operation %d: the request was never answered", oi)
			}
			delete(x.want, p01Key{oi, -1, false, false})
		}
	}
	name := func(k p01Key) string {
		return fmt.Sprintf("operation %d (kind %d) to connection %d (server: %v, stream: %v)", k.op, s.Ops[k.op].Kind, k.conn, k.toServer, k.stream)
	}
	for k := range x.got {
		if k.op >= len(s.Ops) {
			c.Fatalf("a push nobody made")
		}
		if x.want[k] == 0 {
			c.Fatalf("%s: delivered a push nobody made there", name(k))
		}
	}
	for k, n := range x.want {
		if n == 0 {
			continue
		}
		total += n
		kinds[s.Ops[k.op].Kind] = true
		g := x.got[k]
		if g == nil {
			c.Fatalf("%s: %d pushes, none delivered", name(k), n)
		}
		all := g.first
		if k.stream {
			if len(g.first) != 1 || !g.ended {
				c.Fatalf("%s: a streamed push reached the subscriber %d times, ended: %v", name(k), len(g.first), g.ended)
			}
			all = append(append([][]byte{}, g.first...), g.rest...)
		}
		if s.Ops[k.op].Kind == pWalkID || s.Ops[k.op].Kind == pWalk {
			if len(all) != n {
				c.Fatalf("%s: %d frames delivered, %d pushed", name(k), len(all), n)
			}
			for i := range all {
				if !bytes.Equal(all[i], x.body(k.op, 0)) {
					c.Fatalf("%s: wrong content", name(k))
				}
			}
			continue
		}
		for i := range all {
			if i >= n || !bytes.Equal(all[i], x.body(k.op, i)) {
				c.Fatalf("%s: delivered frame %d of %d is %s", name(k), i, n, short(all[i]))
			}
		}
		if len(all) != n {
			c.Fatalf("%s: %d frames delivered, %d pushed", name(k), len(all), n)
		}
	}
	if total > 1 && len(kinds) > 1 {
		c.NonTrivial()
	}
	for k := range kinds {
		c.Label("%s", []string{"client push", "client streamed push", "server push", "server streamed push", "server Request push", "walk", "walk by id", "push inside a request", "push inside a request to the client", "server StreamRequest push"}[k])
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P01",
		Title: "pushes",
		Rule:  "generated: up to five connections on two bindings which open and close at generated ticks, and plain and streamed pushes in both directions by every way the API offers, also with the id of the request whose handler pushes them, walks over all connections and by ids; oracle: every pushed frame reaches the one subscriber it was meant for, once, in order, and nothing else does; walks reach exactly the open connections; requests are answered by their answers. Non-trivial: at least two kinds of pushes were made",
		Gen:   genP01, New: func() any { return &p01{} }, Run: runP01,
		Quick:    pbt.Budget{Cases: 40000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 600000, MaxSec: 900},
	})
}
