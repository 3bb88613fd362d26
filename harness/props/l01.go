package props

import (
	"fmt"
	"time"

	"verif/pbt"

	"github.com/zhiqiangxu/qrpc"
)

// ---- L01: losing connections

const (
	flCutUp = iota
	flCutDown
	flBreak
	flSoft
	flClientClose
	flServerClose
	flClientHalf
	flServerHalf
	flHandlerClose // the At-th handler run of the connection closes it
	nFaults
)

var faultNames = []string{"cut client->server", "cut server->client", "reset", "clean network loss", "client Close", "server Close", "client half-close", "server half-close", "Close inside a handler"}

type fault struct {
	Conn int
	Kind int
	At   int // bytes, µs or runs
}

type l01 struct {
	S      *Session
	Faults []fault
}

func genL01(r *pbt.R) any {
	o := sesOpt{conns: 3, maxCalls: 8, back: true, modes: []int{5, 5, 1, 1, 1, 1}, streams: 50, nb: 60, reads: []int{3, 2, 1}, maxPay: 6000, maxChunks: pbt.Pick(r, 3, 10), lanes: 4, slow: true}
	if r.P(1, 2) {
		o.delay = func(r *pbt.R) int { return r.Intn(20000) }
	}
	s := &l01{S: genSession(r, o)}
	for i := range s.S.Conns {
		if i > 0 && r.P(1, 2) {
			continue
		}
		f := fault{Conn: i, Kind: r.Intn(nFaults)}
		switch f.Kind {
		case flCutUp, flCutDown:
			f.At = 1 + pbt.Pick(r, r.Intn(64), r.Intn(600), r.Intn(8000), r.Intn(40000))
		case flHandlerClose:
			f.At = r.Intn(6)
		default:
			f.At = pbt.Pick(r, 0, r.Intn(100), r.Intn(5000), r.Intn(30000), r.Intn(300000))
		}
		s.Faults = append(s.Faults, f)
	}
	return s
}

func runL01(c *pbt.C, sc any) {
	s := sc.(*l01)
	if s.S == nil || len(s.S.Conns) == 0 {
		return
	}
	w := newWorld(c)
	by := map[int]fault{}
	for _, f := range s.Faults {
		f.Kind = clamp(f.Kind, 0, nFaults-1)
		f.At = clamp(f.At, 0, 100000000)
		if f.Kind == flCutUp || f.Kind == flCutDown {
			f.At += w.setup()
		}
		by[f.Conn] = f
	}
	runs := map[int]int{}
	x := startSession(c, w, s.S, func(x *session) {
		x.net = func(i int, o *NetOpt) {
			switch f, ok := by[i]; {
			case ok && f.Kind == flCutUp:
				o.C2S.CutAt = int64(max(f.At, 1))
			case ok && f.Kind == flCutDown:
				o.S2C.CutAt = int64(max(f.At, 1))
			}
		}
		x.hook = func(k key, _ qrpc.FrameWriter, f *qrpc.RequestFrame) {
			fl, ok := by[k.conn]
			if !ok || fl.Kind != flHandlerClose {
				return
			}
			x.mu.Lock()
			n := runs[k.conn]
			runs[k.conn]++
			x.mu.Unlock()
			if n == fl.At {
				f.Close()
			}
		}
	})
	for i, f := range by {
		if i < 0 || i >= len(x.conns) {
			continue
		}
		f, cn := f, x.conns[i]
		c.Go(func() {
			time.Sleep(us(f.At))
			switch f.Kind {
			case flBreak:
				cn.cc.Break()
			case flSoft:
				cn.cc.BreakSoft()
			case flClientClose:
				cn.conn.Close()
			case flServerClose:
				cn.ci.Close()
			case flClientHalf:
				cn.cc.CloseWrite()
			case flServerHalf:
				cn.sc.CloseWrite()
			}
		})
	}
	x.run()
	for _, f := range by {
		if f.Kind != flCutUp && f.Kind != flCutDown && f.Kind != flHandlerClose {
			c.Sleep(us(f.At))
		}
	}
	c.Sleep(time.Minute)
	lost := map[int]bool{}
	for i, cn := range x.conns {
		_, planned := by[i]
		dead := cn.conn.IsClosed()
		if dead && !planned {
			c.Fatalf("connection %d was lost although nothing happened to it", i)
		}
		if planned && !dead {
			switch by[i].Kind {
			case flCutUp, flCutDown, flHandlerClose: // it may never have come to it
				if cn.cc.PeerClosed() || cn.sc.PeerClosed() {
					c.Fatalf("connection %d was lost (%s), the client did not notice", i, faultNames[by[i].Kind])
				}
			default:
				c.Fatalf("connection %d was lost (%s), the client did not notice", i, faultNames[by[i].Kind])
			}
		}
		if dead {
			lost[i] = true
		}
	}
	x.checkBut(lost)
	x.checkWireBut(lost)
	open := map[string]bool{}
	x.srv.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { open[ci.RemoteAddr()] = true; return true })
	for i, cn := range x.conns {
		if open[cn.addr] == lost[i] {
			c.Fatalf("connection %d: lost %v, known to the server: %v", i, lost[i], open[cn.addr])
		}
		if !lost[i] {
			continue
		}
		cn := cn
		name := fmt.Sprintf("connection %d, lost by %s", i, faultNames[by[i].Kind])
		for _, f := range []struct {
			what string
			req  func() error
		}{
			{"Request by the client", func() error { _, _, err := cn.conn.Request(1, qrpc.NBFlag, []byte("x")); return err }},
			{"StreamRequest by the client", func() error { _, _, err := cn.conn.StreamRequest(1, 0, []byte("x")); return err }},
			{"Request by the server", func() error { _, _, err := cn.ci.Request(1, 0, []byte("x")); return err }},
			{"StreamRequest by the server", func() error { _, _, err := cn.ci.StreamRequest(1, 0, []byte("x")); return err }},
			{"a push by the server", func() error {
				wr := cn.ci.GetWriter()
				wr.StartWrite(1, 1, qrpc.PushFlag)
				return wr.EndWrite()
			}},
		} {
			var err error
			if !c.Do(pbt.Long, func() { err = f.req() }) {
				c.Fatalf("%s: %s afterwards hangs", name, f.what)
			}
			if err == nil {
				c.Fatalf("%s: %s afterwards succeeds", name, f.what)
			}
		}
		if !c.Do(pbt.Long, cn.conn.Wait) {
			c.Fatalf("%s: Wait does not return", name)
		}
		if !cn.cc.Closed() || !cn.sc.Closed() {
			c.Fatalf("%s: network connection left open (client side closed: %v, server side closed: %v)", name, cn.cc.Closed(), cn.sc.Closed())
		}
		c.Label("%s", faultNames[by[i].Kind])
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	hit := false
	for _, k := range x.keys() {
		if !lost[k.conn] {
			continue
		}
		name := fmt.Sprintf("%v, connection lost by %s", k, faultNames[by[k.conn].Kind])
		g := x.gotten[k]
		if g == nil || !g.finished {
			c.Fatalf("%s: not finished", name)
		}
		hs := x.handled[k]
		if len(hs) > 1 {
			c.Fatalf("%s: handled %d times", name, len(hs))
		}
		id := g.id
		if len(hs) == 1 {
			h := hs[0]
			want := x.wantReq(k, id)
			if h.conn != x.conns[k.conn].addr || string(h.payload) != string(want[0].Payload) {
				c.Fatalf("%s: handler saw another request", name)
			}
			if g.err == nil {
				if err := samePrefix(h.chunks, want[1:]); err != nil {
					c.Fatalf("%s: handler's stream: %v", name, err)
				}
			}
			if h.eseq < 0 {
				c.Fatalf("%s: handler never returned", name)
			}
			if h.ctxEnd < 0 {
				c.Fatalf("%s: handler's context was never cancelled", name)
			}
			if g.err == nil && !g.closed {
				hit = true
			}
		}
		if g.err != nil {
			continue
		}
		wantR := x.wantResp(k, id)
		if g.rerr != nil {
			if g.rerr != qrpc.ErrStreamClosed {
				c.Fatalf("%s: GetFrame returned %v", name, g.rerr)
			}
			continue
		}
		if len(hs) == 0 || len(g.frames) == 0 || wantR == nil {
			c.Fatalf("%s: answered without being handled", name)
		}
		if err := samePrefix(g.frames, wantR); err != nil {
			c.Fatalf("%s: response: %v", name, err)
		}
		if len(g.frames) < len(wantR) {
			hit = true
		}
	}
	if hit {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "L01",
		Title: "lost connections",
		Rule:  "generated: sessions as for S01 in which connections are cut at a byte of either direction, reset, lost cleanly, half-closed, or closed by the client, the server or a handler at a generated time; oracle: on lost connections every pending call, read, write and handler ends, what was received is a correct prefix, contexts are cancelled, both ends are closed and later calls fail; the other connections keep to their program. Non-trivial: a request was being handled or answered at the loss",
		Gen:   genL01, New: func() any { return &l01{} }, Run: runL01,
		Quick:    pbt.Budget{Cases: 24000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 400000, MaxSec: 900},
	})
}
