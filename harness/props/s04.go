package props

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"verif/pbt"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// ---- S04: streams nobody reads

const (
	unServer        = iota // server handler which reads too little
	unClient               // client handler which reads too little
	unServerPush           // push to a server without subscriber
	unClientPush           // push to a client without subscriber
	unClientUnknown        // answer to a request a client never sent
	unServerUnknown        // answer to a request a server never sent
	unClientReset          // client gives up its own request
	unServerReset          // server gives up its own request
	nUnread
)

type s04Stream struct {
	Role   int
	Start  int // ticks
	N      int // frames after the first
	Gap    int // ticks between them
	Size   int
	Read   int // frames the handler reads
	Dur    int // ticks the handler stays
	Out    int // 0: ignore, 1: answer, 2: stream, 3: panic
	End    bool
	Beyond int // frames sent after the end
	Rst    bool
	Leave  bool // whoever gave up its own request does not read the answer: a known finding
}

type s04 struct {
	Streams []s04Stream
	Probes  []int // ticks
}

func genS04(r *pbt.R) any {
	s := &s04{}
	span := pbt.Pick(r, 3, 10, 40)
	for i := r.N(1, 6); i > 0; i-- {
		st := s04Stream{Role: r.Intn(nUnread), Start: r.Intn(span), N: r.Len(12), Gap: r.Intn(3), Size: pbt.Pick(r, 0, 10, 1000), Out: r.Intn(4), End: r.P(2, 3), Rst: r.P(1, 6)}
		if r.P(1, 2) {
			st.Read = r.Intn(st.N + 1)
		}
		if r.P(1, 2) {
			st.Dur = r.Intn(span)
		}
		if st.End && r.P(1, 3) {
			st.Beyond = r.Len(4)
		}
		s.Streams = append(s.Streams, st)
	}
	for i := r.N(1, 5); i > 0; i-- {
		s.Probes = append(s.Probes, r.Intn(2*span))
	}
	return s
}

func (st *s04Stream) norm() {
	st.Role = clamp(st.Role, 0, nUnread-1)
	st.Start = clamp(st.Start, 0, 1000)
	st.N = clamp(st.N, 0, 200)
	st.Gap = clamp(st.Gap, 0, 100)
	st.Size = clamp(st.Size, 0, 5000)
	st.Read = clamp(st.Read, 0, st.N)
	st.Dur = clamp(st.Dur, 0, 1000)
	st.Beyond = clamp(st.Beyond, 0, 100)
	if !st.End {
		st.Beyond = 0
	}
}

// busyUntil is when the handler must have returned, in ticks
func (st *s04Stream) busyUntil() int {
	switch st.Role {
	case unServer, unClient:
		return st.Start + max(st.Dur, st.Read*st.Gap)
	}
	return 0
}

func runS04(c *pbt.C, sc any) {
	s := sc.(*s04)
	if len(s.Streams) > 100 {
		s.Streams = s.Streams[:100]
	}
	for i := range s.Streams {
		s.Streams[i].norm()
	}
	w := newWorld(c)
	big := NetOpt{}
	big.C2S.Buf, big.S2C.Buf = 8<<20, 8<<20
	var mu sync.Mutex
	type hrec struct {
		ret time.Duration
		ctx time.Duration
	}
	recs := map[int]*hrec{}
	base := c.Now()
	tick := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	until := func(n int) {
		if d := base + tick(n) - c.Now(); d > 0 {
			time.Sleep(d)
		}
	}
	handler := qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if f.Cmd >= 1000 { // a probe
			if f.Cmd == 1000 {
				wr.StartWrite(f.RequestID, 1001, 0)
				wr.EndWrite()
			}
			return
		}
		si := int(f.Cmd)
		if si >= len(s.Streams) {
			return
		}
		st := s.Streams[si]
		rec := &hrec{ret: -1, ctx: -1}
		mu.Lock()
		_, again := recs[si]
		if !again {
			recs[si] = rec
		}
		mu.Unlock()
		if again { // a frame beyond the end of a finished stream is a new request
			return
		}
		ctx := f.Context()
		context.AfterFunc(ctx, func() { mu.Lock(); rec.ctx = c.Now(); mu.Unlock() })
		for i := 0; i < st.Read; i++ {
			if _, ok := <-f.FrameCh(); !ok {
				break
			}
		}
		until(st.Start + st.Dur)
		switch st.Out {
		case 1:
			wr.StartWrite(f.RequestID, 1002, 0)
			wr.EndWrite()
		case 2:
			wr.StartWrite(f.RequestID, 1002, qrpc.StreamFlag)
			wr.EndWrite()
			wr.StartWrite(f.RequestID, 1002, qrpc.StreamFlag|qrpc.StreamEndFlag)
			wr.EndWrite()
		}
		mu.Lock()
		rec.ret = c.Now()
		mu.Unlock()
		if st.Out == 3 {
			panic("planned")
		}
	})
	srv := w.serve(qrpc.ServerBinding{Handler: handler})
	cl := w.rawClient(srv.addrs[0], big)
	accA := w.rawServer("rawA")
	connA, _, _ := w.dial("rawA", qrpc.ConnectionConfig{Handler: handler}, nil, big)
	farA := w.accept(accA)
	accB := w.rawServer("rawB")
	connB, _, _ := w.dial("rawB", qrpc.ConnectionConfig{}, nil, big)
	farB := w.accept(accB)
	c.Quiesce()
	var ci *qrpc.ConnectionInfo
	srv.WalkConn(0, func(_ qrpc.FrameWriter, i *qrpc.ConnectionInfo) bool { ci = i; return true })
	if ci == nil {
		c.Fatalf("connection unknown to the server")
	}
	base = c.Now()
	// the raw ends answer probes
	answer := func(p *Peer) {
		seen := 0
		go func() {
			for p.WaitFor(24*time.Hour, func(e []Ev) bool { return len(e) > seen }) {
				for _, e := range p.Frames()[seen:] {
					seen++
					if e.Cmd == 1000 && e.Flags&wire.Rst == 0 {
						p.Send(wire.Frame{ID: e.ID, Cmd: 1001})
					}
				}
			}
		}()
	}
	answer(cl)
	answer(farA)
	answer(farB)
	end := 0
	busy := map[*Peer]int{}
	drained := make([]atomic.Int64, len(s.Streams))
	for si := range s.Streams {
		si := si
		st := s.Streams[si]
		var p *Peer
		var id uint64
		var extra byte
		first := uint32(si)
		switch st.Role {
		case unServer:
			p, id = cl, uint64(2*si+100001)
		case unClient:
			p, id = farA, uint64(2*si+100000)
		case unServerPush:
			p, id, extra = cl, uint64(2*si+100001), wire.Push
		case unClientPush:
			p, id, extra = farB, uint64(2*si+100000), wire.Push
			if st.Out%2 == 0 {
				p = farA
			}
		case unClientUnknown:
			p, id, first = farB, uint64(2*si+100001), 1100
		case unServerUnknown:
			p, id, first = cl, uint64(2*si+100000), 1100
		case unClientReset:
			p, first = farB, 1100
		case unServerReset:
			p, first = cl, 1100
		}
		busy[p] = max(busy[p], st.busyUntil())
		end = max(end, st.busyUntil(), st.Start+(st.N+st.Beyond+2)*(st.Gap+1))
		c.Go(func() {
			until(st.Start)
			if st.Role == unClientReset || st.Role == unServerReset {
				var (
					sw   qrpc.StreamWriter
					resp qrpc.Response
					err  error
				)
				if st.Role == unClientReset {
					sw, resp, err = connB.StreamRequest(1200, 0, nil)
				} else {
					sw, resp, err = ci.StreamRequest(1200, 0, nil)
				}
				if err != nil {
					c.Failf("StreamRequest: %v", err)
					return
				}
				id = sw.RequestID()
				c.Go(func() {
					var fr *qrpc.Frame
					get := func() {
						f, err := resp.GetFrame()
						if err != nil {
							c.Failf("GetFrame: %v", err)
						}
						fr = f
					}
					if st.Out%2 == 0 {
						get()
					}
					if err := sw.ResetFrame(0); err != nil {
						c.Failf("ResetFrame: %v", err)
					}
					if st.Leave {
						return
					}
					if fr == nil {
						get()
					}
					if fr == nil {
						return
					}
					for range fr.FrameCh() {
						drained[si].Add(1)
					}
				})
			}
			flags := extra | wire.Stream
			if first < 1000 && extra == 0 {
				flags |= wire.NB
			}
			body := pbt.Bytes(st.Size, uint64(si))
			p.Send(wire.Frame{ID: id, Flags: flags, Cmd: first, Payload: body})
			for i := 0; i < st.N+st.Beyond; i++ {
				if st.Gap > 0 {
					time.Sleep(tick(st.Gap))
				}
				fl := extra | wire.Stream
				if i == st.N-1 && st.End {
					fl |= wire.StreamEnd
				}
				p.Send(wire.Frame{ID: id, Flags: fl, Cmd: first, Payload: body})
			}
			if st.Rst {
				p.Send(wire.Frame{ID: id, Flags: extra | wire.Rst})
			}
		})
	}
	type probe struct {
		name string
		busy int
		at   int
		f    func() error
	}
	call := func(req func(qrpc.Cmd, qrpc.FrameFlag, []byte) (uint64, qrpc.Response, error)) func() error {
		return func() error {
			_, resp, err := req(1000, 0, nil)
			if err != nil {
				return err
			}
			f, err := resp.GetFrame()
			if err == nil && f.Cmd != 1001 {
				return fmt.Errorf("wrong answer %v", f.Cmd)
			}
			return err
		}
	}
	pid := uint64(1)
	raw := func(p *Peer, parity uint64, flags byte) func() error {
		pid += 2
		id := pid + parity
		return func() error {
			if err := p.Send(wire.Frame{ID: id, Flags: flags, Cmd: 1000}); err != nil {
				return err
			}
			if !p.WaitFor(pbt.Long, func(evs []Ev) bool {
				for _, e := range evs {
					if e.ID == id && e.Cmd == 1001 {
						return true
					}
				}
				return false
			}) {
				return errHung
			}
			return nil
		}
	}
	add := func(at int) []probe {
		return []probe{
			{"a request to the server", busy[cl], at, raw(cl, 1<<40, wire.NB)},
			{"a blocking request to the server", busy[cl], at, raw(cl, 2<<40, 0)},
			{"a request from the server", busy[cl], at, call(ci.Request)},
			{"a request to the client", busy[farA], at, raw(farA, 1<<40+1, wire.NB)},
			{"a request from the client", busy[farA], at, call(connA.Request)},
			{"a request from the client without handler", busy[farB], at, call(connB.Request)},
		}
	}
	var probes []probe
	for _, t := range s.Probes {
		probes = append(probes, add(clamp(t, 0, 5000))...)
		end = max(end, clamp(t, 0, 5000))
	}
	probes = append(probes, add(end+3)...)
	var waits []<-chan struct{}
	for _, p := range probes {
		p := p
		waits = append(waits, c.Go(func() {
			until(p.at)
			// in the middle of a tick
			time.Sleep(tick(1) / 2)
			if err := p.f(); err != nil {
				c.Failf("%s at tick %d was not answered: %v", p.name, p.at, err)
				return
			}
			want := base + tick(max(p.at, p.busy)) + tick(1)/2
			if now := c.Now(); now > want {
				c.Failf("%s at tick %d was answered at %v; the handlers were done by %v", p.name, p.at, now-base, tick(p.busy))
			}
		}))
	}
	for _, d := range waits {
		if !c.WaitDone(d, 3*pbt.Long) {
			c.Fatalf("a request was never answered")
		}
	}
	if cl.Ended() || farA.Ended() || farB.Ended() || connA.IsClosed() || connB.IsClosed() {
		c.Fatalf("a connection was closed")
	}
	c.Quiesce()
	mu.Lock()
	defer mu.Unlock()
	for si, st := range s.Streams {
		if (st.Role == unClientReset || st.Role == unServerReset) && !st.Leave {
			if n := int(drained[si].Load()); n != st.N && (st.N > 0 || n != st.Beyond) {
				c.Fatalf("stream %d: %d of %d further frames were received by the side which reset it", si, n, st.N)
			}
		}
		if st.Role != unServer && st.Role != unClient {
			continue
		}
		rec := recs[si]
		if rec == nil {
			c.Fatalf("stream %d: handler did not run", si)
		}
		limit := busy[cl]
		if st.Role == unClient {
			limit = busy[farA]
		}
		if rec.ret < 0 || rec.ret > base+tick(limit) {
			c.Fatalf("stream %d: handler returned at %v, planned %v", si, rec.ret-base, tick(limit))
		}
		if rec.ctx < 0 || rec.ctx > rec.ret {
			c.Fatalf("stream %d: context cancelled at %v, handler returned at %v", si, rec.ctx-base, rec.ret-base)
		}
	}
	for _, st := range s.Streams {
		unread := st.N + st.Beyond
		if st.Role == unServer || st.Role == unClient {
			unread -= st.Read
		}
		if (st.Role == unClientReset || st.Role == unServerReset) && !st.Leave {
			unread = st.Beyond
		}
		if unread > 0 {
			c.NonTrivial()
			c.Label("%s", []string{"server handler", "client handler", "push to server", "push to client", "unknown answer to client", "unknown answer to server", "client gave up", "server gave up"}[st.Role])
			if st.Beyond > 0 {
				c.Label("frames beyond the end")
			}
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "S04",
		Title: "unread streams",
		Rule:  "generated: streams of up to a dozen frames nobody reads (handlers that return or panic early, pushes without subscriber, answers without request, own requests that were given up, frames beyond the end), in both roles, with probe requests in both directions at generated ticks; oracle: every probe is answered in the very tick it was sent, or when the last handler that was still reading its stream has returned. Non-trivial: at least one frame is never read",
		Gen:   genS04, New: func() any { return &s04{} }, Run: runS04,
		Quick:    pbt.Budget{Cases: 30000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 900},
	})
}
