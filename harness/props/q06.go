package props

import (
	"fmt"
	"sort"
	"sync"
	"time"

	"verif/pbt"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// Q06: throttling

type q06Op struct {
	T   int
	B   int // binding
	Set bool
	N   int // how many goroutines do it at once
	Mix int // 1: one of them does the opposite
}

type q06Req struct {
	T, Kind, Dur int // Kind: 0 blocking, 1 non-blocking, 2 streamed, 3 push
}

type q06Conn struct {
	B, Dial int
	Reqs    []q06Req
}

type q06 struct {
	Pre   []bool // throttled before serving
	Ops   []q06Op
	Conns []q06Conn
	RCh   int
	End   int // 0: cleared, 1: shut down while throttled, 2: connections closed while throttled
}

func genQ06(r *pbt.R) any {
	s := &q06{RCh: pbt.Pick(r, 0, 0, 3), End: r.W(6, 1, 1)}
	nb := r.Range(1, 2)
	for i := 0; i < nb; i++ {
		s.Pre = append(s.Pre, r.P(1, 6))
	}
	span := pbt.Pick(r, 5, 20, 60)
	mixed := r.P(1, 8)
	for i := r.N(1, 8); i > 0; i-- {
		o := q06Op{T: r.Intn(span), B: r.Intn(nb), Set: r.P(1, 2), N: pbt.Pick(r, 1, 1, 2, 3)}
		if mixed && r.P(1, 3) {
			o.Mix = 1
			o.N = 2
		}
		s.Ops = append(s.Ops, o)
	}
	for i := r.N(1, 4); i > 0; i-- {
		cn := q06Conn{B: r.Intn(nb), Dial: pbt.Pick(r, 0, 0, r.Intn(span))}
		for j := r.N(0, 8); j > 0; j-- {
			cn.Reqs = append(cn.Reqs, q06Req{T: r.Intn(span), Kind: r.W(3, 4, 2, 1), Dur: r.Intn(8)})
		}
		s.Conns = append(s.Conns, cn)
	}
	return s
}

func runQ06(c *pbt.C, sc any) {
	s := sc.(*q06)
	w := newWorld(c)
	const tick = time.Millisecond
	nb := clamp(len(s.Pre), 1, 3)
	if len(s.Conns) > 8 {
		s.Conns = s.Conns[:8]
	}
	if len(s.Ops) > 30 {
		s.Ops = s.Ops[:30]
	}
	conns := s.Conns
	for i := range conns {
		if len(conns[i].Reqs) > 12 {
			conns[i].Reqs = conns[i].Reqs[:12]
		}
		// as they are sent
		sort.SliceStable(conns[i].Reqs, func(a, b int) bool { return conns[i].Reqs[a].T < conns[i].Reqs[b].T })
	}
	var mu sync.Mutex
	starts := map[int]time.Duration{}
	running := 0
	note := func(cmd qrpc.Cmd) (q06Req, int) {
		mu.Lock()
		defer mu.Unlock()
		k := int(cmd)
		if k>>8 >= len(conns) || k&0xff >= len(conns[k>>8].Reqs) {
			c.Failf("handler for command %x", k)
			return q06Req{}, 0
		}
		if _, ok := starts[k]; ok {
			c.Failf("connection %d request %d was handled twice", k>>8, k&0xff)
		}
		starts[k] = c.Now()
		return conns[k>>8].Reqs[k&0xff], k & 0xff
	}
	dur := func(q q06Req, qi int) time.Duration {
		return time.Duration(2*clamp(q.Dur, 0, 1000)+1)*tick + 1<<qi*time.Microsecond/16
	}
	var bs []qrpc.ServerBinding
	for i := 0; i < nb; i++ {
		bs = append(bs, qrpc.ServerBinding{ReadFrameChSize: clamp(s.RCh, 0, 20), SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { note(f.Cmd) },
			Handler: qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
				q, qi := note(f.Cmd)
				mu.Lock()
				running++
				mu.Unlock()
				time.Sleep(dur(q, qi))
				wr.StartWrite(f.RequestID, f.Cmd, 0)
				wr.EndWrite()
				mu.Lock()
				running--
				mu.Unlock()
			})})
	}
	srv := w.newServer(bs...)
	type mop struct {
		at  time.Duration
		set bool
	}
	ops := make([][]mop, nb) // the model's history
	for i := 0; i < nb; i++ {
		if i < len(s.Pre) && s.Pre[i] {
			srv.SetThrottle(i)
			ops[i] = append(ops[i], mop{-1, true})
		}
	}
	srv.start()
	base := c.Now()
	at := func(n int) time.Duration { return base + time.Duration(n)*tick }
	loose := make([]bool, nb)
	// the operations, one instant each per binding
	order := append([]q06Op(nil), s.Ops...)
	sort.SliceStable(order, func(a, b int) bool { return order[a].T < order[b].T })
	last := 0
	used := map[[2]int]bool{}
	for _, o := range order {
		o := o
		b := clamp(o.B, 0, nb-1)
		t := 2*clamp(o.T, 0, 10000) + 1
		if used[[2]int{b, t}] {
			continue
		}
		used[[2]int{b, t}] = true
		last = max(last, t)
		if o.Mix == 0 {
			ops[b] = append(ops[b], mop{at(t), o.Set})
		} else {
			loose[b] = true
		}
		n := clamp(o.N, 1, 5)
		for k := 0; k < n; k++ {
			set := o.Set
			if o.Mix != 0 && k == 0 {
				set = !set
			}
			c.Go(func() {
				time.Sleep(at(t) - c.Now())
				if set {
					srv.SetThrottle(b)
				} else {
					srv.ClearThrottle(b)
				}
			})
		}
	}
	// dials in order
	idx := make([]int, len(conns))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return conns[idx[a]].Dial < conns[idx[b]].Dial })
	peers := make([]*Peer, len(conns))
	dialed := make([]chan struct{}, len(conns))
	for i := range conns {
		dialed[i] = make(chan struct{})
		last = max(last, 2*clamp(conns[i].Dial, 0, 10000))
		for _, q := range conns[i].Reqs {
			last = max(last, 2*clamp(q.T, 0, 10000))
		}
	}
	c.Go(func() {
		for _, i := range idx {
			time.Sleep(at(2*clamp(conns[i].Dial, 0, 10000)) - c.Now())
			peers[i] = w.rawClient(srv.addrs[clamp(conns[i].B, 0, nb-1)], NetOpt{})
			close(dialed[i])
		}
	})
	for i := range conns {
		i := i
		c.Go(func() {
			<-dialed[i]
			for qi, q := range conns[i].Reqs {
				time.Sleep(at(2*clamp(q.T, 0, 10000)) - c.Now())
				f := wire.Frame{ID: uint64(2*qi + 1), Cmd: uint32(i<<8 | qi)}
				switch q.Kind {
				case 1:
					f.Flags = wire.NB
				case 2:
					f.Flags = wire.NB | wire.Stream | wire.StreamEnd
				case 3:
					f.Flags = wire.Push
				}
				peers[i].Send(f)
			}
		})
	}
	work := time.Second
	for i := range conns {
		for qi, q := range conns[i].Reqs {
			work += dur(q, qi)
		}
	}
	c.Sleep(at(last) - c.Now() + work)
	c.Quiesce()
	finish := c.Now()
	on := func(b int, t time.Duration) bool {
		v := false
		for _, o := range ops[b] {
			if o.at <= t {
				v = o.set
			}
		}
		return v
	}
	const never = time.Duration(1 << 62)
	nextClear := func(b int, t time.Duration) time.Duration {
		for _, o := range ops[b] {
			if o.at > t && !o.set {
				return o.at
			}
		}
		return never
	}
	// what must have been handled by the time limit
	check := func(limit time.Duration) {
		waited, crossed := false, false
		accept := make([]time.Duration, len(conns))
		ready := make([]time.Duration, nb)
		for b := range ready {
			ready[b] = base
			if on(b, 0) {
				ready[b] = nextClear(b, 0)
			}
		}
		for _, i := range idx {
			b := clamp(conns[i].B, 0, nb-1)
			t := max(at(2*clamp(conns[i].Dial, 0, 10000)), ready[b])
			accept[i] = t
			if t == never {
				continue
			}
			ready[b] = t
			if on(b, t) {
				ready[b] = nextClear(b, t)
			}
		}
		mu.Lock()
		defer mu.Unlock()
		for i := range conns {
			b := clamp(conns[i].B, 0, nb-1)
			if loose[b] {
				continue
			}
			rd := accept[i]
			if rd > at(2*clamp(conns[i].Dial, 0, 10000)) {
				waited = true
			}
			for qi, q := range conns[i].Reqs {
				t := max(at(2*clamp(q.T, 0, 10000)), rd)
				g, ok := starts[i<<8|qi]
				if ok != (t <= limit) || ok && g != t {
					c.Fatalf("connection %d (binding %d) request %d (%+v): handled %v at %v, expected %v at %v; throttle history %s", i, b, qi, q, ok, g-base, t <= limit, t-base, fmt.Sprint(ops[b]))
				}
				if t == never {
					rd = never
					continue
				}
				rd = t
				if q.Kind == 3 {
					continue
				}
				if q.Kind == 0 {
					rd = t + dur(q, qi)
				}
				if on(b, rd) {
					rd = nextClear(b, rd)
					waited = true
				}
				if waited && rd < never {
					crossed = true
				}
			}
		}
		if waited {
			c.Label("delayed")
			c.NonTrivial()
		}
		if crossed {
			c.Label("resumed")
		}
	}
	check(finish)
	switch s.End {
	case 1:
		c.Sleep(time.Second)
		done := c.Go(func() { srv.Shutdown() })
		if !c.WaitDone(done, time.Minute) {
			c.Fatalf("Shutdown hangs while throttled")
		}
		if !c.WaitDone(srv.done, time.Minute) {
			c.Fatalf("serving does not end while throttled")
		}
		c.Sleep(time.Second)
		for i, p := range peers {
			if len(conns[i].Reqs) > 0 && !p.Ended() {
				c.Fatalf("connection %d is not ended by Shutdown while throttled", i)
			}
		}
		c.Label("shutdown")
	case 2:
		for b := 0; b < nb; b++ {
			var cis []*qrpc.ConnectionInfo
			srv.WalkConn(b, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { cis = append(cis, ci); return true })
			for _, ci := range cis {
				ci := ci
				notified := make(chan struct{})
				ci.NotifyWhenClose(func() { close(notified) })
				if !c.WaitDone(c.Go(func() { ci.Close() }), time.Minute) || !c.WaitDone(notified, time.Minute) {
					c.Fatalf("closing a throttled connection hangs")
				}
				for i, p := range peers {
					if p.conn.LocalAddr().String() == ci.RemoteAddr() && !p.WaitEnd(time.Minute) {
						c.Fatalf("connection %d is not ended", i)
					}
				}
			}
		}
		c.Label("closed")
	default:
		for b := 0; b < nb; b++ {
			srv.ClearThrottle(b)
			ops[b] = append(ops[b], mop{c.Now(), false})
			if loose[b] {
				continue
			}
		}
		c.Sleep(work + time.Second)
		c.Quiesce()
		check(c.Now())
		// every request was handled and answered
		mu.Lock()
		for i := range conns {
			for qi := range conns[i].Reqs {
				if _, ok := starts[i<<8|qi]; !ok {
					mu.Unlock()
					c.Fatalf("connection %d request %d was not handled after the throttle was cleared", i, qi)
				}
			}
		}
		mu.Unlock()
		for i, p := range peers {
			n := 0
			for _, q := range conns[i].Reqs {
				if q.Kind != 3 {
					n++
				}
			}
			if g := len(p.Frames()); g != n || p.Ended() {
				c.Fatalf("connection %d: %d answers, expected %d, ended: %v", i, g, n, p.Ended())
			}
		}
	}
	for b := range loose {
		if loose[b] {
			c.Label("set and clear at once")
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "Q06",
		Title: "throttling",
		Rule:  "generated: histories of set and clear on one or two bindings, repeated, before serving and by several goroutines at once, connections dialled and requests of all kinds sent meanwhile, ended by clearing, shutting down or closing; oracle: a model of the accept loop and of each reader, exact start times, everything handled once in the end. Non-trivial: something was delayed",
		Gen:   genQ06, New: func() any { return &q06{} }, Run: runQ06,
		Quick:    pbt.Budget{Cases: 80000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 2000000, MaxSec: 900},
	})
}
