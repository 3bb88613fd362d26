package props

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/pbt"
	"verif/wire"

	"github.com/go-kit/kit/metrics"
	"github.com/zhiqiangxu/qrpc"
)

// ---- M01: routing and middleware

type m01Reg struct {
	Cmd  int
	Nil  int // 1: nil handler, 2: nil function
	MW   int // number of middleware functions
	Late bool
	Func bool // HandleFunc
}

type m01Req struct {
	Cmd   int
	Stop  int // the middleware which declines (or none)
	How   int // 0 silently, 1 after answering, 2 panics
	NB    bool
	P     Pay
	Burst bool // sent together with the one before
}

type m01 struct {
	Client bool
	Regs   []m01Reg
	Reqs   []m01Req
}

func genM01(r *pbt.R) any {
	s := &m01{Client: r.P(1, 4)}
	routes := []int{0, 1, 0xff, 0x100, 0xffff, 0x8000, r.Intn(1 << 16), r.Intn(1 << 16)}
	ops := []int{0, 0, 0, 1, 0xff, r.Intn(256)}
	cmd := func() int { return pbt.Pick(r, routes...) | pbt.Pick(r, ops...)<<16 }
	for i := r.N(0, 8); i > 0; i-- {
		g := m01Reg{Cmd: cmd(), MW: r.N(0, 4), Late: r.P(1, 5), Func: r.P(1, 2)}
		if r.P(1, 10) {
			g.Nil = 1 + r.Intn(2)
		}
		if r.P(1, 10) {
			g.Cmd += pbt.Pick(r, 1<<24, 1<<24*3, 1<<31)
		}
		s.Regs = append(s.Regs, g)
	}
	for i := r.N(1, 12); i > 0; i-- {
		q := m01Req{Cmd: cmd(), Stop: r.Intn(8), How: r.Intn(3), NB: r.P(1, 2), P: genPay(r, 50), Burst: r.P(1, 3)}
		if len(s.Regs) > 0 && r.P(5, 6) {
			q.Cmd = pbt.Pick(r, s.Regs...).Cmd&0xffff | pbt.Pick(r, ops...)<<16
		}
		s.Reqs = append(s.Reqs, q)
	}
	return s
}

func runM01(c *pbt.C, sc any) {
	s := sc.(*m01)
	w := newWorld(c)
	if len(s.Regs) > 20 {
		s.Regs = s.Regs[:20]
	}
	if len(s.Reqs) > 50 {
		s.Reqs = s.Reqs[:50]
	}
	mux := qrpc.NewServeMux()
	var mu sync.Mutex
	trace := map[int]string{}
	note := func(f *qrpc.RequestFrame, format string, args ...any) (q m01Req, i int) {
		mu.Lock()
		defer mu.Unlock()
		i = int(f.RequestID)/2 - 1
		if i < 0 || i >= len(s.Reqs) {
			c.Failf("a handler or middleware runs for request id %d", f.RequestID)
			return
		}
		q = s.Reqs[i]
		if int(f.Cmd) != q.Cmd&0xffffff || !bytes.Equal(f.Payload, q.P.Bytes()) {
			c.Failf("request %d: a handler sees %v", i, toWire((*qrpc.Frame)(f)))
		}
		trace[i] += fmt.Sprintf(format, args...)
		return
	}
	owner := map[int]int{} // route to registration
	register := func(ri int) {
		g := s.Regs[ri]
		cmd := qrpc.Cmd(uint32(g.Cmd))
		route := g.Cmd & 0xffff
		_, dup := owner[route]
		bad := dup || g.Nil > 0 || uint32(cmd) > 0xffffff
		var mws []qrpc.MiddlewareFunc
		for k := 0; k < clamp(g.MW, 0, 6); k++ {
			k := k
			mws = append(mws, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) bool {
				q, _ := note(f, "%d.m%d ", ri, k)
				if q.Stop != k {
					return true
				}
				switch q.How {
				case 1:
					wr.StartWrite(f.RequestID, 77, 0)
					wr.EndWrite()
				case 2:
					panic("planned")
				}
				return false
			})
		}
		h := func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
			note(f, "%d.h ", ri)
			wr.StartWrite(f.RequestID, qrpc.Cmd(ri), 0)
			wr.EndWrite()
		}
		panicked := func() (p bool) {
			defer func() { p = recover() != nil }()
			switch {
			case g.Nil == 1:
				mux.Handle(cmd, nil, mws...)
			case g.Nil > 1:
				mux.HandleFunc(cmd, nil, mws...)
			case g.Func:
				mux.HandleFunc(cmd, h, mws...)
			default:
				mux.Handle(cmd, qrpc.HandlerFunc(h), mws...)
			}
			return
		}()
		if panicked != bad {
			c.Fatalf("registering %#x (nil: %d) panicked: %v, expected %v", uint32(cmd), g.Nil, panicked, bad)
		}
		if bad {
			c.Label("rejected")
			if dup && g.Nil == 0 && uint32(cmd) <= 0xffffff {
				c.Label("duplicate")
			}
			return
		}
		owner[route] = ri
	}
	for i, g := range s.Regs {
		if !g.Late {
			register(i)
		}
	}
	var p *Peer
	var conn *qrpc.Connection
	if s.Client {
		acc := w.rawServer("raw")
		conn, _, _ = w.dial("raw", qrpc.ConnectionConfig{Handler: mux}, nil, NetOpt{})
		p = w.accept(acc)
	} else {
		srv := w.serve(qrpc.ServerBinding{Handler: mux})
		p = w.rawClient(srv.addrs[0], NetOpt{})
	}
	other := (*Peer)(nil)
	_ = other
	half := len(s.Reqs) / 2
	closed := false
	nontriv := 0
	for i := 0; i < len(s.Reqs); {
		if i >= half {
			for k, g := range s.Regs {
				if g.Late {
					register(k)
					s.Regs[k].Late = false
				}
			}
			half = len(s.Reqs)
		}
		// a burst ends before the first request which closes the connection
		j := i
		var fs []wire.Frame
		closes := false
		for j < len(s.Reqs) && (j == i || s.Reqs[j].Burst) && (j < half || i >= half) {
			q := &s.Reqs[j]
			_, ok := owner[q.Cmd&0xffff]
			if !ok && j > i {
				break
			}
			var fl byte
			if q.NB || s.Client {
				fl = wire.NB
			}
			id := uint64(2*j + 3)
			if s.Client {
				id = uint64(2*j + 2)
			}
			fs = append(fs, wire.Frame{ID: id, Flags: fl, Cmd: uint32(q.Cmd) & 0xffffff, Payload: q.P.Bytes()})
			j++
			if !ok {
				closes = true
				break
			}
		}
		before := len(p.Frames())
		p.Send(fs...)
		c.Sleep(time.Second)
		got := map[uint64][]wire.Frame{}
		for _, e := range p.Frames()[before:] {
			got[e.ID] = append(got[e.ID], e.Frame)
		}
		mu.Lock()
		for k := i; k < j; k++ {
			q := s.Reqs[k]
			ri, ok := owner[q.Cmd&0xffff]
			want := ""
			var ans wire.Frame
			if ok {
				g := s.Regs[ri]
				ran := true
				for m := 0; m < clamp(g.MW, 0, 6); m++ {
					want += fmt.Sprintf("%d.m%d ", ri, m)
					if q.Stop == m {
						ran = false
						break
					}
				}
				ans = wire.Frame{Flags: wire.Rst}
				if ran {
					want += fmt.Sprintf("%d.h ", ri)
					ans = wire.Frame{Cmd: uint32(ri)}
				} else if q.How == 1 {
					ans = wire.Frame{Cmd: 77}
				}
				if len(strings.Fields(want)) > 1 || q.Cmd != g.Cmd {
					nontriv++
				}
			}
			if trace[k] != want {
				mu.Unlock()
				c.Fatalf("request %d (%#x) ran %q, expected %q (registration.middleware or handler)", k, q.Cmd, trace[k], want)
			}
			if ok {
				id := fs[k-i].ID
				gs := got[id]
				if len(gs) != 1 || gs[0].Flags != ans.Flags || gs[0].Cmd != ans.Cmd {
					mu.Unlock()
					c.Fatalf("request %d (%#x) was answered %v, expected %v", k, q.Cmd, gs, ans)
				}
			}
		}
		mu.Unlock()
		if closes {
			c.Sleep(time.Second)
			if !p.Ended() {
				c.Fatalf("an unregistered command (%#x) did not close the connection", s.Reqs[j-1].Cmd)
			}
			if conn != nil && !c.WaitDone(conn.Done(), time.Second) {
				c.Fatalf("an unregistered command (%#x) did not close the connection", s.Reqs[j-1].Cmd)
			}
			closed = true
			c.Label("unregistered")
			break
		}
		if p.Ended() {
			c.Fatalf("the connection was closed after %d requests without a reason", j)
		}
		i = j
	}
	_ = closed
	if nontriv > 0 {
		c.NonTrivial()
	}
}

// ---- M02: metrics

type m02Req struct {
	T, Dur int
	Kind   int // 0 blocking, 1 non-blocking, 2 streamed, 3 push
	Cmd    int
	End    int // 0 answers, 1 does not, 2.. panics
}

type m02 struct {
	Counter, Latency, Overlay bool
	Conns                     [][]m02Req
	Cut                       []int // a connection is lost at this time, 0 never
}

type mkey struct{ method, err string }

type m02rec struct {
	mu    sync.Mutex
	count map[mkey]float64
	lat   map[mkey][]float64
	bad   string
}

type m02Counter struct {
	r *m02rec
	k []string
}

func (x m02Counter) With(lv ...string) metrics.Counter {
	return m02Counter{x.r, append(append([]string(nil), x.k...), lv...)}
}

func labels(k []string) (mkey, bool) {
	var out mkey
	if len(k) != 4 {
		return out, false
	}
	for i := 0; i < 4; i += 2 {
		switch k[i] {
		case "method":
			out.method = k[i+1]
		case "error":
			out.err = k[i+1]
		default:
			return out, false
		}
	}
	return out, true
}

func (x m02Counter) Add(d float64) {
	x.r.mu.Lock()
	defer x.r.mu.Unlock()
	k, ok := labels(x.k)
	if !ok {
		x.r.bad = fmt.Sprint(x.k)
	}
	x.r.count[k] += d
}

type m02Hist struct {
	r *m02rec
	k []string
}

func (x m02Hist) With(lv ...string) metrics.Histogram {
	return m02Hist{x.r, append(append([]string(nil), x.k...), lv...)}
}

func (x m02Hist) Observe(v float64) {
	x.r.mu.Lock()
	defer x.r.mu.Unlock()
	k, ok := labels(x.k)
	if !ok {
		x.r.bad = fmt.Sprint(x.k)
	}
	x.r.lat[k] = append(x.r.lat[k], v)
}

func genM02(r *pbt.R) any {
	s := &m02{Counter: r.P(3, 4), Latency: r.P(3, 4), Overlay: r.P(1, 8)}
	for i := r.N(1, 3); i > 0; i-- {
		var q []m02Req
		for j := r.N(1, 10); j > 0; j-- {
			q = append(q, m02Req{T: r.Intn(50), Dur: pbt.Pick(r, 0, r.Intn(20), r.Intn(2000)), Kind: r.W(3, 3, 2, 1), Cmd: pbt.Pick(r, 0, 1, 2, 0xffff, 0x10001, 0xffffff), End: r.W(4, 2, 1, 1, 1, 1)})
		}
		s.Conns = append(s.Conns, q)
		s.Cut = append(s.Cut, pbt.Pick(r, 0, 0, 0, 1+r.Intn(60)))
	}
	return s
}

func runM02(c *pbt.C, sc any) {
	s := sc.(*m02)
	w := newWorld(c)
	const tick = time.Millisecond
	rec := &m02rec{count: map[mkey]float64{}, lat: map[mkey][]float64{}}
	var mu sync.Mutex
	began := map[int]time.Duration{}
	want := map[mkey][]time.Duration{}
	running := 0
	b := qrpc.ServerBinding{}
	if s.Counter {
		b.CounterMetric = m02Counter{r: rec}
	}
	if s.Latency {
		b.LatencyMetric = m02Hist{r: rec}
	}
	conns := s.Conns
	if len(conns) > 5 {
		conns = conns[:5]
	}
	b.Handler = qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if len(f.Payload) != 2 {
			c.Failf("handler for %v", toWire((*qrpc.Frame)(f)))
			return
		}
		k := int(f.Payload[0])<<8 | int(f.Payload[1])
		st := c.Now()
		mu.Lock()
		began[k] = st
		running++
		mu.Unlock()
		q := conns[f.Payload[0]][f.Payload[1]]
		time.Sleep(time.Duration(clamp(q.Dur, 0, 1<<20)) * tick)
		var pv any
		switch q.End {
		case 0:
			wr.StartWrite(f.RequestID, f.Cmd, 0)
			wr.EndWrite()
		case 1:
		case 2:
			pv = "planned"
		case 3:
			pv = errors.New("planned error")
		case 4:
			pv = 42
		default:
			pv = fmt.Sprintf("boom %d", q.Cmd)
		}
		lab := "<nil>"
		if pv != nil {
			lab = fmt.Sprint(pv)
		}
		mu.Lock()
		mk := mkey{strconv.Itoa(int(f.Cmd)), lab}
		want[mk] = append(want[mk], c.Now()-st)
		running--
		mu.Unlock()
		if pv != nil {
			panic(pv)
		}
	})
	srv := w.serve(b)
	base := c.Now()
	for i := range conns {
		i := i
		if len(conns[i]) > 20 {
			conns[i] = conns[i][:20]
		}
		p := w.rawClient(srv.addrs[0], NetOpt{})
		byT := map[int][]int{}
		for qi, q := range conns[i] {
			t := 2 * clamp(q.T, 0, 10000)
			byT[t] = append(byT[t], qi)
		}
		if i < len(s.Cut) && s.Cut[i] > 0 {
			c.Go(func() {
				time.Sleep(base + time.Duration(2*clamp(s.Cut[i], 0, 10000)+1)*tick - c.Now())
				p.conn.Break()
				p.conn.Close()
			})
			c.Label("cut")
		}
		c.Go(func() {
			for _, t := range sortedKeys(byT) {
				time.Sleep(base + time.Duration(t)*tick - c.Now())
				for _, qi := range byT[t] {
					q := conns[i][qi]
					f := wire.Frame{ID: uint64(2*qi + 1), Cmd: uint32(q.Cmd) & 0xffffff, Payload: []byte{byte(i), byte(qi)}}
					switch q.Kind {
					case 1:
						f.Flags = wire.NB
					case 2:
						f.Flags = wire.NB | wire.Stream | wire.StreamEnd
					case 3:
						f.Flags = wire.Push
					}
					p.Send(f)
				}
			}
		})
	}
	c.Sleep(time.Hour * 30)
	c.Quiesce()
	mu.Lock()
	defer mu.Unlock()
	rec.mu.Lock()
	defer rec.mu.Unlock()
	if running != 0 {
		c.Fatalf("%d handlers are still running", running)
	}
	if rec.bad != "" {
		c.Fatalf("recorded under labels %s", rec.bad)
	}
	lens := 0
	for k, ds := range want {
		if s.Counter && rec.count[k] != float64(len(ds)) {
			c.Fatalf("method %s error %s: counted %v, handled %d", k.method, k.err, rec.count[k], len(ds))
		}
		if s.Latency {
			got := append([]float64(nil), rec.lat[k]...)
			sort.Float64s(got)
			sort.Slice(ds, func(a, b int) bool { return ds[a] < ds[b] })
			if len(got) != len(ds) {
				c.Fatalf("method %s error %s: %d latencies, handled %d", k.method, k.err, len(got), len(ds))
			}
			for i := range ds {
				if d := got[i] - ds[i].Seconds(); d < -1e-6 || d > 1e-4 {
					c.Fatalf("method %s error %s: latency %v, the handler took %v", k.method, k.err, got[i], ds[i])
				}
			}
		}
		lens += len(ds)
	}
	num := func(k mkey) bool { _, err := strconv.Atoi(k.method); return err == nil }
	for k, n := range rec.count {
		if !s.Counter || num(k) && n != float64(len(want[k])) {
			c.Fatalf("method %s error %s: counted %v, handled %d", k.method, k.err, n, len(want[k]))
		}
	}
	for k, l := range rec.lat {
		if !s.Latency || len(l) != len(want[k]) {
			c.Fatalf("method %s error %s: %d latencies, handled %d", k.method, k.err, len(l), len(want[k]))
		}
	}
	if (s.Counter || s.Latency) && lens > 1 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "M01",
		Title: "routing and middleware",
		Rule:  "generated: registrations (also duplicate, nil, oversized, late), middleware chains with declining, answering and panicking members, requests with any opaque byte and unregistered ones, in bursts, mux on a server and on a client; oracle: the exact trace of middleware and handlers of each request, its answer, panics of registrations, closes. Non-trivial: a middleware ran or an opaque byte differed",
		Gen:   genM01, New: func() any { return &m01{} }, Run: runM01,
		Quick:    pbt.Budget{Cases: 100000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 3000000, MaxSec: 900},
	})
	pbt.Register(&pbt.Prop{
		ID:    "M02",
		Title: "metrics",
		Rule:  "generated: requests of all kinds with durations and outcomes on several connections, some lost meanwhile, with either or both metrics; oracle: counts and latencies per command and error text from what the handlers did, in virtual time. Non-trivial: several handled requests",
		Gen:   genM02, New: func() any { return &m02{} }, Run: runM02,
		Quick:    pbt.Budget{Cases: 60000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 2000000, MaxSec: 900},
	})
}
