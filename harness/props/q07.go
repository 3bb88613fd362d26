package props

import (
	"fmt"
	"net"
	"sort"
	"sync"
	"time"

	"verif/pbt"
	"verif/vnet"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// ---- Q07: MaxCloseRate. Real time: the limiter sleeps with a mutex held.

type q07Conn struct {
	Bind int
	How  int // 0 the client closes, 1 a handler closes, 2 a malformed frame, 3 its network breaks, 4 stays (until Shutdown)
	Gap  int // milliseconds before
}

type q07 struct {
	Rates    []int
	Conns    []q07Conn
	Shutdown bool
}

func genQ07(r *pbt.R) any {
	s := &q07{Shutdown: r.P(1, 2)}
	for n := r.Range(1, 3); n > 0; n-- {
		s.Rates = append(s.Rates, pbt.Pick(r, 0, 10, 20, r.Range(5, 60)))
	}
	gap := pbt.Pick(r, 0, 0, 10, 100)
	for i, rate := range s.Rates {
		n := r.Range(1, 12)
		if rate > 0 {
			n = r.Range(1, 4+rate/2)
		}
		for ; n > 0; n-- {
			s.Conns = append(s.Conns, q07Conn{Bind: i, How: r.Intn(5), Gap: r.Intn(gap + 1)})
		}
	}
	for i := range s.Conns {
		j := r.Intn(i + 1)
		s.Conns[i], s.Conns[j] = s.Conns[j], s.Conns[i]
	}
	return s
}

func runQ07(c *pbt.C, sc any) {
	s := sc.(*q07)
	w := newWorld(c)
	if len(s.Rates) == 0 {
		s.Rates = []int{10}
	}
	s.Rates = s.Rates[:min(len(s.Rates), 4)]
	s.Conns = s.Conns[:min(len(s.Conns), 60)]
	const slack = 30 * time.Second
	var (
		mu    sync.Mutex
		ends  = make([][]time.Time, len(s.Rates)) // OnClose
		gone  = make([][]time.Time, len(s.Rates)) // seen by the clients which did not end it
		bs    []qrpc.ServerBinding
		count = make([]int, len(s.Rates))
	)
	for i, rate := range s.Rates {
		i := i
		mux := qrpc.NewServeMux()
		mux.HandleFunc(1, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
			wr.StartWrite(f.RequestID, 2, 0)
			wr.WriteBytes(f.Payload)
			wr.EndWrite()
		})
		mux.HandleFunc(3, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) { f.Close() })
		bs = append(bs, qrpc.ServerBinding{Handler: mux, MaxCloseRate: clamp(rate, 0, 1000),
			LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{OnClose: func(net.Conn) {
				mu.Lock()
				ends[i] = append(ends[i], time.Now())
				mu.Unlock()
			}}})
	}
	srv := w.newServer(bs...)
	srv.done = c.Go(func() { srv.serveErr = srv.Server.ListenAndServe() })
	down := false
	shutdown := func() <-chan struct{} {
		down = true
		return c.Go(func() { srv.Shutdown() })
	}
	defer func() {
		if !down {
			c.WaitDone(shutdown(), slack)
		}
	}()
	for i := range bs {
		for k := 0; !w.net.Listening(srv.addrs[i]); k++ {
			if k > 2000 {
				c.Fatalf("the server does not listen")
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	peers := make([]*Peer, len(s.Conns))
	ask := func(p *Peer, id uint64) bool {
		p.Send(wire.Frame{ID: id, Cmd: 1, Payload: []byte("hello")})
		return p.WaitFor(slack, func(evs []Ev) bool {
			for _, e := range evs {
				if e.ID == id {
					return true
				}
			}
			return false
		})
	}
	for i, d := range s.Conns {
		b := clamp(d.Bind, 0, len(bs)-1)
		peers[i] = w.rawClient(srv.addrs[b], NetOpt{C2S: vnet.Opts{}, S2C: vnet.Opts{}})
		count[b]++
		if !ask(peers[i], 1) {
			c.Fatalf("connection %d: no answer", i)
		}
	}
	var wg sync.WaitGroup
	first := time.Now()
	want := make([]int, len(s.Rates))
	for i, d := range s.Conns {
		b := clamp(d.Bind, 0, len(bs)-1)
		p := peers[i]
		time.Sleep(time.Duration(clamp(d.Gap, 0, 1000)) * time.Millisecond)
		c.Label("ended %s", []string{"by the client", "by a handler", "by the reader", "by the network", "by Shutdown"}[clamp(d.How, 0, 4)])
		switch d.How {
		case 0:
			p.conn.Close()
		case 1:
			p.Send(wire.Frame{ID: 3, Cmd: 3, Flags: wire.NB})
		case 2:
			p.Raw(append([]byte{0, 0, 0, 1}, make([]byte, 12)...))
		case 3:
			p.conn.Break()
		default:
			continue
		}
		want[b]++
		if d.How == 1 || d.How == 2 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if !p.WaitEnd(slack) {
					c.Failf("connection %d is never closed", i)
				}
				mu.Lock()
				gone[b] = append(gone[b], time.Now())
				mu.Unlock()
			}()
		}
	}
	// the others work as ever
	for i, d := range s.Conns {
		if d.How > 3 || d.How < 0 {
			if !ask(peers[i], 5) {
				c.Failf("connection %d is not served while others are being closed", i)
			}
		}
	}
	settled := func(n []int) bool {
		mu.Lock()
		defer mu.Unlock()
		for b := range ends {
			if len(ends[b]) != n[b] {
				return false
			}
		}
		return true
	}
	wait := func(n []int) {
		for t := time.Now(); !settled(n); time.Sleep(5 * time.Millisecond) {
			if time.Since(t) > slack {
				mu.Lock()
				defer mu.Unlock()
				got := []int{}
				for b := range ends {
					got = append(got, len(ends[b]))
				}
				c.Fatalf("%v connections of the bindings are to be closed, %v are", n, got)
			}
		}
	}
	wait(want)
	for i, d := range s.Conns {
		if d.How > 3 || d.How < 0 {
			if !ask(peers[i], 7) {
				c.Failf("connection %d is not served after others were closed", i)
			}
		}
	}
	if s.Shutdown {
		ch := shutdown()
		wait(count)
		if !c.WaitDone(ch, slack) {
			c.Failf("Shutdown does not return")
		}
	}
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	for b, rate := range s.Rates {
		if rate <= 0 {
			continue
		}
		per := time.Second / time.Duration(clamp(rate, 0, 1000))
		for what, ts := range map[string][]time.Time{"closed": ends[b], "seen closed by the client": gone[b]} {
			sort.Slice(ts, func(i, j int) bool { return ts[i].Before(ts[j]) })
			for k, t := range ts {
				if d := t.Sub(first); d < per*time.Duration(k)-time.Millisecond {
					c.Failf("binding %d, %d closes a second: connection number %d is %s %v after the first one was to be closed", b, rate, k+1, what, d)
					break
				}
			}
			if len(ts) > 2 && what == "closed" {
				c.NonTrivial()
			}
		}
		c.Label("%s", fmt.Sprint("limited"))
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "Q07",
		Title: "close rate limit",
		Rule:  "generated: up to three bindings with and without a limit, on the real clock, whose connections are ended in bursts or spread out by the client, a handler, a malformed frame, the network and Shutdown while others stay; oracle: the k-th close of a limited binding comes no sooner than the limit allows, all come, and the others are served before, meanwhile and afterwards. Non-trivial: more than two closes of a limited binding",
		Gen:   genQ07,
		New:   func() any { return &q07{} }, Run: runQ07,
		NoBubble: true, Workers: 48,
		Quick:    pbt.Budget{Cases: 800, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 10000, MaxSec: 600},
	})
}
