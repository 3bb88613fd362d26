package props

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"verif/pbt"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// ---- I01: ids. Binds and the server's closes happen at odd ticks, everything
// else at even ones; the state is compared between the ticks.

type i01Conn struct {
	Binding, Open int
	Bind          int // ticks after Open
	ID            int
	Handler       int // binds in: 0 a goroutine, 1 a blocking handler, 2 a non-blocking one
	Close         int // ticks after Open, 0: never
	ByClient      bool
	Again         bool // binds again, which panics
}

type i01 struct {
	Bindings int
	KickDur  int // ticks the kick callback takes
	Push     bool
	Conns    []i01Conn
}

func genI01(r *pbt.R) any {
	s := &i01{Bindings: r.N(1, 2), Push: r.P(1, 2)}
	if r.P(1, 4) {
		s.KickDur = 1 + r.Intn(4)
	}
	span := pbt.Pick(r, 2, 5, 20)
	ids := r.N(1, 3)
	for i := r.Range(1, 10); i > 0; i-- {
		cn := i01Conn{Binding: r.Intn(s.Bindings), Open: r.Intn(span), Bind: r.Intn(span), ID: r.Intn(ids), Handler: r.W(3, 1, 1), Again: r.P(1, 10)}
		if r.P(1, 3) {
			cn.Close = pbt.Pick(r, 1+cn.Bind, 1+r.Intn(2*span))
			cn.ByClient = r.P(1, 3)
		}
		s.Conns = append(s.Conns, cn)
	}
	return s
}

type i01Rec struct {
	ci      atomic.Pointer[qrpc.ConnectionInfo]
	p       *Peer
	started bool
	bound   time.Duration // when SetID returned, -1: not yet
	kicked  bool
	ko      uint64
	kicks   []time.Duration // kick callbacks on it
	closed  time.Duration   // by its plan
}

func runI01(c *pbt.C, sc any) {
	s := sc.(*i01)
	nb := clamp(s.Bindings, 1, 4)
	if len(s.Conns) > 40 {
		s.Conns = s.Conns[:40]
	}
	w := newWorld(c)
	const tick = time.Millisecond
	var mu sync.Mutex
	recs := make([]*i01Rec, len(s.Conns))
	byCI := map[string]int{} // remote addresses
	base := c.Now()
	at := func(n int) time.Duration { return base + time.Duration(n)*tick }
	until := func(n int) {
		if d := at(n) - c.Now(); d > 0 {
			time.Sleep(d)
		}
	}
	idOf := func(i int) string { return fmt.Sprint("id", s.Conns[i].ID) }
	bind := func(i int) {
		r := recs[i]
		mu.Lock()
		r.started = true
		mu.Unlock()
		k, ko := r.ci.Load().SetID(idOf(i))
		mu.Lock()
		r.bound, r.kicked, r.ko = c.Now(), k, ko
		mu.Unlock()
		if s.Conns[i].Again {
			func() {
				defer func() {
					if recover() == nil {
						c.Failf("a second SetID of a connection did not panic")
					}
				}()
				r.ci.Load().SetID("other")
			}()
		}
	}
	bs := make([]qrpc.ServerBinding, nb)
	pushID := uint64(1000)
	counts := make([]*m02rec, nb)
	for b := range bs {
		counts[b] = &m02rec{count: map[mkey]float64{}}
		bs[b].CounterMetric = m02Counter{r: counts[b]}
		bs[b].OnKickCB = func(wr qrpc.FrameWriter) {
			// which connection it is shows on the wire
			mu.Lock()
			pushID++
			id := pushID
			mu.Unlock()
			wr.StartWrite(id, 77, qrpc.PushFlag)
			wr.EndWrite()
			if s.KickDur > 0 {
				time.Sleep(time.Duration(2*clamp(s.KickDur, 0, 100)) * tick)
			}
		}
		bs[b].Handler = qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
			i := int(f.Cmd)
			if i >= len(recs) || recs[i] == nil {
				c.Failf("handler for %v", toWire((*qrpc.Frame)(f)))
				return
			}
			time.Sleep(tick)
			bind(i)
		})
	}
	srv := w.serve(bs...)
	base = c.Now()
	end := 0
	binds := map[int][]int{}
	closesAt := map[int]bool{}
	for i := range s.Conns {
		i, cn := i, &s.Conns[i]
		r := &i01Rec{bound: -1, closed: -1}
		recs[i] = r
		if cn.Binding < 0 || cn.Binding >= nb {
			return
		}
		open := 4 * clamp(cn.Open, 0, 1000)
		bt := open + 3 + 2*clamp(cn.Bind, 0, 1000)
		end = max(end, bt)
		binds[bt] = append(binds[bt], i)
		c.Go(func() {
			until(open)
			p, _, err := w.dialPeer(srv.addrs[cn.Binding], NetOpt{})
			if err != nil {
				c.Failf("dial: %v", err)
				return
			}
			a := p.conn
			p.read()
			time.Sleep(tick / 2)
			mu.Lock()
			r.p = p
			byCI[a.LocalAddr().String()] = i
			mu.Unlock()
			srv.WalkConn(cn.Binding, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				if ci.RemoteAddr() == a.LocalAddr().String() {
					r.ci.Store(ci)
				}
				return true
			})
			if r.ci.Load() == nil {
				c.Failf("connection %d is not walked", i)
				return
			}
			if cn.Handler > 0 {
				until(bt - 1)
				var fl byte
				if cn.Handler == 2 {
					fl = wire.NB
				}
				p.Send(wire.Frame{ID: 1, Flags: fl, Cmd: uint32(i)})
				return
			}
			until(bt)
			bind(i)
		})
		if cn.Close > 0 {
			ct := open + 2 + 2*clamp(cn.Close, 0, 1000)
			if !cn.ByClient {
				ct++
			}
			end = max(end, ct)
			closesAt[ct] = true
			c.Go(func() {
				until(ct)
				if r.ci.Load() == nil {
					return
				}
				mu.Lock()
				r.closed = c.Now()
				mu.Unlock()
				if cn.ByClient {
					r.p.conn.Close()
				} else {
					r.ci.Load().Close()
				}
			})
		}
	}
	open := func(r *i01Rec) bool { return r.p != nil && !r.p.Ended() && r.closed < 0 }
	// Kicked connections see the pushed frame; it's how they are recognized.
	kicks := func(r *i01Rec) (n int) {
		if r.p == nil {
			return 0
		}
		for _, e := range r.p.Frames() {
			if e.Flags&wire.Push != 0 && e.Cmd == 77 {
				n++
			}
		}
		return n
	}
	lastKO := uint64(0)
	type slot struct{ b, id int }
	newest := map[slot]int{}
	cur := map[slot]int{} // what the lookup yielded after the last tick
	ambiguous := map[slot]bool{}
	contested := false
	for t := 0; t <= end; t++ {
		until(t)
		time.Sleep(tick / 4)
		c.Quiesce()
		mu.Lock()
		maxKO := lastKO
		for _, i := range binds[t] {
			r := recs[i]
			k := slot{s.Conns[i].Binding, s.Conns[i].ID}
			if r.bound < 0 {
				if s.KickDur == 0 && r.started {
					mu.Unlock()
					c.Fatalf("SetID of connection %d blocks", i)
				}
				continue
			}
			if r.kicked && r.ko <= lastKO {
				mu.Unlock()
				c.Fatalf("kick order %d, after %d", r.ko, lastKO)
			}
			maxKO = max(maxKO, r.ko)
			alone := true
			for _, j := range binds[t] {
				alone = alone && (j == i || s.Conns[j].Binding != k.b || s.Conns[j].ID != k.id)
			}
			if alone && !closesAt[t] && s.KickDur == 0 && (r.closed < 0 || r.closed > r.bound) {
				if prev, held := cur[k]; held != r.kicked {
					mu.Unlock()
					c.Fatalf("connection %d: kicked %v; the previous holder was %d", i, r.kicked, prev)
				}
			}
			ambiguous[k] = !alone
			contested = contested || !alone
			newest[k] = i
		}
		lastKO = maxKO
		for b := 0; b < nb; b++ {
			for id := 0; id < 10; id++ {
				name := fmt.Sprint("id", id)
				k := slot{b, id}
				h := srv.GetConnectionInfoByID(b, name)
				walked := 0
				srv.WalkConnByID(b, []string{"nobody", name}, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo, n int) {
					walked++
					if ci != h || n != 1 || ci.GetID() != name {
						c.Failf("WalkConnByID yields another connection")
					}
				})
				if (walked == 1) != (h != nil) {
					mu.Unlock()
					c.Fatalf("WalkConnByID and GetConnectionInfoByID differ")
				}
				var holders []int
				who := -1
				for i, r := range recs {
					if h != nil && r.ci.Load() == h {
						who = i
					}
					if s.Conns[i].Binding == b && s.Conns[i].ID == id && r.bound >= 0 && open(r) {
						holders = append(holders, i)
					}
				}
				msg := ""
				switch {
				case h != nil && who < 0:
					msg = "an unknown connection"
				case h != nil && !open(recs[who]):
					msg = "a closed connection"
				case h != nil && (s.Conns[who].Binding != b || s.Conns[who].ID != id):
					msg = "a connection with another id"
				case s.KickDur == 0 && len(holders) > 1:
					msg = "several holders"
				case s.KickDur == 0 && len(holders) == 1 && who != holders[0]:
					msg = "not the open holder"
				case s.KickDur == 0 && len(holders) == 0 && h != nil:
					msg = "nobody is bound"
				}
				if n, ok := newest[k]; msg == "" && ok && s.KickDur == 0 && !ambiguous[k] && !closesAt[t] {
					if r := recs[n]; r.closed < 0 && who != n {
						msg = fmt.Sprintf("the newest holder is %d", n)
					}
				}
				if delete(cur, k); who >= 0 {
					cur[k] = who
				}
				if msg != "" {
					mu.Unlock()
					c.Fatalf("tick %d, binding %d: looking up %s yields connection %d; open holders %v: %s", t, b, name, who, holders, msg)
				}
			}
		}
		mu.Unlock()
	}
	c.Sleep(time.Second)
	c.Quiesce()
	mu.Lock()
	defer mu.Unlock()
	groups := map[slot][]int{}
	kicked := make([]int, nb)
	for i, r := range recs {
		cn := s.Conns[i]
		k := slot{cn.Binding, cn.ID}
		if r.bound >= 0 {
			groups[k] = append(groups[k], i)
		}
		n := kicks(r)
		kicked[clamp(cn.Binding, 0, nb-1)] += n
		if n > 1 {
			c.Fatalf("connection %d was kicked %d times", i, n)
		}
		if n == 1 && !r.p.Ended() {
			c.Fatalf("connection %d was kicked but is not closed", i)
		}
		if n == 0 && r.closed < 0 && r.p.Ended() {
			c.Fatalf("connection %d was closed without a kick", i)
		}
		if r.started && r.bound < 0 {
			c.Fatalf("SetID of connection %d never returned", i)
		}
		if !r.started && r.closed < 0 && !r.p.Ended() {
			c.Fatalf("connection %d never came to bind", i)
		}
		if n > 0 && r.bound < 0 {
			c.Fatalf("connection %d was kicked without being bound", i)
		}
	}
	for b, x := range counts {
		x.mu.Lock()
		n := 0
		for k, v := range x.count {
			if k.method == "kickoff" {
				n += int(v)
			}
		}
		x.mu.Unlock()
		if n < kicked[b] || n > kicked[b] && !contested && len(closesAt) == 0 && s.KickDur == 0 {
			c.Fatalf("binding %d: %d connections were kicked, %d counted", b, kicked[b], n)
		}
	}
	for k, g := range groups {
		var left []int
		closed := false
		for _, i := range g {
			if open(recs[i]) {
				left = append(left, i)
			}
			closed = closed || recs[i].closed >= 0
		}
		if len(left) > 1 || len(left) == 0 && !closed {
			c.Fatalf("binding %d id%d: bound by %v, left %v", k.b, k.id, g, left)
		}
		if h := srv.GetConnectionInfoByID(k.b, fmt.Sprint("id", k.id)); len(left) == 1 && h != recs[left[0]].ci.Load() || len(left) == 0 && h != nil {
			c.Fatalf("binding %d id%d: left %v, looking it up yields another one", k.b, k.id, left)
		}
		if len(g) > 1 {
			c.NonTrivial()
		}
	}
	if contested {
		c.Label("bound at the same moment")
	}
	if s.KickDur > 0 {
		c.Label("slow kick callback")
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "I01",
		Title: "connection ids",
		Rule:  "generated: up to ten connections over two bindings which bind a few ids at generated ticks, several at the same one, in goroutines and handlers, while connections close before, at and after their bind; kick callbacks which write and take time; oracle: after every tick the id table is compared with the open holders, kicks are counted on the wire, kick orders compared. Non-trivial: an id was bound more than once",
		Gen:   genI01, New: func() any { return &i01{} }, Run: runI01,
		Quick:    pbt.Budget{Cases: 30000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1500000, MaxSec: 900},
	})
}
