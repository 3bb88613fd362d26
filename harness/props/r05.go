package props

import (
	"fmt"
	"sync"
	"time"

	"verif/pbt"

	"github.com/zhiqiangxu/qrpc"
)

// ---- R05: what a handler and its middleware learn about their request and
// its connection is about that request and that connection

type r05Op struct {
	Conn  int
	Back  bool // from the server
	Kind  int  // 0 looks, 1 opens a request to the requester, 2 closes
	MW    int
	NB    bool
	Dur   int // milliseconds of the handler and of each middleware
	Gap   int
	Early bool // the middleware declines after answering
}

type r05 struct {
	Binds []int // binding of each connection
	Lanes [][]r05Op
	Links []Link
}

func genR05(r *pbt.R) any {
	s := &r05{}
	n := r.Range(1, 5)
	nb := r.Range(1, 2)
	for i := 0; i < n; i++ {
		s.Binds = append(s.Binds, r.Intn(nb))
		var l Link
		if r.P(1, 3) {
			l = genLink(r, 2000)
		}
		s.Links = append(s.Links, l)
	}
	closes := r.P(1, 2)
	for l := r.Range(1, 6); l > 0; l-- {
		var ops []r05Op
		for k := r.N(1, 8); k > 0; k-- {
			op := r05Op{Conn: r.Intn(n), Back: r.P(1, 2), MW: r.Intn(4), NB: r.P(2, 3), Dur: pbt.Pick(r, 0, 0, 1, r.Intn(20)), Gap: pbt.Pick(r, 0, 0, r.Intn(20))}
			op.Kind = r.W(4, 3, 0)
			if closes && r.P(1, 8) {
				op.Kind = 2
			}
			op.Early = op.MW > 0 && op.Kind == 0 && r.P(1, 5)
			ops = append(ops, op)
		}
		s.Lanes = append(s.Lanes, ops)
	}
	return s
}

// r05Stash is unique to one request
type r05Stash struct {
	op, step int
}

func runR05(c *pbt.C, sc any) {
	s := sc.(*r05)
	w := newWorld(c)
	if len(s.Binds) == 0 {
		s.Binds = []int{0}
	}
	s.Binds = s.Binds[:min(len(s.Binds), 8)]
	s.Lanes = s.Lanes[:min(len(s.Lanes), 12)]
	type opRef struct {
		op   *r05Op
		conn int
		n    int
	}
	var ops []*opRef
	lanes := make([][]*opRef, len(s.Lanes))
	for i := range s.Lanes {
		s.Lanes[i] = s.Lanes[i][:min(len(s.Lanes[i]), 30)]
		for j := range s.Lanes[i] {
			op := &s.Lanes[i][j]
			r := &opRef{op: op, conn: clamp(op.Conn, 0, len(s.Binds)-1), n: len(ops)}
			ops = append(ops, r)
			lanes[i] = append(lanes[i], r)
		}
	}

	var (
		mu      sync.Mutex
		srv     *Srv
		clients = make([]*qrpc.Connection, len(s.Binds))
		local   = make([]string, len(s.Binds)) // addresses
		infos   = make([]*qrpc.ConnectionInfo, len(s.Binds))
		closing = make([]bool, len(s.Binds))
		ran     = map[int]int{}
		inner   = map[int]qrpc.Response{} // of requests opened by handlers
		busy    int
		overlap bool
	)
	isClosing := func(i int) bool {
		mu.Lock()
		defer mu.Unlock()
		return closing[i]
	}
	find := func(f *qrpc.RequestFrame, where string) *opRef {
		n := 0
		if k, _ := fmt.Sscanf(string(f.Payload), "op %d", &n); k != 1 || n < 0 || n >= len(ops) {
			c.Failf("%s gets the payload %q", where, f.Payload)
			return nil
		}
		return ops[n]
	}
	// look is what every middleware and handler checks; i is the connection
	// of the client, or -1 at the server
	look := func(f *qrpc.RequestFrame, i, step int, where string) *opRef {
		r := find(f, where)
		if r == nil {
			return nil
		}
		atServer := i < 0
		if r.op.Back == atServer {
			c.Failf("%s: operation %d at the wrong side", where, r.n)
		}
		if f.FromClient() != atServer {
			c.Failf("%s: FromClient is %v", where, f.FromClient())
		}
		if st := f.GetStash(); step == 0 && st != nil {
			c.Failf("%s: operation %d starts with the stash %v", where, r.n, st)
		} else if step > 0 && st != (r05Stash{r.n, step}) {
			c.Failf("%s: operation %d, step %d: the stash is %v", where, r.n, step, st)
		}
		if atServer {
			ci := f.ConnectionInfo()
			mu.Lock()
			want := infos[r.conn]
			mu.Unlock()
			if ci != want {
				c.Failf("%s: operation %d of connection %d gets the ConnectionInfo of another one", where, r.n, r.conn)
				return r
			}
			if got := ci.GetAnything(); got != fmt.Sprint("any", r.conn) {
				c.Failf("%s: operation %d of connection %d: GetAnything is %v", where, r.n, r.conn, got)
			}
			if ci.RemoteAddr() != local[r.conn] {
				c.Failf("%s: operation %d of connection %d: RemoteAddr is %s, the client's address %s", where, r.n, r.conn, ci.RemoteAddr(), local[r.conn])
			}
			if ci.Server() != srv.Server {
				c.Failf("%s: another server", where)
			}
		} else {
			if i != r.conn {
				c.Failf("%s: operation %d of connection %d reaches the client of connection %d", where, r.n, r.conn, i)
				return r
			}
			if f.ClientConnectionInfo().CC != clients[i] {
				c.Failf("%s: operation %d: another client connection", where, r.n)
			}
		}
		if !isClosing(r.conn) {
			if f.StreamInitiator().IsClosed() {
				c.Failf("%s: operation %d: the connection is closed, it says", where, r.n)
			}
			if f.Context().Err() != nil {
				c.Failf("%s: operation %d: the context is done: %v", where, r.n, f.Context().Err())
			}
		}
		return r
	}
	side := func(i int) string {
		if i < 0 {
			return "server"
		}
		return fmt.Sprint("client ", i)
	}
	answer := func(wr qrpc.FrameWriter, f *qrpc.RequestFrame, r *opRef) {
		wr.StartWrite(f.RequestID, 9, 0)
		wr.WriteBytes([]byte(fmt.Sprintf("answer %d", r.n)))
		if err := wr.EndWrite(); err != nil && !isClosing(r.conn) {
			c.Failf("operation %d: the answer fails: %v", r.n, err)
		}
	}
	// mux i serves the client of connection i, or the server for -1
	mux := func(i int) *qrpc.ServeMux {
		m := qrpc.NewServeMux()
		for k := 0; k < 4; k++ {
			var mws []qrpc.MiddlewareFunc
			for j := 0; j < k; j++ {
				j := j
				mws = append(mws, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) bool {
					r := look(f, i, j, fmt.Sprintf("%s, middleware %d", side(i), j))
					if r == nil {
						return false
					}
					f.SetStash(r05Stash{r.n, j + 1})
					time.Sleep(time.Duration(clamp(r.op.Dur, 0, 1000))*time.Millisecond + 2)
					if r.op.Early && j == k-1 {
						look(f, i, j+1, fmt.Sprintf("%s, middleware %d at its end", side(i), j))
						mu.Lock()
						ran[r.n]++
						mu.Unlock()
						answer(wr, f, r)
						return false
					}
					return true
				})
			}
			k := k
			m.HandleFunc(qrpc.Cmd(k), func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
				r := look(f, i, k, side(i)+", handler")
				if r == nil {
					return
				}
				mu.Lock()
				ran[r.n]++
				busy++
				overlap = overlap || busy > 1
				mu.Unlock()
				time.Sleep(time.Duration(clamp(r.op.Dur, 0, 1000))*time.Millisecond + 2)
				switch r.op.Kind {
				case 1:
					_, resp, err := f.StreamInitiator().StreamRequest(100, qrpc.NBFlag, []byte(fmt.Sprintf("inner %d", r.n)))
					if err != nil {
						if !isClosing(r.conn) {
							c.Failf("operation %d: StreamRequest of the initiator: %v", r.n, err)
						}
						break
					}
					mu.Lock()
					inner[r.n] = resp
					mu.Unlock()
				case 2:
					mu.Lock()
					closing[r.conn] = true
					mu.Unlock()
					f.Close()
					if i < 0 && !f.StreamInitiator().IsClosed() {
						c.Failf("operation %d: the connection is open after Close", r.n)
					}
				}
				look(f, i, k, side(i)+", handler at its end")
				mu.Lock()
				busy--
				mu.Unlock()
				answer(wr, f, r)
			}, mws...)
		}
		// opened by a handler of the other side
		m.HandleFunc(100, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
			n := 0
			if k, _ := fmt.Sscanf(string(f.Payload), "inner %d", &n); k != 1 || n < 0 || n >= len(ops) {
				c.Failf("%s gets the payload %q", side(i), f.Payload)
				return
			}
			r := ops[n]
			if i < 0 && f.ConnectionInfo() != infos[r.conn] || i >= 0 && i != r.conn {
				c.Failf("the request which the handler of operation %d on connection %d opened reaches another connection (%s)", n, r.conn, side(i))
			}
			if f.GetStash() != nil {
				c.Failf("a request opened by a handler has a stash")
			}
			wr.StartWrite(f.RequestID, 9, 0)
			wr.WriteBytes([]byte(fmt.Sprintf("answer %d", n)))
			wr.EndWrite()
		})
		return m
	}
	var bs []qrpc.ServerBinding
	for b := 0; b <= pbtMax(s.Binds); b++ {
		bs = append(bs, qrpc.ServerBinding{Handler: mux(-1), ReadFrameChSize: b})
	}
	srv = w.newServer(bs...)
	srv.start()
	for i, b := range s.Binds {
		var o NetOpt
		if i < len(s.Links) {
			o = NetOpt{s.Links[i].opts(), s.Links[i].opts()}
		}
		before := map[*qrpc.ConnectionInfo]bool{}
		each := func(f func(ci *qrpc.ConnectionInfo)) {
			for k := range bs {
				srv.WalkConn(k, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { f(ci); return true })
			}
		}
		each(func(ci *qrpc.ConnectionInfo) { before[ci] = true })
		conn, cc, _ := w.dial(srv.addrs[clamp(b, 0, len(bs)-1)], qrpc.ConnectionConfig{Handler: mux(i)}, nil, o)
		clients[i], local[i] = conn, cc.LocalAddr().String()
		c.Sleep(time.Second)
		each(func(ci *qrpc.ConnectionInfo) {
			if before[ci] {
				return
			}
			if infos[i] != nil {
				c.Failf("two connections appear at once")
			}
			infos[i] = ci
			if ci.GetAnything() != nil {
				c.Failf("a new connection has %v", ci.GetAnything())
			}
			ci.SetAnything(fmt.Sprint("any", i))
		})
		if infos[i] == nil {
			c.Fatalf("connection %d is not among those of the server", i)
		}
	}

	get := func(what string, r *opRef, resp qrpc.Response) {
		f, err, ok := w.getFrame(resp)
		switch {
		case !ok:
			c.Failf("%s is never answered", what)
		case err != nil:
			if !isClosing(r.conn) {
				c.Failf("%s: %v", what, err)
			}
		case string(f.Payload) != fmt.Sprintf("answer %d", r.n) && !(len(f.Payload) == 0 && f.Flags&qrpc.StreamRstFlag != 0):
			c.Failf("%s is answered with %v", what, toWire(f))
		}
	}
	var done []<-chan struct{}
	for _, lane := range lanes {
		lane := lane
		done = append(done, c.Go(func() {
			for _, r := range lane {
				time.Sleep(time.Duration(clamp(r.op.Gap, 0, 1000))*time.Millisecond + 2)
				var fl qrpc.FrameFlag
				if r.op.NB {
					fl = qrpc.NBFlag
				}
				p := []byte(fmt.Sprintf("op %d", r.n))
				cmd := qrpc.Cmd(clamp(r.op.MW, 0, 3))
				var (
					resp qrpc.Response
					err  error
				)
				if r.op.Back {
					_, resp, err = infos[r.conn].Request(cmd, fl, p)
				} else {
					_, resp, err = clients[r.conn].Request(cmd, fl, p)
				}
				if err != nil {
					if !isClosing(r.conn) {
						c.Failf("operation %d: %v", r.n, err)
					}
					continue
				}
				get(fmt.Sprintf("operation %d", r.n), r, resp)
				mu.Lock()
				in := inner[r.n]
				mu.Unlock()
				if in != nil {
					get(fmt.Sprintf("the request opened by operation %d", r.n), r, in)
				}
			}
		}))
	}
	for _, d := range done {
		if !c.WaitDone(d, pbt.Long) {
			c.Fatalf("operations are never answered")
		}
	}
	c.Sleep(time.Minute)
	mu.Lock()
	for _, r := range ops {
		if n := ran[r.n]; n > 1 || n == 0 && !closing[r.conn] {
			c.Failf("operation %d ran %d times", r.n, n)
		}
	}
	mu.Unlock()
	// exactly the connections which a handler closed are closed
	for i, conn := range clients {
		here := false
		srv.WalkConn(clamp(s.Binds[i], 0, len(bs)-1), func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			here = here || ci == infos[i]
			return true
		})
		if cl := isClosing(i); here == cl || conn.IsClosed() != cl || infos[i].IsClosed() != cl {
			c.Failf("connection %d, closed by a handler: %v; among those of the server: %v, IsClosed at the client: %v, at the server: %v", i, cl, here, conn.IsClosed(), infos[i].IsClosed())
		}
	}
	if overlap && len(clients) > 1 {
		c.NonTrivial()
	}
	for i := range clients {
		if isClosing(i) {
			c.Label("closed by a handler")
		}
	}
}

func pbtMax(xs []int) int {
	m := 0
	for _, x := range xs {
		m = max(m, min(x, 3))
	}
	return m
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "R05",
		Title: "request context",
		Rule:  "generated: up to six goroutines which send requests in both directions over one to five connections on one or two bindings, through up to three middleware functions which hand a stash on, to handlers which look at their request, open a request to the requester, or close the connection; oracle: which connection each request was sent on. Non-trivial: handlers of several connections at once",
		Gen:   genR05,
		New:   func() any { return &r05{} }, Run: runR05,
		Quick:    pbt.Budget{Cases: 15000, MaxSec: 40},
		Thorough: pbt.Budget{Cases: 300000, MaxSec: 600},
	})
}
