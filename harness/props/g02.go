package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"runtime"
	"sync"
	"time"

	"verif/pbt"
	"verif/vnet"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/codegen"
	"github.com/zhiqiangxu/qrpc/codegen/pb"
)

// ---- G02: service calls at run time: dispatch, errors, balancing, encoding

const (
	g02Cmd = 10000
	g02Err = 10001
)

const (
	g2Echo = iota
	g2Fail
	g2Empty
	g2Big
	g2Panic
	g2Behs
)

type g02Name struct{ NS, M []byte }

type g02Call struct {
	Name    int // registered
	Unknown bool
	Other   g02Name // when unknown
	Pay     Pay
	Delay   int // ms
	Beh     int
	Ctx     int // ms
	At      int // ms
	Text    []byte
}

type g02Enc struct {
	Name g02Name
	Pay  Pay
	Ord  []int // order of the fields, repeated ones included; others are unknown fields
	Cut  int   // >0: garbage: cut or change at this place
	Ep   int
	Reg  int // uses a registered name
}

type g02Phase struct {
	Flip  []int // endpoints which go down or come up
	Calls []g02Call
}

type g02 struct {
	N      int
	Names  []g02Name
	Phases []g02Phase
	Raw    []g02Enc
	Wire   []g02Call // against a reference server
	Link   Link
}

func g02Ident(r *pbt.R, colon bool) []byte {
	var b []byte
	for n := r.Len(6); n > 0; n-- {
		b = append(b, pbt.Pick(r, byte('a'), 'b', 'A', '.', 0, 0xff, '/', ' '))
		if colon && r.P(1, 4) {
			b = append(b, ':')
		}
	}
	return b
}

func genG02(r *pbt.R) any {
	s := &g02{N: r.Intn(4), Link: Link{Buf: 1 << 20}}
	if r.P(3, 4) {
		s.N = r.Range(1, 3)
	}
	for i, n := 0, r.N(1, 8); i < n; i++ {
		s.Names = append(s.Names, g02Name{g02Ident(r, false), g02Ident(r, false)})
	}
	if r.P(1, 2) {
		s.Link.RChunk = []int{r.Range(1, 40), r.Range(1, 2000)}
		s.Link.WChunk = []int{r.Range(1, 2000)}
	}
	call := func() g02Call {
		cl := g02Call{Name: r.Intn(len(s.Names)), Pay: genPay(r, 2000), At: r.Intn(5)}
		if r.P(1, 3) {
			cl.Delay = r.Range(1, 30)
		}
		if r.P(1, 5) {
			cl.Ctx = r.Range(1, 30)
		}
		return cl
	}
	for i, n := 0, r.N(1, 6); i < n; i++ {
		ph := g02Phase{}
		for r.P(1, 4) {
			ph.Flip = append(ph.Flip, r.Intn(4))
		}
		for j, m := 0, r.N(1, 8); j < m; j++ {
			ph.Calls = append(ph.Calls, call())
		}
		if r.P(1, 2) {
			if r.P(1, 2) {
				ph.Calls = ph.Calls[:1]
			}
			cl := &ph.Calls[r.Intn(len(ph.Calls))]
			switch r.W(3, 4, 1, 1, 1) {
			case 0:
				cl.Unknown = true
				cl.Other = g02Name{g02Ident(r, true), g02Ident(r, true)}
				if r.P(1, 2) { // close to a registered one
					n := s.Names[r.Intn(len(s.Names))]
					switch r.Intn(5) {
					case 0:
						cl.Other = g02Name{append(append([]byte(nil), n.NS...), 'a'), n.M}
					case 1:
						cl.Other = g02Name{n.NS, append(append([]byte(nil), n.M...), 'a')}
					case 2:
						cl.Other = g02Name{n.M, n.NS}
					case 3:
						cl.Other = g02Name{nil, append(append(append([]byte(nil), n.NS...), ':'), n.M...)}
					case 4:
						cl.Other = g02Name{bytes.ToUpper(n.NS), n.M}
					}
				}
			case 1:
				cl.Beh = g2Fail
				cl.Text = pbt.Bytes(r.Len(60), r.U64())
			case 2:
				cl.Beh = g2Empty
			case 3:
				cl.Beh = g2Big
			case 4:
				cl.Beh = g2Panic
			}
		}
		s.Phases = append(s.Phases, ph)
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		e := g02Enc{Name: g02Name{g02Ident(r, true), g02Ident(r, true)}, Pay: genPay(r, 300), Ep: r.Intn(3), Reg: r.Intn(9)}
		if r.P(1, 2) {
			e.Reg = -1
		}
		for j, m := 0, r.Range(0, 6); j < m; j++ {
			e.Ord = append(e.Ord, r.Intn(8))
		}
		if r.P(1, 4) {
			e.Cut = r.Range(1, 60)
		}
		s.Raw = append(s.Raw, e)
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		cl := call()
		cl.Beh = r.Intn(2)
		cl.Other = g02Name{g02Ident(r, true), g02Ident(r, true)}
		cl.Text = pbt.Bytes(r.Len(60), r.U64())
		s.Wire = append(s.Wire, cl)
	}
	return s
}

// reference encoding of the request (proto3: 1 NS, 2 method, 3 params)

func uvarint(b []byte, v uint64) []byte { return binary.AppendUvarint(b, v) }

func g02Encode(n g02Name, params []byte, ord []int) []byte {
	var b []byte
	val := [4][]byte{1: n.NS, 2: n.M, 3: params}
	last := map[int]int{}
	for i, f := range ord {
		last[f] = i
	}
	for f := 1; f <= 3; f++ {
		if _, ok := last[f]; !ok {
			ord = append(ord, f)
			last[f] = len(ord) - 1
		}
	}
	for i, f := range ord {
		switch f {
		case 1, 2, 3:
			v := val[f]
			if last[f] != i { // overridden by a later one
				v = []byte("overridden")
			} else if len(v) == 0 && i%2 == 0 && last[f] == i && i >= 3 {
				// the default may be left out, unless it was set before
				set := false
				for _, g := range ord[:i] {
					set = set || g == f
				}
				if !set {
					continue
				}
			}
			b = append(b, byte(f<<3|2))
			b = uvarint(b, uint64(len(v)))
			b = append(b, v...)
		case 4: // unknown fields
			b = uvarint(uvarint(b, 9<<3|0), 1<<40+uint64(i))
		case 5:
			b = append(uvarint(b, 1000<<3|1), 1, 2, 3, 4, 5, 6, 7, 8)
		case 6:
			b = append(uvarint(uvarint(b, 4<<3|2), 3), "xyz"...)
		case 7:
			b = append(uvarint(b, 15<<3|5), 1, 2, 3, 4)
		}
	}
	return b
}

func g02Decode(b []byte) (n g02Name, params []byte, err error) {
	bad := errors.New("malformed request")
	for len(b) > 0 {
		k, l := binary.Uvarint(b)
		if l <= 0 || k>>3 < 1 {
			return n, nil, bad
		}
		b = b[l:]
		size := uint64(0)
		switch k & 7 {
		case 0:
			if _, l = binary.Uvarint(b); l <= 0 {
				return n, nil, bad
			}
			size = uint64(l)
		case 1:
			size = 8
		case 5:
			size = 4
		case 2:
			v, l := binary.Uvarint(b)
			if l <= 0 {
				return n, nil, bad
			}
			b = b[l:]
			size = v
		default:
			return n, nil, bad
		}
		if size > uint64(len(b)) {
			return n, nil, bad
		}
		x := append([]byte(nil), b[:size]...)
		b = b[size:]
		if k&7 != 2 {
			continue
		}
		switch k >> 3 {
		case 1:
			n.NS = x
		case 2:
			n.M = x
		case 3:
			params = x
		}
	}
	return
}

type g02run struct {
	delay  time.Duration
	beh    int
	text   string
	want   g02Name
	params []byte

	mu    sync.Mutex
	runs  int
	eps   []int
	early bool // its context ended first
}

type g02St struct {
	c    *pbt.C
	s    *g02
	w    *World
	reg  []g02Name
	srv  []*Srv
	mu   sync.Mutex
	runs map[uint64]*g02run
	next uint64
	raw  int // runs for requests made by the harness itself
	rawN g02Name
	rawP []byte
	far  map[string]*vnet.Conn
	dial map[string]int
	over bool
}

func (x *g02St) result(r *g02run) []byte {
	switch r.beh {
	case g2Empty:
		return nil
	case g2Big:
		return bytes.Repeat(r.params, 50)
	}
	return append([]byte("result of "), r.params...)
}

func (x *g02St) method(ep int, n g02Name) codegen.MethodCall {
	return func(ctx context.Context, params []byte) ([]byte, error) {
		if len(params) < 8 {
			x.c.Failf("method %q:%q received %d bytes", n.NS, n.M, len(params))
			return nil, nil
		}
		id := binary.BigEndian.Uint64(params)
		x.mu.Lock()
		r := x.runs[id]
		x.mu.Unlock()
		if r == nil {
			x.c.Failf("method %q:%q runs for a request nobody sent", n.NS, n.M)
			return nil, nil
		}
		r.mu.Lock()
		r.runs++
		r.eps = append(r.eps, ep)
		r.mu.Unlock()
		if !bytes.Equal(r.want.NS, n.NS) || !bytes.Equal(r.want.M, n.M) {
			x.c.Failf("call of %q:%q runs %q:%q", r.want.NS, r.want.M, n.NS, n.M)
		}
		if !bytes.Equal(params, r.params) {
			x.c.Failf("call of %q:%q receives other parameters", n.NS, n.M)
		}
		if r.delay > 0 {
			select {
			case <-time.After(r.delay):
			case <-ctx.Done():
				r.mu.Lock()
				r.early = true
				r.mu.Unlock()
			}
		}
		switch r.beh {
		case g2Fail:
			return []byte("not this"), errors.New(r.text)
		case g2Panic:
			panic("planned")
		}
		return x.result(r), nil
	}
}

func g02Addr(i int) string { return fmt.Sprintf("svc%d", i) }

func (x *g02St) start(i int) {
	cb := map[string]codegen.MethodCall{}
	for _, n := range x.reg {
		cb[codegen.FQMethod(string(n.NS), string(n.M))] = x.method(i, n)
	}
	mux := qrpc.NewServeMux()
	mux.Handle(g02Cmd, codegen.NewServiceHandler(g02Err, cb))
	x.srv[i] = x.w.serve(qrpc.ServerBinding{Addr: g02Addr(i), Handler: mux})
}

func (x *g02St) overlay(addr string, _ qrpc.DialConfig) (net.Conn, error) {
	x.mu.Lock()
	over := x.over
	x.mu.Unlock()
	if over {
		runtime.Goexit() // codegen.Client has no Close
	}
	c, far, err := x.w.net.Dial(addr, x.s.Link.opts(), x.s.Link.opts())
	if err != nil {
		return nil, err
	}
	x.mu.Lock()
	x.far[addr] = far
	x.dial[addr]++
	if x.over {
		far.Break()
	}
	x.mu.Unlock()
	x.c.Cleanup(func() { c.Break(); c.Close() })
	return c, nil
}

func (x *g02St) isReg(n g02Name) bool {
	for _, r := range x.reg {
		if bytes.Equal(r.NS, n.NS) && bytes.Equal(r.M, n.M) {
			return true
		}
	}
	return false
}

func (x *g02St) newRun(cl g02Call, n g02Name) *g02run {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.next++
	cl.Pay.N = clamp(cl.Pay.N, 0, 20000)
	r := &g02run{delay: time.Duration(clamp(cl.Delay, 0, 1000)) * time.Millisecond, beh: clamp(cl.Beh, 0, g2Behs-1), text: string(cl.Text), want: n}
	r.params = append(binary.BigEndian.AppendUint64(nil, x.next), cl.Pay.Bytes()...)
	x.runs[x.next] = r
	return r
}

func runG02(c *pbt.C, sc any) {
	s := sc.(*g02)
	s.N = clamp(s.N, 0, 4)
	s.Link.Buf = 1 << 20
	w := newWorld(c)
	x := &g02St{c: c, s: s, w: w, runs: map[uint64]*g02run{}, srv: make([]*Srv, s.N), far: map[string]*vnet.Conn{}, dial: map[string]int{}}
	for _, n := range s.Names {
		// a colon separates the two names
		n.NS, n.M = bytes.ReplaceAll(n.NS, []byte(":"), nil), bytes.ReplaceAll(n.M, []byte(":"), nil)
		if !x.isReg(n) {
			x.reg = append(x.reg, n)
		}
	}
	if len(x.reg) == 0 {
		x.reg = []g02Name{{}}
	}
	var addrs []string
	for i := 0; i < s.N; i++ {
		addrs = append(addrs, g02Addr(i))
		x.start(i)
	}
	c.Cleanup(func() {
		x.mu.Lock()
		x.over = true
		for _, f := range x.far {
			f.Break()
		}
		x.mu.Unlock()
		time.Sleep(10 * time.Second)
	})
	conf := qrpc.ConnectionConfig{OverlayNetwork: x.overlay}
	client := codegen.NewClient(g02Cmd, g02Err, addrs, conf)
	c.Sleep(time.Second)
	calls, strictCalls := 0, 0
	for pi, ph := range s.Phases {
		for _, f := range ph.Flip {
			if s.N == 0 {
				break
			}
			f = modn(f, s.N)
			if srv := x.srv[f]; srv != nil {
				x.srv[f] = nil
				c.MustDo("Shutdown", func() { srv.Shutdown() })
			} else {
				x.start(f)
			}
		}
		if len(ph.Flip) > 0 {
			c.Sleep(10 * time.Second)
		}
		up := 0
		for _, srv := range x.srv {
			if srv != nil {
				up++
			}
		}
		closers := 0
		names := make([]g02Name, len(ph.Calls))
		for i, cl := range ph.Calls {
			names[i] = x.reg[modn(cl.Name, len(x.reg))]
			if cl.Unknown && !x.isReg(cl.Other) {
				names[i] = cl.Other
				closers++
			} else if b := clamp(cl.Beh, 0, g2Behs-1); b == g2Fail {
				closers++
			}
		}
		strict := closers == 0 || len(ph.Calls) == 1
		before := map[string]int{}
		x.mu.Lock()
		for k, v := range x.dial {
			before[k] = v
		}
		x.mu.Unlock()
		var wg sync.WaitGroup
		for i, cl := range ph.Calls {
			r := x.newRun(cl, names[i])
			unknown := !x.isReg(names[i])
			what := fmt.Sprintf("phase %d, call %d of %q:%q", pi, i, names[i].NS, names[i].M)
			calls++
			wg.Add(1)
			c.Go(func() {
				defer wg.Done()
				time.Sleep(time.Duration(clamp(cl.At, 0, 100)) * time.Millisecond)
				ctx := context.Background()
				wait, timeout := r.delay, false
				if unknown {
					wait = 0
				}
				if cl.Ctx > 0 {
					d := time.Duration(clamp(cl.Ctx, 1, 1000))*time.Millisecond + 500*time.Microsecond
					var cancel func()
					ctx, cancel = context.WithTimeout(ctx, d)
					defer cancel()
					if d < wait {
						wait, timeout = d, true
					}
				}
				t0 := c.Now()
				var (
					out []byte
					err error
				)
				if !c.Do(pbt.Long, func() {
					out, err = client.Request(ctx, string(names[i].NS), string(names[i].M), append([]byte(nil), r.params...))
				}) {
					c.Failf("%s hangs", what)
					return
				}
				took := c.Now() - t0
				r.mu.Lock()
				runs := r.runs
				r.mu.Unlock()
				if err == nil && (unknown || r.beh == g2Fail || r.beh == g2Panic) {
					c.Failf("%s succeeded", what)
				}
				if err == nil && !bytes.Equal(out, x.result(r)) {
					c.Failf("%s: %d bytes which are not its result", what, len(out))
				}
				if err != nil && len(out) > 0 {
					c.Failf("%s: an error and a result", what)
				}
				if unknown && runs > 0 || runs > 1 || err == nil && runs != 1 {
					c.Failf("%s: %d runs, error %v", what, runs, err)
				}
				conn := err == codegen.ErrServiceNA || err == qrpc.ErrStreamClosed || err != nil && !strict && !timeout
				switch {
				case up == 0:
					if err != codegen.ErrServiceNA {
						c.Failf("%s: %v although no endpoint is up", what, err)
					}
					return
				case !strict && conn:
					return // the connection may have been closed by another call
				case timeout:
					if !errors.Is(err, context.DeadlineExceeded) {
						c.Failf("%s: %v instead of the context's error", what, err)
					}
				case unknown:
					if err == nil || conn {
						c.Failf("%s: no such method, but the error is %v", what, err)
					}
				case r.beh == g2Fail:
					if err == nil || err.Error() != r.text {
						c.Failf("%s: error %v instead of the method's", what, err)
					}
				case r.beh == g2Panic:
					if err != qrpc.ErrStreamClosed {
						c.Failf("%s: error %v although the method panicked", what, err)
					}
				case err != nil:
					c.Failf("%s: %v", what, err)
				}
				if took != wait {
					c.Failf("%s took %v instead of %v", what, took, wait)
				}
				if strict && !unknown && runs != 1 {
					c.Failf("%s: %d runs", what, runs)
				}
				if timeout && strict {
					time.Sleep(100 * time.Microsecond)
					r.mu.Lock()
					if !r.early {
						c.Failf("%s: the method's context goes on after the caller's ended", what)
					}
					r.mu.Unlock()
				}
			})
		}
		if !c.Do(2*pbt.Long, wg.Wait) {
			c.Fatalf("phase %d hangs", pi)
		}
		c.Sleep(5 * time.Second)
		if c.Failed() {
			return
		}
		if strict {
			strictCalls += len(ph.Calls)
			redials := 0
			x.mu.Lock()
			for k, v := range x.dial {
				redials += v - before[k]
			}
			x.mu.Unlock()
			want := 0
			if closers > 0 && up > 0 {
				want = 1
				c.Label("error closes the connection")
			}
			if redials != want {
				c.Fatalf("phase %d: %d connections were closed, not %d", pi, redials, want)
			}
		} else {
			c.Label("concurrent errors")
		}
		if up == 0 {
			c.Label("no endpoint up")
		} else if up < s.N {
			c.Label("some endpoints up")
		}
	}
	for i, e := range s.Raw {
		x.rawCall(i, e)
	}
	x.wireCalls()
	if strictCalls >= 3 && len(x.reg) >= 2 {
		c.NonTrivial()
	}
}

// rawCall sends a request made by the reference encoder, or garbage
func (x *g02St) rawCall(i int, e g02Enc) {
	c := x.c
	var ups []int
	for j, srv := range x.srv {
		if srv != nil {
			ups = append(ups, j)
		}
	}
	n := e.Name
	if e.Reg >= 0 {
		n = x.reg[modn(e.Reg, len(x.reg))]
	}
	r := x.newRun(g02Call{Pay: e.Pay}, n)
	b := g02Encode(n, r.params, append([]int(nil), e.Ord...))
	what := fmt.Sprintf("request %d for %q:%q", i, n.NS, n.M)
	garbage := false
	if e.Cut > 0 {
		k := e.Cut % (len(b) + 1)
		if e.Cut%2 == 0 {
			b = b[:k]
		} else if k < len(b) {
			b[k] ^= byte(1 << (e.Cut % 8))
		}
		garbage = true
		c.Label("damaged request")
	}
	var req pb.RpcRequest
	err := req.Unmarshal(b) // must not panic
	if !garbage {
		if err != nil || req.NS != string(n.NS) || req.Method != string(n.M) || !bytes.Equal(req.Params, r.params) {
			c.Fatalf("%s (%x): decoded as %q:%q, %d bytes, error %v", what, b, req.NS, req.Method, len(req.Params), err)
		}
		c.Label("reference encoding")
	}
	if err == nil {
		b2, err := req.Marshal()
		var again pb.RpcRequest
		if err != nil || again.Unmarshal(b2) != nil || again.NS != req.NS || again.Method != req.Method || !bytes.Equal(again.Params, req.Params) {
			c.Fatalf("%s: encoded again: %v %v", what, err, b2)
		}
		if n2, p2, err2 := g02Decode(b2); !garbage && (err2 != nil || string(n2.NS) != req.NS || string(n2.M) != req.Method || !bytes.Equal(p2, req.Params)) {
			c.Fatalf("%s: encoded again differently: %v", what, err2)
		}
	}
	if len(ups) == 0 || garbage && err == nil {
		return // what is left may be any request
	}
	p := x.w.rawClient(g02Addr(ups[modn(e.Ep, len(ups))]), NetOpt{})
	p.Send(wire.Frame{ID: 1, Flags: wire.NB, Cmd: g02Cmd, Payload: b})
	if !p.WaitN(1, pbt.Long) {
		c.Fatalf("%s is not answered", what)
	}
	f := p.Frames()[0]
	ok := !garbage && x.isReg(n)
	r.mu.Lock()
	runs := r.runs
	r.mu.Unlock()
	if ok {
		if f.Cmd != g02Cmd || !bytes.Equal(f.Payload, x.result(r)) || runs != 1 {
			c.Fatalf("%s: answer %v, %d runs", what, f, runs)
		}
	} else {
		if f.Cmd != g02Err || len(f.Payload) == 0 || runs != 0 {
			c.Fatalf("%s: answer %v to a bad request, %d runs", what, f, runs)
		}
		if !p.WaitEnd(pbt.Long) {
			c.Fatalf("%s: the connection goes on", what)
		}
	}
	p.conn.Close()
}

// wireCalls checks the client against a reference server
func (x *g02St) wireCalls() {
	c := x.c
	if len(x.s.Wire) == 0 {
		return
	}
	ch := x.w.rawServer("ref")
	client := codegen.NewClient(g02Cmd, g02Err, []string{"ref"}, qrpc.ConnectionConfig{OverlayNetwork: x.overlay})
	p := x.w.accept(ch)
	for i, cl := range x.s.Wire {
		n := cl.Other
		r := x.newRun(cl, n)
		what := fmt.Sprintf("wire call %d of %q:%q", i, n.NS, n.M)
		var (
			out []byte
			err error
		)
		done := c.Go(func() { out, err = client.Request(context.Background(), string(n.NS), string(n.M), r.params) })
		if !p.WaitN(i+1, pbt.Long) {
			c.Fatalf("%s was not sent", what)
		}
		f := p.Frames()[i]
		n2, p2, derr := g02Decode(f.Payload)
		if derr != nil || f.Cmd != g02Cmd || f.Flags&^wire.NB != 0 || !bytes.Equal(n2.NS, n.NS) || !bytes.Equal(n2.M, n.M) || !bytes.Equal(p2, r.params) {
			c.Fatalf("%s was sent as %v (%v)", what, f, derr)
		}
		reply := wire.Frame{ID: f.ID, Cmd: g02Cmd, Payload: cl.Text}
		if cl.Beh == g2Fail {
			reply.Cmd = g02Err
		}
		p.Send(reply)
		if !c.WaitDone(done, pbt.Long) {
			c.Fatalf("%s hangs", what)
		}
		if cl.Beh == g2Fail {
			if err == nil || err.Error() != string(cl.Text) || out != nil {
				c.Fatalf("%s: result %q, error %v although %q was sent as the error", what, out, err, cl.Text)
			}
		} else if err != nil || !bytes.Equal(out, cl.Text) {
			c.Fatalf("%s: result %q, error %v instead of %q", what, out, err, cl.Text)
		}
	}
	c.Label("reference server")
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "G02",
		Title: "service calls",
		Rule:  "generated: up to three endpoints serving methods with arbitrary byte-string names (without the separating colon), phases of concurrent calls of registered and unregistered names (colons, prefixes, swapped names) with methods that answer, fail, panic, take their time or meet the end of the caller's context, endpoints going down and up, requests made by a reference protobuf encoder (field orders, repeated and unknown fields) or damaged, and calls against a reference server; oracle: table of the calls made: exactly the named method runs, once, with the exact parameters; result or error text reach the caller at the right virtual time; errors close exactly that connection. Non-trivial: at least three calls in phases with exact oracle and two registered methods",
		Gen:   genG02, New: func() any { return &g02{} }, Run: runG02,
		Quick:    pbt.Budget{Cases: 40000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1500000, MaxSec: 900},
	})
}
