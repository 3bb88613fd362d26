package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"
	"time"

	"verif/pbt"
	"verif/vnet"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// ---- Q01: the frame size limit

type q01Frame struct {
	Len    int // declared length minus the limit, or the length itself with Abs
	Abs    bool
	Body   int // bytes of the body sent with an offending frame
	Cmd    int
	Kind   int // 0 blocking, 1 non-blocking, 2 one more frame of a stream
	Gap    int // ticks before it
	Pieces int
}

type q01Conn struct {
	Frames []q01Frame
	Link   Link
}

type q01 struct {
	Limit int // 0: the default
	Conns []q01Conn
}

func genQ01(r *pbt.R) any {
	s := &q01{Limit: pbt.Pick(r, 12+r.Intn(6), r.Range(12, 100), r.Range(100, 20000))}
	if r.P(1, 300) {
		s.Limit = 0
	} else if r.P(1, 20) {
		s.Limit = r.Range(1, 13)
	}
	for i := r.N(1, 3); i > 0; i-- {
		var cn q01Conn
		cn.Link = genLink(r, 40000)
		for j := r.Len(6); j > 0; j-- {
			f := q01Frame{Cmd: r.Intn(1 << 24), Kind: r.W(2, 3, 2), Gap: r.Intn(3), Pieces: r.N(0, 3)}
			switch r.W(6, 3, 3, 2, 1, 1) {
			case 0: // fine
				f.Len, f.Abs = 12+r.Len(3000), true
				if s.Limit > 0 && s.Limit < 3000 {
					f.Len = min(f.Len, max(s.Limit, 12))
				}
			case 1:
				f.Len = 0
			case 2:
				f.Len = 1
				f.Body = pbt.Pick(r, 0, 0, r.Intn(50), 1<<30)
			case 3:
				f.Len = r.Range(-3, 3)
				f.Body = pbt.Pick(r, 0, r.Intn(50))
			case 4: // shorter than a header
				f.Len, f.Abs = r.Intn(12), true
				f.Body = pbt.Pick(r, 0, r.Intn(12))
			default: // huge
				f.Len, f.Abs = pbt.Pick(r, 1<<31-1, 1<<31, 1<<32-1, 1<<24, 100<<20), true
				f.Body = pbt.Pick(r, 0, r.Intn(50))
			}
			cn.Frames = append(cn.Frames, f)
		}
		s.Conns = append(s.Conns, cn)
	}
	return s
}

type q01Seen struct {
	cmd  uint32
	body []byte
}

func runQ01(c *pbt.C, sc any) {
	s := sc.(*q01)
	w := newWorld(c)
	limit := s.Limit
	if limit <= 0 {
		limit = qrpc.DefaultMaxFrameSize
	}
	const tick = time.Millisecond
	var mu sync.Mutex
	seen := map[string][]q01Seen{}
	ended := map[string]int{} // streams which ended
	b := qrpc.ServerBinding{MaxFrameSize: max(s.Limit, 0)}
	b.Handler = qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		a := f.ConnectionInfo().RemoteAddr()
		mu.Lock()
		seen[a] = append(seen[a], q01Seen{uint32(f.Cmd), append([]byte(nil), f.Payload...)})
		mu.Unlock()
		if f.Flags&qrpc.StreamFlag != 0 {
			for {
				x := <-f.FrameCh()
				if x == nil {
					break
				}
				mu.Lock()
				seen[a] = append(seen[a], q01Seen{uint32(x.Cmd), append([]byte(nil), x.Payload...)})
				mu.Unlock()
			}
			mu.Lock()
			ended[a]++
			mu.Unlock()
		}
	})
	srv := w.serve(b)
	type res struct {
		p       *Peer
		want    []q01Seen
		bad     time.Duration // when the offending header was complete
		end     time.Duration
		streams int
	}
	recs := make([]*res, len(s.Conns))
	wait := make([]<-chan struct{}, len(s.Conns))
	for i := range s.Conns {
		i, cn := i, &s.Conns[i]
		r := &res{bad: -1, end: -1}
		recs[i] = r
		o := cn.Link.opts()
		o.WStall = nil
		if limit > 50000 {
			o = vnet.Opts{}
		}
		r.p = w.rawClient(srv.addrs[0], NetOpt{C2S: o})
		c.Go(func() {
			if r.p.WaitEnd(10 * time.Hour) {
				r.end = c.Now()
			}
		})
		wait[i] = c.Go(func() {
			stream := false // stream 1 has been started
			for fi, f := range cn.Frames {
				time.Sleep(time.Duration(clamp(f.Gap, 0, 1000)) * 2 * tick)
				n := int64(f.Len)
				if !f.Abs {
					n += int64(limit)
				}
				if n < 0 {
					n = 0
				}
				if n > 1<<32-1 {
					n = 1<<32 - 1
				}
				bad := n > int64(limit) || n < 12
				h := wire.Frame{ID: uint64(2*fi + 3), Cmd: uint32(f.Cmd) & 0xffffff}
				switch f.Kind {
				case 1:
					h.Flags = wire.NB
				case 2:
					h.Flags = wire.NB | wire.Stream
					h.ID = 1
				}
				var msg []byte
				if bad {
					msg = wire.Encode(h)
					binary.BigEndian.PutUint32(msg, uint32(n))
					body := min(int64(clamp(f.Body, 0, 1<<30)), max(n-12, 0), 1<<20)
					msg = append(msg, make([]byte, body)...)
				} else {
					h.Payload = pbt.Bytes(int(n)-12, uint64(fi))
					msg = wire.Encode(h)
					r.want = append(r.want, q01Seen{h.Cmd, h.Payload})
					if f.Kind == 2 && !stream {
						stream = true
						r.streams = 1
					}
				}
				// in pieces
				k := clamp(f.Pieces, 0, 10) + 1
				for len(msg) > 0 {
					m := (len(msg) + k - 1) / k
					k--
					err := r.p.Raw(msg[:m])
					if err != nil {
						break
					}
					msg = msg[m:]
				}
				if bad {
					r.bad = c.Now()
					// whatever follows is lost
					time.Sleep(tick)
					for k := 0; k < 3; k++ {
						if r.p.Send(wire.Frame{ID: 999, Flags: wire.NB, Cmd: 999}) != nil {
							break
						}
					}
					return
				}
			}
		})
	}
	for i := range wait {
		if !c.WaitDone(wait[i], time.Hour) {
			c.Fatalf("client %d cannot send", i)
		}
	}
	c.Sleep(time.Minute)
	c.Quiesce()
	mu.Lock()
	defer mu.Unlock()
	for i, r := range recs {
		a := r.p.conn.LocalAddr().String()
		lat := s.Conns[i].Link.opts().Lat
		if limit > 50000 {
			lat = 0
		}
		if r.bad >= 0 {
			if r.end < 0 {
				c.Fatalf("connection %d: limit %d, the offending frame did not close it", i, limit)
			}
			if r.end > r.bad+lat+tick {
				c.Fatalf("connection %d: closed %v after the offending header", i, r.end-r.bad)
			}
		} else if r.end >= 0 {
			c.Fatalf("connection %d: closed although every frame is within the limit of %d", i, limit)
		}
		got := seen[a]
		// a stream's handler and the others run side by side: compare as sets, which
		// is exact since every frame was given its own payload
		if err := sameSeen(got, r.want); err != nil {
			c.Fatalf("connection %d, limit %d: %v", i, limit, err)
		}
		if r.bad >= 0 && ended[a] != r.streams {
			c.Fatalf("connection %d: its stream handler did not end", i)
		}
		for _, x := range r.want {
			if len(x.body)+12 == limit {
				c.Label("exactly the limit")
			}
		}
		if r.bad >= 0 {
			c.Label("offending")
			if len(r.want) > 0 || len(recs) > 1 {
				c.NonTrivial()
			}
		}
	}
	if s.Limit <= 0 {
		c.Label("default limit")
	}
}

func sameSeen(got, want []q01Seen) error {
	left := append([]q01Seen(nil), want...)
next:
	for _, g := range got {
		for i, x := range left {
			if x.cmd == g.cmd && bytes.Equal(x.body, g.body) {
				left = append(left[:i], left[i+1:]...)
				continue next
			}
		}
		return fmt.Errorf("handled cmd=%x with %s, which is not among the frames left", g.cmd, short(g.body))
	}
	if len(left) > 0 {
		return fmt.Errorf("%d frames were not handled, first cmd=%x length %d", len(left), left[0].cmd, len(left[0].body)+12)
	}
	return nil
}

// ---- Q02: the in-flight limit

type q02Req struct {
	T, Kind, Dur int // Kind: 0 blocking, 1 non-blocking, 2 streamed
	End          int // 0 answers, 1 does not, 2 panics
}

type q02 struct {
	Limit, RCh int
	Conns      [][]q02Req
}

func genQ02(r *pbt.R) any {
	s := &q02{Limit: r.Range(1, 4), RCh: pbt.Pick(r, 0, 0, 1, 4)}
	span := pbt.Pick(r, 3, 10, 30)
	dur := pbt.Pick(r, 2, 5, 20)
	for i := r.N(1, 3); i > 0; i-- {
		var q []q02Req
		for j := r.N(1, 14); j > 0; j-- {
			q = append(q, q02Req{T: r.Intn(span), Kind: r.W(2, 4, 2), Dur: r.Intn(dur), End: r.W(3, 1, 1)})
		}
		s.Conns = append(s.Conns, q)
	}
	return s
}

func runQ02(c *pbt.C, sc any) {
	s := sc.(*q02)
	limit := clamp(s.Limit, 1, 100)
	w := newWorld(c)
	const tick = time.Millisecond
	var mu sync.Mutex
	starts := map[int]time.Duration{}
	ends := map[int]time.Duration{}
	reqs := make([][]q02Req, len(s.Conns))
	for i := range s.Conns {
		reqs[i] = s.Conns[i]
		if len(reqs[i]) > 16 {
			reqs[i] = reqs[i][:16]
		}
	}
	dur := func(ci, qi int) time.Duration {
		return time.Duration(2*clamp(reqs[ci][qi].Dur, 0, 1000)+1)*tick + 1<<qi
	}
	b := qrpc.ServerBinding{MaxInboundInflightStreamPerConn: int32(limit), ReadFrameChSize: clamp(s.RCh, 0, 50)}
	b.Handler = qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		k := int(f.Cmd)
		if k>>8 >= len(reqs) || k&0xff >= len(reqs[k>>8]) {
			c.Failf("handler for %v", toWire((*qrpc.Frame)(f)))
			return
		}
		mu.Lock()
		if _, ok := starts[k]; ok {
			c.Failf("handled twice")
		}
		starts[k] = c.Now()
		mu.Unlock()
		q := reqs[k>>8][k&0xff]
		time.Sleep(dur(k>>8, k&0xff))
		mu.Lock()
		ends[k] = c.Now()
		mu.Unlock()
		switch q.End {
		case 0:
			wr.StartWrite(f.RequestID, f.Cmd, 0)
			wr.EndWrite()
		case 2:
			panic("planned")
		}
	})
	srv := w.serve(b)
	base := c.Now()
	at := func(n int) time.Duration { return base + time.Duration(n)*tick }
	peers := make([]*Peer, len(reqs))
	closed := make([]time.Duration, len(reqs))
	last := 0
	for i := range reqs {
		i := i
		peers[i] = w.rawClient(srv.addrs[0], NetOpt{})
		closed[i] = -1
		p := peers[i]
		c.Go(func() {
			if p.WaitEnd(10 * time.Hour) {
				mu.Lock()
				closed[i] = c.Now()
				mu.Unlock()
			}
		})
		// in order of time, then of index
		byT := map[int][]int{}
		for qi, q := range reqs[i] {
			t := 2 * clamp(q.T, 0, 1000)
			byT[t] = append(byT[t], qi)
			last = max(last, t)
		}
		c.Go(func() {
			for _, t := range sortedKeys(byT) {
				if d := at(t) - c.Now(); d > 0 {
					time.Sleep(d)
				}
				var fs []wire.Frame
				for _, qi := range byT[t] {
					f := wire.Frame{ID: uint64(2*qi + 1), Cmd: uint32(i<<8 | qi)}
					switch reqs[i][qi].Kind {
					case 1:
						f.Flags = wire.NB
					case 2:
						f.Flags = wire.NB | wire.Stream | wire.StreamEnd
					}
					fs = append(fs, f)
				}
				p.Send(fs...)
			}
		})
	}
	total := time.Duration(0)
	for i := range reqs {
		for qi := range reqs[i] {
			total += dur(i, qi)
		}
	}
	c.Sleep(at(last) - c.Now() + total + time.Minute)
	c.Quiesce()
	mu.Lock()
	defer mu.Unlock()
	for i := range reqs {
		// the model: the reader takes requests one by one
		type arr struct {
			t  time.Duration
			qi int
		}
		var as []arr
		byT := map[int][]int{}
		for qi, q := range reqs[i] {
			byT[2*clamp(q.T, 0, 1000)] = append(byT[2*clamp(q.T, 0, 1000)], qi)
		}
		for _, t := range sortedKeys(byT) {
			for _, qi := range byT[t] {
				as = append(as, arr{at(t), qi})
			}
		}
		free := base
		var running []time.Duration // ends of what occupies a place
		wantClose := time.Duration(-1)
		want := map[int]time.Duration{}
		full := false
		for _, a := range as {
			t := max(a.t, free)
			k := i<<8 | a.qi
			if reqs[i][a.qi].Kind == 0 {
				want[k] = t
				free = t + dur(i, a.qi)
				continue
			}
			var now []time.Duration
			for _, e := range running {
				if e > t {
					now = append(now, e)
				}
			}
			running = now
			if len(running) >= limit {
				wantClose = t
				break
			}
			want[k] = t
			running = append(running, t+dur(i, a.qi))
			full = full || len(running) == limit
		}
		if closed[i] != wantClose && !(wantClose >= 0 && closed[i] >= wantClose && closed[i] < wantClose+time.Microsecond) {
			c.Fatalf("connection %d, limit %d: closed at %v, expected %v (-1ns: never)", i, limit, closed[i]-base, wantClose-base)
		}
		for qi := range reqs[i] {
			k := i<<8 | qi
			g, ok := starts[k]
			e, exp := want[k]
			if ok != exp || ok && g != e {
				c.Fatalf("connection %d request %d (%+v): handled %v at %v, expected %v at %v", i, qi, reqs[i][qi], ok, g-base, exp, e-base)
			}
			if ok && ends[k] != g+dur(i, qi) {
				c.Fatalf("connection %d request %d: its handler did not finish", i, qi)
			}
		}
		switch {
		case wantClose >= 0:
			c.Label("exceeded")
			c.NonTrivial()
		case full:
			c.Label("exactly at the limit")
			c.NonTrivial()
		}
	}
}

// ---- Q03: the rate limit

type q03 struct {
	Limit int
	Conns [][]int // gaps in milliseconds
	Kinds int
}

func genQ03(r *pbt.R) any {
	s := &q03{Limit: pbt.Pick(r, 1, 2, r.Range(1, 20)), Kinds: r.Intn(1 << 16)}
	for i := r.N(1, 3); i > 0; i-- {
		var gs []int
		mean := pbt.Pick(r, 900, 1100, 1500, 500) / s.Limit
		for j := r.N(1, 50); j > 0; j-- {
			g := 0
			switch r.W(4, 2, 2, 1) {
			case 0:
				g = mean
			case 1:
				g = r.Intn(2*mean + 2)
			case 2:
				g = 0
			case 3:
				g = pbt.Pick(r, 999, 1000, 1001, 2000)
			}
			gs = append(gs, g)
		}
		s.Conns = append(s.Conns, gs)
	}
	return s
}

func runQ03(c *pbt.C, sc any) {
	s := sc.(*q03)
	limit := clamp(s.Limit, 1, 1000)
	w := newWorld(c)
	var mu sync.Mutex
	handled := map[int]bool{}
	note := func(cmd qrpc.Cmd) {
		mu.Lock()
		if handled[int(cmd)] {
			c.Failf("handled twice")
		}
		handled[int(cmd)] = true
		mu.Unlock()
	}
	b := qrpc.ServerBinding{MaxInboundFramePerSecond: limit}
	b.Handler = qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		note(f.Cmd)
		wr.StartWrite(f.RequestID, f.Cmd, 0)
		wr.EndWrite()
	})
	b.SubFunc = func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { note(f.Cmd) }
	srv := w.serve(b)
	type res struct {
		p    *Peer
		want map[int]bool
		end  time.Duration
	}
	recs := make([]*res, len(s.Conns))
	var ws []<-chan struct{}
	for i := range s.Conns {
		i := i
		r := &res{want: map[int]bool{}, end: -1, p: w.rawClient(srv.addrs[0], NetOpt{})}
		recs[i] = r
		ws = append(ws, c.Go(func() {
			sec, n := int64(-1), 0
			for k, g := range s.Conns[i] {
				time.Sleep(time.Duration(clamp(g, 0, 100000)) * time.Millisecond)
				var fl byte
				switch (s.Kinds >> (k % 14)) & 3 {
				case 1:
					fl = wire.NB
				case 2:
					fl = wire.NB | wire.Stream | wire.StreamEnd
				case 3:
					fl = wire.Push
				}
				if now := time.Now().Unix(); now != sec {
					sec, n = now, 0
				}
				n++
				if n <= limit && r.end < 0 {
					r.want[i<<8|k] = true
				} else if r.end < 0 {
					r.end = c.Now()
				}
				err := r.p.Send(wire.Frame{ID: uint64(2*k + 1), Flags: fl, Cmd: uint32(i<<8 | k)})
				if err != nil && r.end < 0 {
					c.Failf("connection %d was closed before request %d of second %d although %d are allowed", i, n, sec, limit)
				}
				if err != nil {
					return
				}
				if r.end < 0 && n == limit {
					c.Label("at the limit")
				}
				// let it be read: what arrives later is read later
				c.WaitDone(nil, time.Microsecond)
				if r.end >= 0 && !r.p.WaitEnd(time.Microsecond) {
					c.Failf("connection %d was not closed at request %d of one second, %d are allowed", i, n, limit)
					return
				}
			}
		}))
	}
	for _, ch := range ws {
		if !c.WaitDone(ch, 24*time.Hour) {
			c.Fatalf("a client hangs")
		}
	}
	c.Sleep(time.Minute)
	c.Quiesce()
	mu.Lock()
	defer mu.Unlock()
	for i, r := range recs {
		if (r.end >= 0) != r.p.Ended() {
			c.Fatalf("connection %d: closed %v, expected %v", i, r.p.Ended(), r.end >= 0)
		}
		for k := range s.Conns[i] {
			if handled[i<<8|k] != r.want[i<<8|k] {
				c.Fatalf("connection %d request %d: handled %v, expected %v", i, k, handled[i<<8|k], r.want[i<<8|k])
			}
		}
		if r.end >= 0 {
			c.Label("exceeded")
			c.NonTrivial()
		} else if len(r.want) > limit {
			c.NonTrivial()
		}
	}
}

// ---- Q04: read timeouts

type q04Seg struct {
	Gap   int // quarters of a second
	Bytes int // 0: up to the end of the current part
}

type q04Conn struct {
	Frames []Pay
	Segs   []q04Seg
	Hold   []int // how long the handler of the n-th frame holds the reader, quarters of a second
	Set    [][2]int
}

type q04 struct {
	Client  bool
	Timeout int
	Conns   []q04Conn
}

func genQ04(r *pbt.R) any {
	s := &q04{Client: r.P(1, 2), Timeout: pbt.Pick(r, 0, 1, 2, 3, 4, 7, -1)}
	for i := r.N(1, 2); i > 0; i-- {
		var cn q04Conn
		for j := r.N(1, 5); j > 0; j-- {
			cn.Frames = append(cn.Frames, Pay{N: pbt.Pick(r, 0, r.Intn(10), r.Intn(4000)), S: uint64(j)})
			if r.P(1, 4) {
				cn.Hold = append(cn.Hold, r.Intn(12))
			} else {
				cn.Hold = append(cn.Hold, 0)
			}
		}
		for j := r.N(1, 12); j > 0; j-- {
			cn.Segs = append(cn.Segs, q04Seg{Gap: pbt.Pick(r, 0, r.Intn(4), r.Intn(4*max(s.Timeout, 1)+3)), Bytes: pbt.Pick(r, 0, 0, r.Intn(20), r.Intn(2000))})
		}
		if r.P(1, 3) && !s.Client {
			for j := r.N(1, 3); j > 0; j-- {
				cn.Set = append(cn.Set, [2]int{r.Intn(20), pbt.Pick(r, 0, 1, 2, 5)})
			}
		}
		s.Conns = append(s.Conns, cn)
	}
	return s
}

func runQ04(c *pbt.C, sc any) {
	s := sc.(*q04)
	w := newWorld(c)
	const q = 250 * time.Millisecond
	timeout := clamp(s.Timeout, -1, 100)
	type res struct {
		p       *Peer
		handled []time.Duration
		end     time.Duration
		peerEnd time.Duration
		sent    []time.Duration // arrival of every byte, by segments
		upto    []int
		sets    [][2]time.Duration
		base    time.Duration
	}
	var mu sync.Mutex
	recs := make([]*res, len(s.Conns))
	byAddr := map[string]*res{}
	idx := map[*res]int{}
	hold := func(r *res, cmd int) {
		mu.Lock()
		r.handled = append(r.handled, c.Now())
		cn := &s.Conns[idx[r]]
		mu.Unlock()
		if cmd < len(cn.Hold) {
			time.Sleep(time.Duration(clamp(cn.Hold[cmd], 0, 1000)) * q)
		}
	}
	var srv *Srv
	if !s.Client {
		srv = w.serve(qrpc.ServerBinding{DefaultReadTimeout: timeout, Handler: qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
			mu.Lock()
			r := byAddr[f.ConnectionInfo().RemoteAddr()]
			mu.Unlock()
			hold(r, int(f.Cmd))
			wr.StartWrite(f.RequestID, f.Cmd, 0)
			wr.EndWrite()
		})})
	}
	maxEnd := time.Duration(0)
	for i := range s.Conns {
		i, cn := i, &s.Conns[i]
		if len(cn.Segs) > 16 {
			cn.Segs = cn.Segs[:16]
		}
		r := &res{end: -1}
		recs[i] = r
		mu.Lock()
		idx[r] = i
		mu.Unlock()
		if s.Client {
			addr := fmt.Sprint("r", i)
			acc := w.rawServer(addr)
			conn, _, _ := w.dial(addr, qrpc.ConnectionConfig{ReadTimeout: timeout}, func(_ *qrpc.Connection, f *qrpc.Frame) { hold(r, int(f.Cmd)) }, NetOpt{})
			r.p = w.accept(acc)
			c.Go(func() {
				<-conn.Done()
				mu.Lock()
				r.end = c.Now()
				mu.Unlock()
			})
		} else {
			cc, _, err := w.net.Dial(srv.addrs[0], vnet.Opts{}, vnet.Opts{})
			if err != nil {
				c.Fatalf("%v", err)
			}
			mu.Lock()
			byAddr[cc.LocalAddr().String()] = r
			mu.Unlock()
			r.p = w.peer(cc)
			r.p.read()
			c.Quiesce()
		}
		r.base = c.Now()
		p := r.p
		c.Go(func() {
			if p.WaitEnd(10 * time.Hour) {
				mu.Lock()
				if r.peerEnd = c.Now(); !s.Client {
					r.end = r.peerEnd
				}
				mu.Unlock()
			}
		})
		var all []byte
		bounds := []int{}
		for fi, f := range cn.Frames {
			x := wire.Frame{ID: uint64(2*fi + 1), Cmd: uint32(fi), Payload: Pay{N: clamp(f.N, 0, 100000), S: f.S}.Bytes()}
			if s.Client {
				x.Flags = wire.Push
			}
			bounds = append(bounds, len(all)+16, len(all)+16+len(x.Payload))
			all = append(all, wire.Encode(x)...)
		}
		// when the bytes arrive; the offsets make all times different from
		// all deadlines
		t, off := r.base, 0
		for si, sg := range cn.Segs {
			t += time.Duration(clamp(sg.Gap, 0, 1000))*q + time.Microsecond<<si
			n := sg.Bytes
			if n <= 0 {
				for _, b := range bounds {
					if b > off {
						n = b - off
						break
					}
				}
			}
			n = min(n, len(all)-off)
			if n <= 0 {
				break
			}
			from, to, at := off, off+n, t
			off = to
			r.sent = append(r.sent, at)
			r.upto = append(r.upto, to)
			c.Go(func() {
				time.Sleep(at - c.Now())
				p.Raw(all[from:to])
			})
		}
		maxEnd = max(maxEnd, t)
		if !s.Client {
			for k, st := range cn.Set {
				st := st
				at := r.base + time.Duration(clamp(st[0], 0, 1000))*q + 100*time.Millisecond + time.Duration(k)*time.Nanosecond
				v := clamp(st[1], 0, 100)
				r.sets = append(r.sets, [2]time.Duration{at, time.Duration(v)})
				var ci *qrpc.ConnectionInfo
				srv.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool {
					if x.RemoteAddr() == p.conn.LocalAddr().String() {
						ci = x
					}
					return true
				})
				c.Go(func() {
					time.Sleep(at - c.Now())
					ci.ReaderConfig().SetReadTimeout(v)
				})
			}
		}
	}
	holds := time.Duration(0)
	for _, cn := range s.Conns {
		for _, h := range cn.Hold {
			holds += time.Duration(clamp(h, 0, 1000)) * q
		}
	}
	c.Sleep(maxEnd - c.Now() + holds + 5*time.Minute)
	c.Quiesce()
	mu.Lock()
	defer mu.Unlock()
	for i, r := range recs {
		cn := &s.Conns[i]
		// the model
		arrival := func(upto int) time.Duration {
			for k, n := range r.upto {
				if n >= upto {
					return r.sent[k]
				}
			}
			return 1 << 62
		}
		current := func(t time.Duration) time.Duration {
			v, best := time.Duration(timeout), time.Duration(-1)
			for _, x := range r.sets {
				if x[0] <= t && x[0] > best {
					v, best = x[1], x[0]
				}
			}
			return v * time.Second
		}
		now, off := r.base, 0
		wantEnd := time.Duration(-1)
		var want []time.Duration
		read := func(n int, limit time.Duration) bool {
			if n == 0 {
				return true
			}
			to := current(now)
			if limit > 0 && to > limit {
				to = limit
			}
			a := arrival(off + n)
			if to > 0 && a > now+to {
				wantEnd = now + to
				return false
			}
			if a == 1<<62 {
				wantEnd = -2 // waits forever
				return false
			}
			off += n
			now = max(now, a)
			return true
		}
		for fi := 0; ; fi++ {
			if !read(16, 0) {
				break
			}
			if fi >= len(cn.Frames) {
				break
			}
			if !read(clamp(cn.Frames[fi].N, 0, 100000), 3*time.Second) {
				break
			}
			want = append(want, now)
			if fi < len(cn.Hold) {
				now += time.Duration(clamp(cn.Hold[fi], 0, 1000)) * q
			}
		}
		if len(r.handled) != len(want) {
			c.Fatalf("connection %d: %d frames handled, expected %d; ended at %v, expected %v", i, len(r.handled), len(want), r.end-r.base, wantEnd-r.base)
		}
		for k := range want {
			if d := r.handled[k] - want[k]; d < 0 || d > 100*time.Microsecond {
				c.Fatalf("connection %d frame %d: handled at %v, expected %v", i, k, r.handled[k]-r.base, want[k]-r.base)
			}
		}
		switch {
		case wantEnd < 0 && r.end >= 0:
			c.Fatalf("connection %d, timeout %d s: closed at %v although its frames arrive in time", i, timeout, r.end-r.base)
		case wantEnd >= 0 && r.end < 0:
			c.Fatalf("connection %d, timeout %d s: not closed, expected at %v", i, timeout, wantEnd-r.base)
		case wantEnd >= 0 && (r.end < wantEnd || r.end > wantEnd+time.Millisecond || r.peerEnd < wantEnd || r.peerEnd > wantEnd+time.Millisecond):
			c.Fatalf("connection %d, timeout %d s: closed at %v (network at %v), expected %v", i, timeout, r.end-r.base, r.peerEnd-r.base, wantEnd-r.base)
		}
		if wantEnd >= 0 {
			if off > 0 {
				c.NonTrivial()
			}
			if (r.end-r.base)%time.Second != 0 && off > 0 {
				c.Label("timed out after traffic")
			}
			if off%16 != 0 {
				c.Label("other")
			}
		} else if len(want) > 0 && timeout > 0 {
			c.Label("kept open")
		}
	}
}

// ---- Q05: write timeouts

type q05Read struct {
	T, N int // quarters of a second; bytes
}

type q05Write struct {
	T, N int
}

type q05Conn struct {
	Buf    int
	Reads  []q05Read
	Writes []q05Write
}

type q05 struct {
	Client  bool
	Timeout int
	Conns   []q05Conn
}

func genQ05(r *pbt.R) any {
	s := &q05{Client: r.P(1, 2), Timeout: pbt.Pick(r, 0, -1, 1, 2, 3, 4, 7, 10)}
	span := pbt.Pick(r, 8, 30, 80)
	for i := r.N(1, 2); i > 0; i-- {
		cn := q05Conn{Buf: pbt.Pick(r, 1, r.Range(1, 50), r.Range(50, 3000))}
		for j := r.N(0, 8); j > 0; j-- {
			cn.Reads = append(cn.Reads, q05Read{T: r.Intn(span), N: pbt.Pick(r, 1, r.Intn(100), r.Intn(3000), 100000)})
		}
		for j := r.N(1, 6); j > 0; j-- {
			cn.Writes = append(cn.Writes, q05Write{T: r.Intn(span), N: pbt.Pick(r, 0, r.Intn(50), r.Intn(3000))})
		}
		s.Conns = append(s.Conns, cn)
	}
	return s
}

func runQ05(c *pbt.C, sc any) {
	s := sc.(*q05)
	w := newWorld(c)
	const q = 250 * time.Millisecond
	timeout := clamp(s.Timeout, -1, 100)
	type wres struct {
		start, end time.Duration
		err        error
	}
	type res struct {
		conn    *vnet.Conn // the peer's end
		reads   map[time.Duration]int
		writes  []wres
		size    []int
		closed  time.Duration // noticed by the library's user
		got     []byte
		done    <-chan struct{}
		netDown time.Duration
	}
	recs := make([]*res, len(s.Conns))
	var mu sync.Mutex
	var srv *Srv
	if !s.Client {
		srv = w.serve(qrpc.ServerBinding{DefaultWriteTimeout: timeout, Handler: qrpc.HandlerFunc(func(qrpc.FrameWriter, *qrpc.RequestFrame) {})})
	}
	base := c.Now()
	last := time.Duration(0)
	for i := range s.Conns {
		i, cn := i, &s.Conns[i]
		if len(cn.Reads) > 10 {
			cn.Reads = cn.Reads[:10]
		}
		if len(cn.Writes) > 10 {
			cn.Writes = cn.Writes[:10]
		}
		r := &res{reads: map[time.Duration]int{}, closed: -1, netDown: -1}
		recs[i] = r
		o := vnet.Opts{Buf: clamp(cn.Buf, 1, 1<<20)}
		var write func(k int, b []byte) error
		if s.Client {
			addr := fmt.Sprint("r", i)
			l, err := w.net.Listen(addr)
			if err != nil {
				c.Fatalf("%v", err)
			}
			c.Cleanup(func() { l.Close() })
			conn, _, _ := w.dial(addr, qrpc.ConnectionConfig{WriteTimeout: timeout}, nil, NetOpt{C2S: o})
			a, err := l.Accept()
			if err != nil {
				c.Fatalf("%v", err)
			}
			r.conn = a.(*vnet.Conn)
			write = func(k int, b []byte) error {
				_, _, err := conn.Request(qrpc.Cmd(k), qrpc.PushFlag, b)
				return err
			}
			c.Go(func() { <-conn.Done(); mu.Lock(); r.closed = c.Now(); mu.Unlock() })
		} else {
			a, _, err := w.net.Dial(srv.addrs[0], vnet.Opts{}, o)
			if err != nil {
				c.Fatalf("%v", err)
			}
			r.conn = a
			c.Quiesce()
			srv.WalkConn(0, func(wr qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				if ci.RemoteAddr() == a.LocalAddr().String() {
					write = func(k int, b []byte) error {
						wr.StartWrite(uint64(2*k+1), qrpc.Cmd(k), qrpc.PushFlag)
						wr.WriteBytes(b)
						return wr.EndWrite()
					}
					ci.NotifyWhenClose(func() { mu.Lock(); r.closed = c.Now(); mu.Unlock() })
				}
				return true
			})
		}
		c.Cleanup(func() { r.conn.Break(); r.conn.Close() })
		for k, rd := range cn.Reads {
			at := base + time.Duration(clamp(rd.T, 0, 10000))*q + time.Microsecond<<k
			r.reads[at] = clamp(rd.N, 1, 1<<20)
			last = max(last, at)
		}
		c.Go(func() {
			for _, at := range sortedDur(r.reads) {
				if d := at - c.Now(); d > 0 {
					time.Sleep(d)
				}
				// takes what is there
				n := r.reads[at]
				b := make([]byte, n)
				for n > 0 {
					r.conn.SetReadDeadline(time.Now().Add(time.Nanosecond * 100))
					k, err := r.conn.Read(b[:n])
					r.got = append(r.got, b[:k]...)
					n -= k
					if err != nil {
						break
					}
				}
				mu.Lock()
				r.reads[at] -= n // what it really took
				mu.Unlock()
			}
		})
		r.done = c.Go(func() {
			for k, x := range cn.Writes {
				at := base + time.Duration(clamp(x.T, 0, 10000))*q + time.Millisecond<<k
				if d := at - c.Now(); d > 0 {
					time.Sleep(d)
				}
				b := pbt.Bytes(clamp(x.N, 0, 1<<20), uint64(i*100+k))
				st := c.Now()
				err := write(k, b)
				mu.Lock()
				r.writes = append(r.writes, wres{st, c.Now(), err})
				mu.Unlock()
			}
		})
		for k, x := range cn.Writes {
			last = max(last, base+time.Duration(clamp(x.T, 0, 10000))*q+time.Millisecond<<k)
		}
	}
	settle := last + time.Duration(max(timeout, 0)*len(s.Conns)*12)*time.Second + time.Minute
	c.Sleep(settle - c.Now())
	c.Quiesce()
	mu.Lock()
	// the reads so far are known; judge every write
	for i, r := range recs {
		cn := &s.Conns[i]
		buf := clamp(cn.Buf, 1, 1<<20)
		var cum int64
		dead := time.Duration(-1)
		blocked := false
		for k, x := range cn.Writes {
			size := int64(16 + clamp(x.N, 0, 1<<20))
			if blocked {
				break
			}
			if k >= len(r.writes) {
				// no timeout and nobody reads
				if timeout > 0 {
					mu.Unlock()
					c.Fatalf("connection %d: write %d hangs in spite of a timeout of %d s", i, k, timeout)
				}
				var room int64 = int64(buf)
				for _, at := range sortedDur(r.reads) {
					room += int64(r.reads[at])
				}
				if cum+size <= room {
					mu.Unlock()
					c.Fatalf("connection %d: write %d hangs although there is room", i, k)
				}
				blocked = true
				c.Label("blocked without timeout")
				break
			}
			wr := r.writes[k]
			if dead >= 0 {
				if wr.err == nil {
					mu.Unlock()
					c.Fatalf("connection %d: write %d after a failed one succeeded", i, k)
				}
				continue
			}
			// when does it fit?
			fits := time.Duration(1 << 62)
			room := int64(buf)
			if cum+size <= room {
				fits = wr.start
			}
			for _, at := range sortedDur(r.reads) {
				if fits < 1<<62 {
					break
				}
				if room += int64(r.reads[at]); cum+size <= room {
					fits = max(at, wr.start)
				}
			}
			limit := time.Duration(timeout) * time.Second
			switch {
			case timeout > 0 && fits > wr.start+limit:
				if wr.err == nil || wr.end < wr.start+limit || wr.end > wr.start+limit+time.Millisecond {
					mu.Unlock()
					c.Fatalf("connection %d: write %d of %v returned %v at %v, the timeout is %v", i, k, wr.start-base, wr.err, wr.end-base, limit)
				}
				dead = wr.end
				c.Label("timed out")
				if fits < 1<<62 || cum > 0 {
					c.NonTrivial()
				}
			default:
				if wr.err != nil || wr.end < fits || wr.end > fits+10*time.Microsecond {
					mu.Unlock()
					c.Fatalf("connection %d: write %d of %v returned %v at %v, there was room at %v, timeout %v", i, k, wr.start-base, wr.err, wr.end-base, fits-base, limit)
				}
				cum += size
				if fits > wr.start {
					c.Label("slow")
					if timeout > 0 {
						c.NonTrivial()
					}
				}
			}
		}
		if dead >= 0 {
			if r.closed < dead-10*time.Microsecond || r.closed > dead+time.Millisecond || !r.conn.PeerClosed() {
				mu.Unlock()
				c.Fatalf("connection %d: a write timed out at %v, closed at %v, network closed %v", i, dead-base, r.closed-base, r.conn.PeerClosed())
			}
		} else if r.closed >= 0 || r.conn.PeerClosed() {
			mu.Unlock()
			c.Fatalf("connection %d: closed at %v, no write timed out (%d s)", i, r.closed-base, timeout)
		}
	}
	mu.Unlock()
	// now the peers read everything
	for i, r := range recs {
		r, cn := r, &s.Conns[i]
		if r.conn.PeerClosed() {
			continue
		}
		c.Go(func() {
			b := make([]byte, 64<<10)
			r.conn.SetReadDeadline(time.Now().Add(10 * time.Minute))
			for {
				n, err := r.conn.Read(b)
				r.got = append(r.got, b[:n]...)
				if err != nil {
					return
				}
			}
		})
		c.Sleep(11 * time.Minute)
		if !c.WaitDone(r.done, time.Minute) {
			c.Fatalf("connection %d: a write hangs although everything is read", i)
		}
		var want []byte
		for k, x := range cn.Writes {
			if r.writes[k].err != nil {
				c.Fatalf("connection %d: write %d: %v", i, k, r.writes[k].err)
			}
			id := uint64(2*k + 1)
			if s.Client {
				id = uint64(2*k + 3)
			}
			want = append(want, wire.Encode(wire.Frame{ID: id, Flags: wire.Push, Cmd: uint32(k), Payload: pbt.Bytes(clamp(x.N, 0, 1<<20), uint64(i*100+k))})...)
		}
		if !bytes.Equal(r.got, want) {
			c.Fatalf("connection %d: the slow peer got other bytes (%s)", i, diffAt(r.got, want))
		}
	}
}

func sortedDur(m map[time.Duration]int) []time.Duration {
	x := map[int]int{}
	for k := range m {
		x[int(k)] = 0
	}
	var out []time.Duration
	for _, k := range sortedKeys(x) {
		out = append(out, time.Duration(k))
	}
	return out
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "Q01",
		Title: "frame size limit",
		Rule:  "generated: limits (and the default), declared lengths at, around and far from them, bodies sent, withheld or partly sent, any fragmentation and position, streams, several connections; oracle: exact sets of handled frames, time of the close, the other connections. Non-trivial: an offending frame after others or beside another connection",
		Gen:   genQ01, New: func() any { return &q01{} }, Run: runQ01,
		Quick:    pbt.Budget{Cases: 150000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 900},
	})
	pbt.Register(&pbt.Prop{
		ID:    "Q02",
		Title: "in-flight limit",
		Rule:  "generated: limits, arrivals of blocking, non-blocking and streamed requests and durations and outcomes of their handlers on several connections; oracle: a discrete event model of places, exact start times and moment of the close. Non-trivial: the limit was reached or exceeded",
		Gen:   genQ02, New: func() any { return &q02{} }, Run: runQ02,
		Quick:    pbt.Budget{Cases: 150000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1500000, MaxSec: 900},
	})
	pbt.Register(&pbt.Prop{
		ID:    "Q03",
		Title: "inbound rate limit",
		Rule:  "generated: limits and arrival schedules around them on several connections, with bursts, pauses and exact second boundaries, requests of all kinds and pushes; oracle: count per clock second. Non-trivial: exceeded, or more requests than the limit over several seconds",
		Gen:   genQ03, New: func() any { return &q03{} }, Run: runQ03,
		Quick:    pbt.Budget{Cases: 150000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 900},
	})
	pbt.Register(&pbt.Prop{
		ID:    "Q04",
		Title: "read timeouts",
		Rule:  "generated: timeouts, frames delivered in generated pieces at generated times, handlers and subscribers which hold the reader, timeouts changed at run time, both roles; oracle: a model of the reads in virtual time, exact moments of handling and closing. Non-trivial: a connection timed out after some traffic",
		Gen:   genQ04, New: func() any { return &q04{} }, Run: runQ04,
		Quick:    pbt.Budget{Cases: 150000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 900},
	})
	pbt.Register(&pbt.Prop{
		ID:    "Q05",
		Title: "write timeouts",
		Rule:  "generated: timeouts, buffer sizes, times and amounts of the peer's reads and of the writes, both roles; oracle: a model of the room in the connection, exact moments of success, failure and close, all bytes in the end. Non-trivial: a write waited and succeeded under a timeout, or timed out after others",
		Gen:   genQ05, New: func() any { return &q05{} }, Run: runQ05,
		Quick:    pbt.Budget{Cases: 60000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 900},
	})
}
