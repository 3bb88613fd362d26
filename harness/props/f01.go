package props

import (
	"bytes"
	"fmt"
	"sync"

	"verif/pbt"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// F01: the wire format, both directions, both roles, any fragmentation

type f01Req struct {
	ID     uint64
	Flags  int
	Cmd    int
	P      Pay
	RFlags int
	RCmd   int
	RP     Pay
	Split  int
}

type f01 struct {
	WCh, RCh, CWCh int
	C2S, S2C       Link
	Srv            []f01Req
	Cli            []f01Req
	Back           []f01Req // requests from the server
	// streams: of the client, of the server, of a handler's answer
	Str [3][]f01Req
	// Hdr holds the sizes in which the raw bytes of all requests are written
	Cuts []int
}

const freeBits = wire.NB | 0x40 | 0x80

func genCmd(r *pbt.R) int {
	switch r.W(3, 2, 3, 1) {
	case 0:
		return r.Intn(1 << 24)
	case 1:
		return r.Intn(1 << 16)
	case 2:
		return pbt.Pick(r, 0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xfffffe, 0xffffff)
	default:
		return r.Intn(16)
	}
}

func genID(r *pbt.R) uint64 {
	switch r.W(3, 3, 2, 1) {
	case 0:
		return r.U64()
	case 1:
		return uint64(r.Range(0, 20))
	case 2:
		return uint64(1)<<uint(r.Intn(64)) - uint64(r.Intn(3))
	default:
		return ^uint64(0) - uint64(r.Intn(5))
	}
}

func genF01(r *pbt.R) any {
	s := &f01{WCh: pbt.Pick(r, 0, 1, 2, 8, 64, 1000), RCh: pbt.Pick(r, 0, 0, 0, 1, 5), CWCh: pbt.Pick(r, 0, 1, 2, 8, 64, 1000)}
	total := 0
	max := pbt.Pick(r, 100, 5000, 300000)
	seen := map[uint64]bool{}
	reqs := func(n int) []f01Req {
		var out []f01Req
		for i := 0; i < n; i++ {
			q := f01Req{ID: genID(r), Cmd: genCmd(r), P: genPay(r, max), RCmd: genCmd(r), RP: genPay(r, max), Split: r.Intn(4)}
			for seen[q.ID] {
				q.ID = genID(r)
			}
			seen[q.ID] = true
			fl := func() int {
				f := r.Intn(256) & freeBits
				switch r.W(5, 1, 1) {
				case 1:
					f |= wire.Stream | wire.StreamEnd
				case 2:
					f |= wire.StreamEnd
				}
				return f
			}
			q.Flags, q.RFlags = fl(), fl()
			if r.P(1, 2) {
				q.Flags = r.Intn(2) * wire.NB
			}
			total += q.P.N + q.RP.N
			out = append(out, q)
			if total > 600000 {
				max = 50
			}
		}
		return out
	}
	s.Srv = reqs(r.N(0, 12))
	s.Cli = reqs(r.N(0, 12))
	s.Back = reqs(r.N(0, 6))
	for i := range s.Str {
		if r.P(1, 2) {
			s.Str[i] = reqs(r.N(0, 6))
		}
	}
	s.C2S, s.S2C = genLink(r, total), genLink(r, total)
	for i := r.Intn(6); i > 0; i-- {
		s.Cuts = append(s.Cuts, pbt.Pick(r, 1, 2, 3, 4, 5, 12, 13, 15, 16, 17, 100, 1024, 5000))
	}
	return s
}

type seenFrame struct {
	id      uint64
	flags   byte
	cmd     uint32
	payload []byte
}

func writeSplit(w qrpc.FrameWriter, b []byte, split int) { writeSplitFunc(w.WriteBytes, b, split) }

func writeSplitFunc(write func([]byte), b []byte, split int) {
	switch {
	case split <= 0 || len(b) == 0:
		write(b)
	default:
		step := len(b)/(split+1) + 1
		for len(b) > 0 {
			if step > len(b) {
				step = len(b)
			}
			tmp := append([]byte(nil), b[:step]...)
			write(tmp)
			for i := range tmp { // v is copied in WriteBytes
				tmp[i] = 0xee
			}
			b = b[step:]
		}
	}
}

func runF01(c *pbt.C, x any) {
	s := x.(*f01)
	w := newWorld(c)
	if len(s.Srv) > 0 {
		f01Server(c, w, s)
	}
	if len(s.Cli) > 0 {
		f01Client(c, w, s)
	}
	if len(s.Back) > 0 {
		f01Back(c, w, s)
	}
	for i := range s.Str {
		if len(s.Str[i]) > 0 {
			f01Stream(c, w, s, i)
		}
	}
	if len(s.Srv) > 0 && len(s.Cli) > 0 && !(s.C2S.trivial() && s.S2C.trivial()) {
		c.NonTrivial()
	}
}

func f01Server(c *pbt.C, w *World, s *f01) {
	var mu sync.Mutex
	seen := map[uint64][]seenFrame{}
	plan := map[uint64]f01Req{}
	var order []f01Req
	for _, q := range s.Srv {
		q.Cmd &= 0xffffff
		q.RCmd &= 0xffffff
		if _, dup := plan[q.ID]; dup {
			continue
		}
		q.Flags &= freeBits | wire.Stream | wire.StreamEnd
		q.RFlags &= freeBits | wire.Stream | wire.StreamEnd
		if q.Flags&wire.Stream != 0 {
			q.Flags |= wire.StreamEnd
		}
		if q.RFlags&wire.Stream != 0 {
			q.RFlags |= wire.StreamEnd
		}
		plan[q.ID] = q
		order = append(order, q)
	}
	handler := qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		mu.Lock()
		seen[f.RequestID] = append(seen[f.RequestID], seenFrame{f.RequestID, byte(f.Flags), uint32(f.Cmd), append([]byte(nil), f.Payload...)})
		q, ok := plan[f.RequestID]
		mu.Unlock()
		if !ok {
			c.Failf("handler got a request never sent: id=%d cmd=%d %s", f.RequestID, f.Cmd, short(f.Payload))
			return
		}
		if got, want := f.FromClient(), q.ID%2 == 1; got != want {
			c.Failf("FromClient()=%v for id %d", got, q.ID)
		}
		wr.StartWrite(f.RequestID, qrpc.Cmd(q.RCmd), qrpc.FrameFlag(q.RFlags))
		writeSplit(wr, q.RP.Bytes(), q.Split)
		if err := wr.EndWrite(); err != nil {
			c.Failf("EndWrite of the response to %d: %v", f.RequestID, err)
		}
	})
	srv := w.serve(qrpc.ServerBinding{Handler: handler, WriteFrameChSize: s.WCh, ReadFrameChSize: s.RCh})
	p := w.rawClient(srv.addrs[0], NetOpt{C2S: s.C2S.opts(), S2C: s.S2C.opts()})
	var raw []byte
	for _, q := range order {
		raw = append(raw, wire.Encode(wire.Frame{ID: q.ID, Flags: byte(q.Flags), Cmd: uint32(q.Cmd), Payload: q.P.Bytes()})...)
	}
	c.MustDo("sending the requests", func() {
		for i := 0; len(raw) > 0; i++ {
			n := len(raw)
			if len(s.Cuts) > 0 {
				n = clamp(s.Cuts[i%len(s.Cuts)], 1, n)
				if i > 2000 {
					n = len(raw)
				}
			}
			if err := p.Raw(raw[:n]); err != nil {
				c.Failf("the connection broke while sending valid frames: %v", err)
				return
			}
			raw = raw[n:]
		}
	})
	ok := p.WaitN(len(order), pbt.Long)
	c.Sleep(0)
	checkResponses(c, "server", p, ok, len(order), func(f wire.Frame) error {
		q, ok := plan[f.ID]
		if !ok {
			return fmt.Errorf("unknown id")
		}
		return sameFrame(f, wire.Frame{ID: q.ID, Flags: byte(q.RFlags), Cmd: uint32(q.RCmd), Payload: q.RP.Bytes()})
	})
	mu.Lock()
	defer mu.Unlock()
	for id, q := range plan {
		l := seen[id]
		if len(l) != 1 {
			c.Fatalf("the handler ran %d times for request %d", len(l), id)
		}
		g := l[0]
		if err := sameFrame(wire.Frame{ID: g.id, Flags: g.flags, Cmd: g.cmd, Payload: g.payload}, wire.Frame{ID: q.ID, Flags: byte(q.Flags), Cmd: uint32(q.Cmd), Payload: q.P.Bytes()}); err != nil {
			c.Fatalf("the handler saw a different frame than the bytes sent: %v", err)
		}
		classify(c, q.P.N)
	}
}

// f01Back: a real server sends requests to a reference client
func f01Back(c *pbt.C, w *World, s *f01) {
	srv := w.serve(qrpc.ServerBinding{Addr: "back", Handler: qrpc.HandlerFunc(func(qrpc.FrameWriter, *qrpc.RequestFrame) {}), WriteFrameChSize: s.WCh})
	p := w.rawClient("back", NetOpt{C2S: s.C2S.opts(), S2C: s.S2C.opts()})
	c.Sleep(0)
	var ci *qrpc.ConnectionInfo
	srv.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool { ci = x; return true })
	if ci == nil {
		c.Fatalf("the connection is not known to the server")
	}
	ids := map[uint64]bool{}
	for i, q := range s.Back {
		q.RFlags &= freeBits | wire.Stream | wire.StreamEnd
		if q.RFlags&wire.Stream != 0 {
			q.RFlags |= wire.StreamEnd
		}
		q.Flags &= freeBits | wire.Stream | wire.StreamEnd
		var (
			id   uint64
			resp qrpc.Response
			err  error
		)
		body := q.P.Bytes()
		c.MustDo("Request", func() { id, resp, err = ci.Request(qrpc.Cmd(q.Cmd), qrpc.FrameFlag(q.Flags), body) })
		if err != nil {
			c.Fatalf("server request %d: %v", i, err)
		}
		for k := range body {
			body[k] = 0xdd
		}
		if ids[id] || id%2 != 0 {
			c.Fatalf("server request id %d is odd or used twice", id)
		}
		ids[id] = true
		if !p.WaitN(i+1, pbt.Long) {
			c.Fatalf("server request %d did not arrive (malformed: %v)", i, p.Bad())
		}
		fs := p.Frames()
		if len(fs) != i+1 {
			c.Fatalf("server sent %d frames for %d requests", len(fs), i+1)
		}
		want := wire.Frame{ID: id, Flags: byte(q.Flags)&^(wire.Stream|wire.StreamEnd) | wire.NB, Cmd: uint32(q.Cmd) & 0xffffff, Payload: q.P.Bytes()}
		if err := sameFrame(fs[i].Frame, want); err != nil {
			c.Fatalf("server sent a wrong request frame: %v", err)
		}
		reply := wire.Frame{ID: id, Flags: byte(q.RFlags), Cmd: uint32(q.RCmd) & 0xffffff, Payload: q.RP.Bytes()}
		c.Go(func() { p.Send(reply) })
		f, gerr, ok := w.getFrame(resp)
		if !ok || gerr != nil {
			c.Fatalf("response %d: hung=%v err=%v", i, !ok, gerr)
		}
		if err := sameFrame(wire.Frame{ID: f.RequestID, Flags: byte(f.Flags), Cmd: uint32(f.Cmd), Payload: f.Payload}, reply); err != nil {
			c.Fatalf("the server decoded a different frame than the bytes sent: %v", err)
		}
	}
}

// f01Stream: the frames of a stream which is written by a real client (0), a
// real server (1), or as the answer of a real server's handler (2)
func f01Stream(c *pbt.C, w *World, s *f01, role int) {
	var (
		frames = s.Str[role]
		p      *Peer
		sw     qrpc.StreamWriter
		err    error
		first  = frames[0]
		addr   = fmt.Sprintf("stream%d", role)
		flags  = first.Flags & freeBits
		id     uint64
	)
	if len(frames) < 2 {
		return
	}
	net := NetOpt{C2S: s.C2S.opts(), S2C: s.S2C.opts()}
	rest := func(cmd func(qrpc.Cmd), write func([]byte), end func(bool) error) {
		for i, q := range frames[1:] {
			cmd(qrpc.Cmd(q.Cmd))
			writeSplitFunc(write, q.P.Bytes(), q.Split)
			if err := end(i == len(frames)-2); err != nil {
				c.Failf("frame %d of a stream: %v", i+1, err)
			}
		}
	}
	write := func() {
		rest(sw.StartWrite, sw.WriteBytes, sw.EndWrite)
		id = sw.RequestID()
	}
	switch role {
	case 0:
		acc := w.rawServer(addr)
		conn, _, _ := w.dial(addr, qrpc.ConnectionConfig{WriteFrameChSize: s.CWCh}, nil, net)
		p = w.accept(acc)
		c.MustDo("StreamRequest", func() {
			sw, _, err = conn.StreamRequest(qrpc.Cmd(first.Cmd), qrpc.FrameFlag(flags), first.P.Bytes())
			if err == nil {
				write()
			}
		})
	case 1:
		srv := w.serve(qrpc.ServerBinding{Addr: addr, Handler: qrpc.HandlerFunc(func(qrpc.FrameWriter, *qrpc.RequestFrame) {}), WriteFrameChSize: s.WCh})
		p = w.rawClient(addr, net)
		c.Sleep(0)
		var ci *qrpc.ConnectionInfo
		srv.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool { ci = x; return true })
		if ci == nil {
			c.Fatalf("the connection is not known to the server")
		}
		c.MustDo("StreamRequest", func() {
			sw, _, err = ci.StreamRequest(qrpc.Cmd(first.Cmd), qrpc.FrameFlag(flags), first.P.Bytes())
			if err == nil {
				write()
			}
		})
	case 2:
		id = 4711
		w.serve(qrpc.ServerBinding{Addr: addr, WriteFrameChSize: s.WCh, Handler: qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
			wr.StartWrite(f.RequestID, qrpc.Cmd(first.Cmd), qrpc.FrameFlag(flags)|qrpc.StreamFlag)
			wr.WriteBytes(first.P.Bytes())
			if err := wr.EndWrite(); err != nil {
				c.Failf("frame 0 of a streamed answer: %v", err)
			}
			i := 0
			rest(func(cmd qrpc.Cmd) {
				i++
				fl := qrpc.FrameFlag(flags) | qrpc.StreamFlag
				if i == len(frames)-1 {
					fl |= qrpc.StreamEndFlag
				}
				wr.StartWrite(f.RequestID, cmd, fl)
			}, wr.WriteBytes, func(bool) error { return wr.EndWrite() })
		})})
		p = w.rawClient(addr, net)
		p.Send(wire.Frame{ID: id, Cmd: 1, Flags: byte(s.CWCh%2) * wire.NB})
	}
	if err != nil {
		c.Fatalf("StreamRequest: %v", err)
	}
	ok := p.WaitN(len(frames), pbt.Long)
	if err := p.Bad(); err != nil || !ok || len(p.Frames()) != len(frames) {
		c.Fatalf("%d frames of a stream of %d arrived (malformed: %v)", len(p.Frames()), len(frames), err)
	}
	for i, q := range frames {
		want := wire.Frame{ID: id, Flags: byte(flags | wire.Stream), Cmd: uint32(q.Cmd) & 0xffffff, Payload: q.P.Bytes()}
		if i == len(frames)-1 {
			want.Flags |= wire.StreamEnd
		}
		if err := sameFrame(p.Frames()[i].Frame, want); err != nil {
			c.Fatalf("frame %d of a stream (writer %d) is wrong: %v", i, role, err)
		}
	}
	c.Label("stream of writer %d", role)
}

func classify(c *pbt.C, n int) {
	switch {
	case n == 0:
		c.Label("payload 0")
	case n <= 1024-16:
		c.Label("payload <=1008")
	case n < 4096:
		c.Label("payload <4096")
	default:
		c.Label("payload >=4096")
	}
}

func sameFrame(got, want wire.Frame) error {
	if got.ID != want.ID || got.Flags != want.Flags || got.Cmd != want.Cmd || !bytes.Equal(got.Payload, want.Payload) {
		return fmt.Errorf("got %v want %v", got, want)
	}
	return nil
}

func checkResponses(c *pbt.C, who string, p *Peer, complete bool, n int, check func(wire.Frame) error) {
	if err := p.Bad(); err != nil {
		c.Fatalf("%s put malformed bytes on the wire: %v", who, err)
	}
	evs := p.Frames()
	ids := map[uint64]int{}
	for _, e := range evs {
		ids[e.ID]++
		if ids[e.ID] > 1 {
			c.Fatalf("%s sent more than one frame for id %d: %v", who, e.ID, e.Frame)
		}
		if err := check(e.Frame); err != nil {
			c.Fatalf("%s sent a wrong frame: %v", who, err)
		}
	}
	if !complete || len(evs) != n {
		c.Fatalf("%s sent %d of %d frames (stream ended: %v)", who, len(evs), n, p.Ended())
	}
}

func f01Client(c *pbt.C, w *World, s *f01) {
	acc := w.rawServer("raw")
	conn, _, _ := w.dial("raw", qrpc.ConnectionConfig{WriteFrameChSize: s.CWCh}, nil, NetOpt{C2S: s.C2S.opts(), S2C: s.S2C.opts()})
	p := w.accept(acc)
	ids := map[uint64]bool{}
	for i, q := range s.Cli {
		q.RFlags &= freeBits | wire.Stream | wire.StreamEnd
		if q.RFlags&wire.Stream != 0 {
			q.RFlags |= wire.StreamEnd
		}
		q.Flags &= freeBits | wire.Stream | wire.StreamEnd
		var (
			id   uint64
			resp qrpc.Response
			err  error
		)
		body := q.P.Bytes()
		c.MustDo("Request", func() { id, resp, err = conn.Request(qrpc.Cmd(q.Cmd), qrpc.FrameFlag(q.Flags), body) })
		if err != nil {
			c.Fatalf("Request %d: %v", i, err)
		}
		for k := range body {
			body[k] = 0xdd
		}
		if ids[id] {
			c.Fatalf("request id %d used twice", id)
		}
		ids[id] = true
		if id%2 != 1 {
			c.Fatalf("client request id %d is even", id)
		}
		if !p.WaitN(i+1, pbt.Long) {
			c.Fatalf("request %d did not arrive (malformed: %v)", i, p.Bad())
		}
		fs := p.Frames()
		if len(fs) != i+1 {
			c.Fatalf("client sent %d frames for %d requests", len(fs), i+1)
		}
		want := wire.Frame{ID: id, Flags: byte(q.Flags) &^ (wire.Stream | wire.StreamEnd), Cmd: uint32(q.Cmd) & 0xffffff, Payload: q.P.Bytes()}
		if err := sameFrame(fs[i].Frame, want); err != nil {
			c.Fatalf("client sent a wrong frame: %v", err)
		}
		classify(c, q.P.N)
		reply := wire.Frame{ID: id, Flags: byte(q.RFlags), Cmd: uint32(q.RCmd) & 0xffffff, Payload: q.RP.Bytes()}
		c.Go(func() { p.Send(reply) })
		f, gerr, ok := w.getFrame(resp)
		if !ok || gerr != nil {
			c.Fatalf("response %d: hung=%v err=%v", i, !ok, gerr)
		}
		if err := sameFrame(wire.Frame{ID: f.RequestID, Flags: byte(f.Flags), Cmd: uint32(f.Cmd), Payload: f.Payload}, reply); err != nil {
			c.Fatalf("the client decoded a different frame than the bytes sent: %v", err)
		}
	}
	c.Sleep(0)
	if err := p.Bad(); err != nil {
		c.Fatalf("client put malformed bytes on the wire: %v", err)
	}
	if n := len(p.Frames()); n != len(s.Cli) {
		c.Fatalf("client sent %d frames for %d requests", n, len(s.Cli))
	}
}

// f01Huge are responses beyond every limit a server has, which a client accepts
func f01Huge() (out []any) {
	for _, n := range []int{qrpc.DefaultMaxFrameSize - 1, qrpc.DefaultMaxFrameSize + 1, 2*qrpc.DefaultMaxFrameSize - 1, 2*qrpc.DefaultMaxFrameSize + 17, 4*qrpc.DefaultMaxFrameSize + 5} {
		out = append(out, &f01{S2C: Link{Buf: 1 << 20}, Cli: []f01Req{{Cmd: 1, RCmd: 2, RP: Pay{N: n, S: uint64(n)}}, {Cmd: 3, RCmd: 4, RP: Pay{N: 10, S: 1}}}})
	}
	return
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "F01",
		Title: "wire format",
		Rule: "generated: requests with arbitrary 64-bit ids, 24-bit cmds, free flag bits and payload lengths (weighted at buffer boundaries) sent as reference-encoded bytes in arbitrary fragments to a real server, and by a real client to a reference peer; " +
			"and streams of several frames written by a client, a server and a handler; oracle: the independent codec of /verif/harness/wire on every byte of both directions. Non-trivial: both roles exercised over a link that fragments or delays",
		Gen: genF01, New: func() any { return &f01{} }, Run: runF01,
		Fixed:    f01Huge(),
		Quick:    pbt.Budget{Cases: 16000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 800},
	})
}
