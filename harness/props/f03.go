package props

import (
	"encoding/binary"
	"errors"
	"fmt"
	"sync"
	"time"

	"verif/pbt"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// F03: bytes of abandoned, failed or panicked frames never show up later

const (
	fateEnd     = iota // finished
	fateAbandon        // started, some bytes written, never ended
	fateCodec          // the codec fails
	nFates
)

type f03Frame struct {
	P     Pay
	Split int
	Fate  int
	Codec bool // ask for encoding
}

type f03Req struct {
	Conn   int
	Gap    int // µs before it is sent
	NB     bool
	Own    bool // the handler uses a writer of its own
	Panic  bool
	Frames []f03Frame
}

type f03 struct {
	Conns  int
	WCh    int
	Srv    []f03Req // handlers of a real server
	Cli    []f03Req // handlers of real clients
	Stream []f03Req // stream writers of real clients
}

// badCodec xors, and fails for marked payloads
type badCodec struct{}

var errBadCodec = errors.New("codec failure")

func (badCodec) Encode(b []byte) ([]byte, error) {
	if len(b) > 8 && b[8] == 0xfe {
		return nil, errBadCodec
	}
	return xor(b), nil
}

func (badCodec) Decode(b []byte) ([]byte, error) { return xor(b), nil }

func xor(b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[i] = b[i] ^ 0x5a
	}
	return out
}

func genF03(r *pbt.R) any {
	s := &f03{Conns: r.Range(1, 4), WCh: pbt.Pick(r, 0, 1, 8, 64)}
	reqs := func(max int) (out []f03Req) {
		for i := r.N(0, max); i > 0; i-- {
			q := f03Req{Conn: r.Intn(4), NB: r.P(1, 2), Own: r.P(1, 3), Panic: r.P(1, 3)}
			if r.P(1, 2) {
				q.Gap = r.Intn(3000)
			}
			mp := pbt.Pick(r, 20, 200, 3000)
			for j := r.N(1, 5); j > 0; j-- {
				q.Frames = append(q.Frames, f03Frame{P: genPay(r, mp), Split: r.Intn(4), Fate: r.W(4, 3, 1), Codec: r.P(1, 4)})
			}
			out = append(out, q)
		}
		return
	}
	s.Srv, s.Cli, s.Stream = reqs(12), reqs(8), reqs(8)
	return s
}

type f03State struct {
	c    *pbt.C
	mu   sync.Mutex
	want map[[2]uint32][]byte // (request, frame) finished without an error
}

func f03Payload(req, seq uint32, f f03Frame) []byte {
	b := make([]byte, 9, 9+f.P.N)
	binary.BigEndian.PutUint32(b, req)
	binary.BigEndian.PutUint32(b[4:], seq)
	if f.Fate%nFates == fateCodec {
		b[8] = 0xfe
	}
	return append(b, f.P.Bytes()...)
}

func (x *f03State) ended(req, seq uint32, f f03Frame, b []byte, err error) {
	if f.Fate%nFates == fateCodec {
		if err == nil {
			x.c.Failf("a frame whose codec failed was reported written")
		}
		return
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	if err != nil {
		x.c.Failf("frame %d of request %d failed: %v", seq, req, err)
		return
	}
	x.want[[2]uint32{req, seq}] = b
}

func (x *f03State) handle(q f03Req, req uint32, w qrpc.FrameWriter, f *qrpc.RequestFrame) {
	if q.Own && f.FromClient() {
		w = f.ConnectionInfo().GetWriter()
	}
	for i, fr := range q.Frames {
		fl := qrpc.StreamFlag
		if fr.Codec || fr.Fate%nFates == fateCodec {
			fl |= qrpc.CodecFlag
		}
		b := f03Payload(req, uint32(i), fr)
		w.StartWrite(f.RequestID, 7, fl)
		if fr.Fate%nFates == fateAbandon {
			writeSplit(w, b[:len(b)*(fr.Split+1)/4], 0)
			continue
		}
		writeSplit(w, b, fr.Split)
		x.ended(req, uint32(i), fr, b, w.EndWrite())
	}
	if q.Panic {
		panic("planned")
	}
}

func (x *f03State) stream(q f03Req, req uint32, sw qrpc.StreamWriter) {
	for i, fr := range q.Frames {
		b := f03Payload(req, uint32(i), fr)
		sw.StartWrite(7)
		if fr.Fate%nFates == fateAbandon {
			sw.WriteBytes(b[:len(b)*(fr.Split+1)/4])
			continue
		}
		sw.WriteBytes(b)
		x.ended(req, uint32(i), fr, b, sw.EndWrite(false))
	}
}

func runF03(c *pbt.C, sc any) {
	s := sc.(*f03)
	w := newWorld(c)
	x := &f03State{c: c, want: map[[2]uint32][]byte{}}
	n := clamp(s.Conns, 1, 6)
	fates := map[int]bool{}
	for _, l := range [][]f03Req{s.Srv, s.Cli, s.Stream} {
		for _, q := range l {
			for _, f := range q.Frames {
				fates[f.Fate%nFates] = true
			}
		}
	}
	if fates[fateEnd] && len(fates) > 1 {
		c.NonTrivial()
	}
	// real server, reference clients
	srv := w.serve(qrpc.ServerBinding{Codec: badCodec{}, WriteFrameChSize: s.WCh, Handler: qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if int(f.Cmd) < len(s.Srv) {
			x.handle(s.Srv[f.Cmd], uint32(f.Cmd), wr, f)
		}
	})})
	acc := w.rawServer("raw")
	var peers, far []*Peer
	var conns []*qrpc.Connection
	for i := 0; i < n; i++ {
		peers = append(peers, w.rawClient(srv.addrs[0], NetOpt{}))
		conn, _, _ := w.dial("raw", qrpc.ConnectionConfig{Codec: badCodec{}, WriteFrameChSize: clamp(s.WCh, 0, 1000), Handler: qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
			if int(f.Cmd) < len(s.Cli) {
				x.handle(s.Cli[f.Cmd], 1000+uint32(f.Cmd), wr, f)
			}
		})}, nil, NetOpt{})
		conns = append(conns, conn)
		far = append(far, w.accept(acc))
	}
	srvDone := c.Go(func() {
		for i, q := range s.Srv {
			time.Sleep(us(q.Gap))
			fl := byte(0)
			if q.NB {
				fl = wire.NB
			}
			peers[q.Conn%n].Send(wire.Frame{ID: uint64(2*i + 1), Flags: fl, Cmd: uint32(i)})
		}
	})
	cliDone := c.Go(func() {
		for i, q := range s.Cli {
			time.Sleep(us(q.Gap))
			far[q.Conn%n].Send(wire.Frame{ID: uint64(2*i + 2), Flags: wire.NB, Cmd: uint32(i)})
		}
	})
	strDone := c.Go(func() {
		for i, q := range s.Stream {
			time.Sleep(us(q.Gap))
			sw, _, err := conns[q.Conn%n].StreamRequest(9, qrpc.CodecFlag, []byte("first"))
			if err != nil {
				c.Failf("StreamRequest: %v", err)
				return
			}
			x.stream(q, 2000+uint32(i), sw)
		}
	})
	for _, d := range []<-chan struct{}{srvDone, cliDone, strDone} {
		if !c.WaitDone(d, pbt.Long) {
			c.Fatalf("writers hang")
		}
	}
	c.Sleep(time.Minute)
	x.mu.Lock()
	defer x.mu.Unlock()
	seen := map[[2]uint32]bool{}
	for pi, p := range append(append([]*Peer(nil), peers...), far...) {
		if p.Bad() != nil || p.Ended() {
			c.Fatalf("peer %d: malformed bytes (%v) or connection lost (%v)", pi, p.Bad(), p.Ended())
		}
		for _, e := range p.Frames() {
			body := e.Payload
			if e.Flags&wire.Codec != 0 {
				body = xor(body)
			}
			if e.Flags&wire.Rst != 0 || e.Cmd == 9 {
				want := ""
				if e.Cmd == 9 {
					want = "first"
				}
				if string(body) != want {
					c.Fatalf("a frame nobody wrote a payload for carries %s: %v", short(body), e.Frame)
				}
				continue
			}
			if len(body) < 9 {
				c.Fatalf("a frame nobody wrote: %v", e.Frame)
			}
			k := [2]uint32{binary.BigEndian.Uint32(body), binary.BigEndian.Uint32(body[4:])}
			want, ok := x.want[k]
			if !ok {
				c.Fatalf("a frame nobody finished: %v (starts like frame %d of request %d)", e.Frame, k[1], k[0])
			}
			if string(want) != string(body) {
				c.Fatalf("frame %d of request %d carries other bytes than those written for it: %d instead of %d bytes, %s", k[1], k[0], len(body), len(want), diffAt(body, want))
			}
			if seen[k] {
				c.Fatalf("frame %d of request %d arrived twice", k[1], k[0])
			}
			seen[k] = true
		}
	}
	for k := range x.want {
		if !seen[k] {
			c.Fatalf("frame %d of request %d was written but did not arrive", k[1], k[0])
		}
	}
}

func diffAt(a, b []byte) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return fmt.Sprintf("differs at %d", i)
		}
	}
	return "prefix"
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "F03",
		Title: "no foreign bytes in a frame",
		Rule:  "generated: handlers of a real server and of real clients and stream writers whose frames are finished, abandoned after some bytes, fail in the codec, or are followed by a panic, over several connections sharing the writer pool; oracle: every frame that arrives at the reference peers is one that was finished, with exactly its bytes. Non-trivial: finished and unfinished frames",
		Gen:   genF03, New: func() any { return &f03{} }, Run: runF03,
		Quick:    pbt.Budget{Cases: 30000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 400000, MaxSec: 600},
	})
}
