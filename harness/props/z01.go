package props

import (
	"bytes"
	"compress/flate"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"sync"
	"time"

	"verif/pbt"
	"verif/vnet"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// Z01: compression. Programs of frames in both directions between a real
// endpoint with a codec and a reference peer which does the coding itself.

const (
	zXor   = iota // in place, same size
	zFlate        // shrinks or grows, new slice
	zSum          // grows by a checksum, new slice
	zSumIn        // grows by a checksum, in place
	zTrim         // in place, drops trailing zeros, grows by at most 3
	zKinds
	zNone // no codec
)

var errZ = errors.New("codec failure")

// zcodec fails to encode what starts with 0xfa and to decode what decodes to 0xfd
type zcodec struct{ kind int }

func (z zcodec) Encode(b []byte) ([]byte, error) {
	if len(b) > 0 && b[0] == 0xfa {
		if z.kind == zXor || z.kind == zSumIn {
			for i := range b { // a codec working in place has damaged its input when it fails
				b[i] ^= 0xff
			}
		}
		return nil, errZ
	}
	switch z.kind {
	case zXor:
		for i := range b {
			b[i] ^= 0x5a
		}
		return b, nil
	case zFlate:
		var o bytes.Buffer
		w, _ := flate.NewWriter(&o, 6)
		w.Write(b)
		w.Close()
		return o.Bytes(), nil
	case zSum, zSumIn:
		if z.kind == zSum {
			b = append([]byte(nil), b...)
		}
		s := crc32.ChecksumIEEE(b)
		for i := range b {
			b[i] ^= 0x5a
		}
		return append(b, byte(s>>24), byte(s>>16), byte(s>>8), byte(s)), nil
	default:
		n := len(b)
		k := n
		for k > 0 && b[k-1] == 0 && n-k < 1<<24-1 {
			k--
		}
		n -= k
		return append(b[:k], byte(n>>16), byte(n>>8), byte(n)), nil
	}
}

func (z zcodec) Decode(b []byte) (out []byte, err error) {
	switch z.kind {
	case zXor:
		out = b
		for i := range b {
			b[i] ^= 0x5a
		}
	case zFlate:
		out, err = io.ReadAll(io.LimitReader(flate.NewReader(bytes.NewReader(b)), 1<<20))
	case zSum, zSumIn:
		if len(b) < 4 {
			return nil, errZ
		}
		out = b[:len(b)-4]
		for i := range out {
			out[i] ^= 0x5a
		}
		s := crc32.ChecksumIEEE(out)
		if !bytes.Equal(b[len(b)-4:], []byte{byte(s >> 24), byte(s >> 16), byte(s >> 8), byte(s)}) {
			return nil, errZ
		}
	default:
		if len(b) < 3 {
			return nil, errZ
		}
		n := int(b[len(b)-3])<<16 | int(b[len(b)-2])<<8 | int(b[len(b)-1])
		if n > 1<<20 {
			return nil, errZ
		}
		out = append(b[:len(b)-3], make([]byte, n)...)
	}
	if err == nil && len(out) > 0 && out[0] == 0xfd {
		err = errZ
	}
	return
}

// encodes a copy
func zEnc(kind int, b []byte) ([]byte, error) {
	return zcodec{kind}.Encode(append([]byte(nil), b...))
}

type z01Frame struct {
	P     Pay
	Zeros int  // 0 random bytes, 1 zeros, 2 zeros at the end
	Bad   bool // fails to encode or to decode
	Codec bool
	Comp  bool // written by EndWriteCompressed, with bytes of its own choice
	Split int
}

func (f z01Frame) bytes() []byte {
	b := f.P.Bytes()
	switch f.Zeros {
	case 1:
		clear(b)
	case 2:
		clear(b[len(b)/2:])
	}
	if len(b) > 0 && (b[0] == 0xfa || b[0] == 0xfd) {
		b[0] = 1
	}
	return b
}

// out is the payload to be written
func (f z01Frame) out() []byte {
	b := f.bytes()
	if f.Bad && len(b) > 0 {
		b[0] = 0xfa
	}
	return b
}

const (
	zIn       = iota // a request arrives, its handler answers with Out
	zInStream        // a stream arrives, then its handler answers
	zOut             // a request goes out, In[0] is the answer
	zOutStream
	zPushOut
	zPushIn
	zOps
)

type z01Op struct {
	Op      int
	NB      bool
	In, Out []z01Frame
}

type z01Conn struct {
	Client bool // the real endpoint is a client
	Codec  int
	Link   Link
	Ops    []z01Op
}

type z01 struct {
	WCh   int
	Conns []z01Conn
}

func genZ01(r *pbt.R) any {
	s := &z01{WCh: pbt.Pick(r, 0, 1, 8)}
	for i := r.N(1, 3); i > 0; i-- {
		cn := z01Conn{Client: r.P(1, 2), Codec: r.Intn(zKinds + 2), Link: genLink(r, 3000)}
		cn.Link.StallU = nil
		frames := func(lo, hi int) (out []z01Frame) {
			mp := pbt.Pick(r, 5, 30, 300, 3000)
			for j := r.N(lo, hi); j > 0; j-- {
				out = append(out, z01Frame{P: genPay(r, mp), Zeros: r.W(3, 1, 1), Bad: r.P(1, 12), Codec: r.P(2, 3), Comp: r.P(1, 8), Split: r.Intn(3)})
			}
			return
		}
		for j := r.N(1, 8); j > 0; j-- {
			op := z01Op{Op: r.Intn(zOps), NB: r.P(1, 2)}
			switch op.Op {
			case zIn:
				op.In, op.Out = frames(1, 1), frames(0, 3)
			case zInStream:
				op.In, op.Out = frames(1, 4), frames(0, 2)
			case zOut:
				op.In, op.Out = frames(1, 1), frames(1, 1)
			case zOutStream:
				op.In, op.Out = frames(1, 3), frames(1, 4)
			case zPushOut:
				op.Out = frames(1, 3)
			case zPushIn:
				op.In = frames(1, 3)
			}
			cn.Ops = append(cn.Ops, op)
		}
		s.Conns = append(s.Conns, cn)
	}
	return s
}

// what the real endpoint saw
type zSeen struct {
	op      int
	frames  []wire.Frame
	ended   bool // of a stream
	werr    []error
	answers []z01Frame
}

type zEnd struct {
	c     *pbt.C
	mu    sync.Mutex
	cn    *z01Conn
	kind  int
	seen  map[int]*zSeen // op
	subs  []wire.Frame
	peer  *Peer
	ci    *qrpc.ConnectionInfo
	conn  *qrpc.Connection
	spare int
}

func zNo(cmd qrpc.Cmd) int { return int(cmd >> 8) }

func (e *zEnd) handler(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
	op := zNo(f.Cmd)
	if op >= len(e.cn.Ops) {
		e.c.Failf("handler for an unknown command %x", f.Cmd)
		return
	}
	x := &zSeen{op: op, frames: []wire.Frame{toWire((*qrpc.Frame)(f))}}
	e.mu.Lock()
	if e.seen[op] != nil {
		e.c.Failf("op %d was handled twice", op)
	}
	e.seen[op] = x
	e.mu.Unlock()
	if e.cn.Ops[op].Op == zInStream {
		for {
			y := <-f.FrameCh()
			e.mu.Lock()
			if y == nil {
				x.ended = true
				e.mu.Unlock()
				break
			}
			x.frames = append(x.frames, toWire(y))
			e.mu.Unlock()
		}
	}
	out := e.cn.Ops[op].Out
	for i, fr := range out {
		fl := qrpc.FrameFlag(0)
		if len(out) > 1 {
			fl = qrpc.StreamFlag
			if i == len(out)-1 {
				fl |= qrpc.StreamEndFlag
			}
		}
		err := e.write(w, f.RequestID, qrpc.Cmd(op<<8|i), fl, fr)
		e.mu.Lock()
		x.werr = append(x.werr, err)
		e.mu.Unlock()
	}
}

func (e *zEnd) write(w qrpc.FrameWriter, id uint64, cmd qrpc.Cmd, fl qrpc.FrameFlag, fr z01Frame) error {
	if fr.Codec {
		fl |= qrpc.CodecFlag
	}
	w.StartWrite(id, cmd, fl)
	if fr.Comp {
		fr.Bad = false
		writeSplit(w, fr.bytes(), fr.Split)
		return w.EndWriteCompressed()
	}
	writeSplit(w, fr.out(), fr.Split)
	return w.EndWrite()
}

// inbound makes the frame the peer sends; ok tells whether it decodes
func (e *zEnd) inbound(id uint64, fl byte, cmd uint32, fr z01Frame) (f wire.Frame, p []byte, ok bool) {
	p = fr.bytes()
	f = wire.Frame{ID: id, Flags: fl, Cmd: cmd, Payload: p}
	if !fr.Codec {
		return f, p, true
	}
	f.Flags |= wire.Codec
	if len(p) == 0 {
		return f, p, true
	}
	if e.kind == zNone {
		return f, nil, false
	}
	if fr.Bad {
		p[0] = 0xfd
	}
	enc, err := zEnc(e.kind, p)
	if err != nil || len(enc) == 0 {
		panic("bad codec")
	}
	f.Payload = enc
	if fr.Bad && fr.Comp && (e.kind == zSum || e.kind == zSumIn) {
		f.Payload[0] ^= 1
	}
	return f, p, !fr.Bad
}

// outErr tells whether writing the frame must fail
func (e *zEnd) outErr(fr z01Frame) bool {
	return fr.Codec && !fr.Comp && fr.P.N > 0 && (e.kind == zNone || fr.Bad)
}

// checkOut compares one frame on the wire
func (e *zEnd) checkOut(what string, g wire.Frame, fl byte, cmd uint32, fr z01Frame, strict bool) {
	if g.Flags&^wire.Codec != fl || g.Cmd != cmd {
		e.c.Fatalf("%s: the wire carries %v, expected flags %#x cmd %#x", what, g, fl, cmd)
	}
	p := fr.out()
	coded := g.Flags&wire.Codec != 0
	if fr.Comp {
		fr.Bad = false
		if p = fr.bytes(); !coded && len(p) > 0 {
			e.c.Fatalf("%s: compressed bytes were sent without the codec flag: %v", what, g)
		}
		if !bytes.Equal(g.Payload, p) {
			e.c.Fatalf("%s: compressed bytes were changed: %v", what, g)
		}
		return
	}
	if coded && strict && !fr.Codec {
		e.c.Fatalf("%s: a frame without the codec flag was encoded: %v", what, g)
	}
	if coded && len(p) > 0 {
		if e.kind == zNone {
			e.c.Fatalf("%s: codec flag without a codec: %v", what, g)
		}
		enc, err := zEnc(e.kind, p)
		if err != nil || !bytes.Equal(enc, g.Payload) {
			e.c.Fatalf("%s: flagged as encoded, but the body is not the encoding (%s) of %s: %v", what, short(enc), short(p), g)
		}
		e.c.Label("encoded")
		return
	}
	if !bytes.Equal(g.Payload, p) {
		e.c.Fatalf("%s: body %s instead of %s (codec flag %v, %s)", what, short(g.Payload), short(p), coded, diffAt(g.Payload, p))
	}
	if strict && fr.Codec && e.kind != zNone && len(p) > 0 {
		enc, err := zEnc(e.kind, p)
		if err == nil && len(enc) < len(p) {
			e.c.Fatalf("%s: not encoded although the codec makes it shorter (%d to %d bytes)", what, len(p), len(enc))
		}
		e.c.Label("sent as it is")
	}
}

func runZ01(c *pbt.C, sc any) {
	s := sc.(*z01)
	w := newWorld(c)
	if len(s.Conns) > 5 {
		s.Conns = s.Conns[:5]
	}
	var ends []*zEnd
	for i := range s.Conns {
		cn := &s.Conns[i]
		if len(cn.Ops) > 20 {
			cn.Ops = cn.Ops[:20]
		}
		kind := cn.Codec
		var codec qrpc.CompressorCodec
		if kind < 0 || kind >= zKinds {
			kind = zNone
		} else {
			codec = zcodec{kind}
		}
		e := &zEnd{c: c, cn: cn, kind: kind, seen: map[int]*zSeen{}}
		o := cn.Link.opts()
		o.WStall = nil
		o.Buf = max(o.Buf, 1<<20)
		no := NetOpt{C2S: o, S2C: vnet.Opts{Lat: o.Lat, RChunk: o.RChunk, WChunk: o.WChunk}}
		if cn.Client {
			acc := w.rawServer(fmt.Sprint("raw", i))
			e.conn, _, _ = w.dial(fmt.Sprint("raw", i), qrpc.ConnectionConfig{Codec: codec, WriteFrameChSize: clamp(s.WCh, 0, 100), Handler: qrpc.HandlerFunc(e.handler)}, func(_ *qrpc.Connection, f *qrpc.Frame) {
				e.mu.Lock()
				e.subs = append(e.subs, toWire(f))
				e.mu.Unlock()
			}, no)
			e.peer = w.accept(acc)
		} else {
			srv := w.serve(qrpc.ServerBinding{Addr: fmt.Sprint("srv", i), Codec: codec, WriteFrameChSize: clamp(s.WCh, 0, 100), Handler: qrpc.HandlerFunc(e.handler), SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) {
				e.mu.Lock()
				e.subs = append(e.subs, toWire(f))
				e.mu.Unlock()
			}})
			e.peer = w.rawClient(srv.addrs[0], no)
			c.Quiesce()
			srv.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { e.ci = ci; return true })
			if e.ci == nil {
				c.Fatalf("no connection")
			}
		}
		ends = append(ends, e)
	}
	var done []<-chan struct{}
	for _, e := range ends {
		done = append(done, c.Go(func() { e.run() }))
	}
	for _, d := range done {
		if !c.WaitDone(d, 2*pbt.Long) {
			c.Fatalf("a program hangs")
		}
	}
}

const zSettle = 20 * time.Second

func (e *zEnd) fresh(n int) []wire.Frame {
	var out []wire.Frame
	for _, v := range e.peer.Frames()[n:] {
		out = append(out, v.Frame)
	}
	return out
}

func (e *zEnd) run() {
	c := e.c
	for oi, op := range e.cn.Ops {
		if len(op.In) > 6 {
			op.In = op.In[:6]
			e.cn.Ops[oi].In = op.In
		}
		if len(op.Out) > 6 {
			op.Out = op.Out[:6]
			e.cn.Ops[oi].Out = op.Out
		}
		before := len(e.peer.Frames())
		what := fmt.Sprintf("op %d (%d)", oi, op.Op)
		id := uint64(2*oi + 101) // of the peer's choice
		nb := byte(0)
		if op.NB || e.cn.Client {
			nb = wire.NB
		}
		if e.cn.Client {
			id++
		}
		broken := false
		k := ((op.Op % zOps) + zOps) % zOps
		switch k {
		case zIn, zInStream:
			if len(op.In) == 0 {
				continue
			}
			if k == zIn {
				op.In = op.In[:1]
			}
			var want []wire.Frame
			for i, fr := range op.In {
				fl := nb
				if k == zInStream {
					fl |= wire.Stream
					if i == len(op.In)-1 {
						fl |= wire.StreamEnd
					}
				}
				f, p, ok := e.inbound(id, fl, uint32(oi<<8|i), fr)
				e.peer.Send(f)
				if !ok {
					broken = true
					break
				}
				f.Payload = p
				want = append(want, f)
			}
			time.Sleep(zSettle)
			e.mu.Lock()
			x := e.seen[oi]
			e.mu.Unlock()
			if (x != nil) != (len(want) > 0) {
				c.Fatalf("%s: handled %v, expected %v (codec %d)", what, x != nil, len(want) > 0, e.kind)
			}
			if x != nil {
				e.mu.Lock()
				got := append([]wire.Frame(nil), x.frames...)
				werr := append([]error(nil), x.werr...)
				e.mu.Unlock()
				e.sameFrames(what, got, want)
				if !broken {
					e.answers(what, id, op.Out, werr, e.fresh(before), oi)
				}
			}
		case zOut, zOutStream:
			if len(op.Out) == 0 || len(op.In) == 0 {
				continue
			}
			if k == zOut {
				op.Out, op.In = op.Out[:1], op.In[:1]
			}
			fr := op.Out[0]
			fr.Comp = false
			fl := qrpc.NBFlag
			if fr.Codec {
				fl |= qrpc.CodecFlag
			}
			var err error
			var rid uint64
			var resp qrpc.Response
			var sw qrpc.StreamWriter
			cmd := qrpc.Cmd(oi << 8)
			switch {
			case k == zOut && e.conn != nil:
				rid, resp, err = e.conn.Request(cmd, fl, fr.out())
			case k == zOut:
				rid, resp, err = e.ci.Request(cmd, fl, fr.out())
			case e.conn != nil:
				sw, resp, err = e.conn.StreamRequest(cmd, fl, fr.out())
			default:
				sw, resp, err = e.ci.StreamRequest(cmd, fl, fr.out())
			}
			if (err != nil) != e.outErr(fr) {
				c.Fatalf("%s: error %v, expected a failure: %v (codec %d)", what, err, e.outErr(fr), e.kind)
			}
			wfl := byte(wire.NB)
			if k == zOutStream {
				wfl |= wire.Stream
			}
			type exp struct {
				fl     byte
				cmd    uint32
				fr     z01Frame
				strict bool
			}
			var want []exp
			if err == nil {
				want = append(want, exp{wfl, uint32(cmd), fr, true})
				if sw != nil {
					rid = sw.RequestID()
					for i, x := range op.Out[1:] {
						end := i == len(op.Out)-2 && !x.Comp
						x.Codec = fr.Codec
						if x.Comp {
							x.Bad = false
						}
						sw.StartWrite(cmd + qrpc.Cmd(i) + 1)
						p := x.out()
						sw.WriteBytes(p)
						var err error
						if x.Comp {
							err = sw.EndWriteCompressed()
						} else {
							err = sw.EndWrite(end)
						}
						if err != nil {
							if !e.outErr(x) {
								c.Fatalf("%s frame %d: error %v without a reason (codec %d, its flag %v)", what, i+1, err, e.kind, fr.Codec)
							}
							continue
						}
						fl := wfl
						if end {
							fl |= wire.StreamEnd
						}
						want = append(want, exp{fl, uint32(cmd) + uint32(i) + 1, x, false})
					}
				}
			}
			time.Sleep(zSettle)
			got := e.fresh(before)
			if len(got) != len(want) {
				c.Fatalf("%s: %d frames on the wire, %d were written: %v", what, len(got), len(want), got)
			}
			for i, g := range got {
				if g.ID != rid {
					c.Fatalf("%s: id %d instead of %d", what, g.ID, rid)
				}
				x := want[i]
				e.checkOut(fmt.Sprint(what, " frame ", i), g, x.fl, x.cmd, x.fr, x.strict)
			}
			if err != nil {
				break
			}
			// the answer
			var ans []wire.Frame
			ended := false
			for i, fr := range op.In {
				var fl byte
				if len(op.In) > 1 {
					fl = wire.Stream
					if i == len(op.In)-1 {
						fl |= wire.StreamEnd
					}
				}
				f, p, ok := e.inbound(rid, fl, uint32(oi<<8|0x80|i), fr)
				e.peer.Send(f)
				if !ok {
					broken = true
					break
				}
				f.Payload = p
				ans = append(ans, f)
				ended = i == len(op.In)-1
			}
			var first *qrpc.Frame
			var ferr error
			var rest []wire.Frame
			if !c.Do(pbt.Long, func() {
				first, ferr = resp.GetFrame()
				if first != nil {
					rest = append(rest, toWire(first))
					if len(op.In) > 1 {
						for x := range first.FrameCh() {
							rest = append(rest, toWire(x))
						}
					}
				}
			}) {
				c.Fatalf("%s: waiting for the answer hangs (broken: %v)", what, broken)
			}
			if len(ans) == 0 {
				if ferr == nil {
					c.Fatalf("%s: an answer although it cannot be decoded: %v", what, rest)
				}
			} else {
				if ferr != nil {
					c.Fatalf("%s: no answer: %v", what, ferr)
				}
				if broken && len(rest) < len(ans) {
					// lost with the connection
					ans = ans[:len(rest)]
				}
				e.sameFrames(what+" answer", rest, ans)
			}
			_ = ended
		case zPushOut:
			var want []z01Frame
			for i, fr := range op.Out {
				cmd := qrpc.Cmd(oi<<8 | i)
				var err error
				if e.conn != nil {
					fr.Comp = false
					fl := qrpc.PushFlag
					if fr.Codec {
						fl |= qrpc.CodecFlag
					}
					_, _, err = e.conn.Request(cmd, fl, fr.out())
				} else {
					err = e.write(e.ci.GetWriter(), 0xffff00+2*uint64(oi)+1, cmd, qrpc.PushFlag, fr)
				}
				if (err != nil) != e.outErr(fr) {
					c.Fatalf("%s: error %v, expected a failure: %v (codec %d)", what, err, e.outErr(fr), e.kind)
				}
				if err == nil {
					fr.Split = i
					want = append(want, fr)
				}
			}
			time.Sleep(zSettle)
			got := e.fresh(before)
			if len(got) != len(want) {
				c.Fatalf("%s: %d frames on the wire, %d were written: %v", what, len(got), len(want), got)
			}
			for i, g := range got {
				e.checkOut(fmt.Sprint(what, " push ", i), g, wire.Push, uint32(oi<<8|want[i].Split), want[i], true)
			}
		case zPushIn:
			e.mu.Lock()
			e.subs = nil
			e.mu.Unlock()
			var want []wire.Frame
			for i, fr := range op.In {
				f, p, ok := e.inbound(uint64(5000+oi*100+i), wire.Push, uint32(oi<<8|i), fr)
				e.peer.Send(f)
				if !ok {
					broken = true
					break
				}
				f.Payload = p
				want = append(want, f)
			}
			time.Sleep(zSettle)
			e.mu.Lock()
			got := append([]wire.Frame(nil), e.subs...)
			e.mu.Unlock()
			e.sameFrames(what, got, want)
		}
		if e.peer.Bad() != nil {
			c.Fatalf("%s: malformed bytes on the wire: %v", what, e.peer.Bad())
		}
		if broken {
			time.Sleep(zSettle)
			if !e.peer.Ended() {
				c.Fatalf("%s: an undecodable body (codec %d) did not end the connection", what, e.kind)
			}
			c.Label("undecodable")
			return
		}
		if e.peer.Ended() {
			c.Fatalf("%s: the connection ended without a reason", what)
		}
	}
	if len(e.cn.Ops) > 0 {
		c.NonTrivial()
	}
}

func (e *zEnd) sameFrames(what string, got, want []wire.Frame) {
	if len(got) != len(want) {
		e.c.Fatalf("%s: %d frames delivered, %d were sent: %v instead of %v (codec %d)", what, len(got), len(want), got, want, e.kind)
	}
	for i := range got {
		g, w := got[i], want[i]
		if g.ID != w.ID || (g.Flags^w.Flags)&^wire.Codec != 0 || g.Cmd != w.Cmd || !bytes.Equal(g.Payload, w.Payload) {
			e.c.Fatalf("%s: frame %d delivered as %v instead of %v (%s, codec %d)", what, i, g, w, diffAt(g.Payload, w.Payload), e.kind)
		}
	}
}

// answers compares a handler's answer
func (e *zEnd) answers(what string, id uint64, out []z01Frame, werr []error, got []wire.Frame, oi int) {
	c := e.c
	if len(werr) != len(out) {
		c.Fatalf("%s: its handler has not finished", what)
	}
	closed := false
	n := 0
	for i, fr := range out {
		want := e.outErr(fr)
		if (werr[i] != nil) != want {
			c.Fatalf("%s: writing answer frame %d gave %v, expected a failure: %v (codec %d)", what, i, werr[i], want, e.kind)
		}
		if want {
			c.Label("failed write")
			continue
		}
		fl := byte(0)
		if len(out) > 1 {
			fl = wire.Stream
			if i == len(out)-1 {
				fl |= wire.StreamEnd
			}
		}
		if n >= len(got) {
			c.Fatalf("%s: answer frame %d is not on the wire", what, i)
		}
		if got[n].ID != id {
			c.Fatalf("%s: the answer has id %d instead of %d", what, got[n].ID, id)
		}
		e.checkOut(fmt.Sprint(what, " answer ", i), got[n], fl, uint32(oi<<8|i), fr, true)
		n++
		closed = i == len(out)-1
	}
	got = got[n:]
	if closed {
		if len(got) != 0 {
			c.Fatalf("%s: more on the wire than written: %v", what, got)
		}
		return
	}
	if len(got) != 1 || got[0].ID != id || got[0].Flags&wire.Rst == 0 || len(got[0].Payload) != 0 {
		c.Fatalf("%s: not answered to its end, expected a reset, the wire carries %v", what, got)
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "Z01",
		Title: "compression is transparent and fails safe",
		Rule:  "generated: programs of requests, answers, streams and pushes in both directions and both roles, payloads, flags, precompressed bodies, over codecs which work in place or not, shrink, keep or grow the size, fail to encode or decode, or are missing; a reference peer does the coding. Oracle: every frame on the wire and every frame delivered, which writes fail, which connections end. Non-trivial: a program completed",
		Gen:   genZ01, New: func() any { return &z01{} }, Run: runZ01,
		Quick:    pbt.Budget{Cases: 30000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 900},
	})
}
