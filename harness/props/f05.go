package props

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"time"

	"verif/pbt"
	"verif/vnet"

	"github.com/gorilla/websocket"
	"github.com/zhiqiangxu/qrpc"
	wsserver "github.com/zhiqiangxu/qrpc/ws/server"
)

// ---- F05: the exported byte Reader and Writer and the websocket net.Conn are
// exact: every byte once and in order, timeouts to the microsecond

type f05Write struct {
	P    Pay
	Gap  int // milliseconds before
	Text bool
}

type f05Read struct {
	N    int
	U32  bool
	Max  int // seconds, ReadBytesWithMaxTimeout
	Set  int // SetReadTimeout before, if not 0
	Gap  int
	Conn bool // reads from the net.Conn itself, with a deadline in Max seconds (if any)
}

type f05Conn struct {
	Up     bool // the client writes
	Raw    bool // the writer is not the library's
	Start  int  // milliseconds
	Link   Link
	Small  bool // the link's buffer is used
	Writes []f05Write
	WTO    int
	Reads  []f05Read
	RTO    int
	Ctor   bool
	End    int // milliseconds before the writer closes
}

type f05 struct {
	Tr    int
	Conns []f05Conn
}

func genF05(r *pbt.R) any {
	s := &f05{Tr: r.W(4, 1, 3, 1)}
	for n := r.N(1, 5); n > 0; n-- {
		d := f05Conn{Up: r.P(1, 2), Raw: r.P(1, 3), Start: pbt.Pick(r, 0, 0, r.Intn(20), 1000*r.Intn(20)), Small: r.P(1, 3), End: pbt.Pick(r, 0, r.Intn(5000), 100000)}
		sum := 0
		max := pbt.Pick(r, 10, 100, 3000, 3000, 40000)
		gap := func() int { return pbt.Pick(r, 0, 0, 0, r.Intn(30), 1000*r.Intn(4)+r.Intn(1000)) }
		for k := r.N(1, 8); k > 0; k-- {
			x := f05Write{P: genPay(r, max), Gap: gap()}
			sum += x.P.N
			d.Writes = append(d.Writes, x)
		}
		d.Link = genLink(r, sum)
		if !d.Small {
			d.Link.StallU = nil
		}
		if d.Raw && s.Tr >= trWS && r.P(1, 4) {
			d.Writes[len(d.Writes)-1].Text = true
		}
		d.WTO = pbt.Pick(r, -1, 0, r.Range(1, 5))
		d.RTO = pbt.Pick(r, -1, 0, r.Range(1, 5))
		d.Ctor = r.P(1, 2)
		left := sum
		for k := r.N(1, 15); k > 0; k-- {
			x := f05Read{Gap: gap()}
			switch r.W(4, 2, 2, 2, 1) {
			case 0:
				x.N = r.Intn(max)
			case 1:
				x.N = r.Intn(20)
			case 2:
				x.U32 = true
			case 3:
				x.N = pbt.Pick(r, 0, 1, 1023, 1024, 1025, 2048, left)
			case 4:
				x.Conn = true
				x.N = 1 + r.Intn(max)
			}
			x.Max = pbt.Pick(r, 0, 0, r.Range(1, 5))
			x.Set = pbt.Pick(r, 0, 0, 0, -1, r.Range(1, 6))
			if left -= x.N; left < 0 {
				left = 0
			}
			d.Reads = append(d.Reads, x)
		}
		s.Conns = append(s.Conns, d)
	}
	return s
}

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

// f05Ends connects and gives both ends
func (w *World) f05Ends(addr string, l net.Listener, d *f05Conn, o NetOpt) (cl, sv net.Conn, err error) {
	conf, _ := tlsConfs()
	rawSv, rawCl := d.Raw && !d.Up, d.Raw && d.Up
	type got struct {
		nc  net.Conn
		err error
	}
	ch := make(chan got, 1)
	switch {
	case rawSv:
		go w.rawAccept(l, func(_ *vnet.Conn, nc net.Conn) { ch <- got{nc, nil} })
	case w.tr >= trWS:
		var tc *tls.Config
		if w.tr == trWSS {
			tc = conf
		}
		ov := wsserver.OverlayNetwork(l, tc)
		w.c.Cleanup(func() { ov.Close() })
		go func() {
			nc, err := ov.Accept()
			ch <- got{nc, err}
		}()
	default:
		go func() {
			nc, err := l.Accept()
			if err == nil && w.tr == trTLS {
				t := tls.Server(nc, conf)
				err = t.Handshake()
				nc = t
			}
			ch <- got{nc, err}
		}()
	}
	c, _, err := w.net.Dial(addr, o.C2S, o.S2C)
	if err != nil {
		return
	}
	w.c.Cleanup(func() { c.Break(); c.Close() })
	if rawCl {
		cl, err = w.rawClientEnd(addr, c, nil, nil)
	} else {
		cl, err = w.clientEnd(addr, c, nil, nil)
	}
	if err != nil {
		return
	}
	g := <-ch
	return cl, g.nc, g.err
}

func runF05(c *pbt.C, sc any) {
	s := sc.(*f05)
	w := newWorld(c)
	w.tr = clamp(s.Tr, 0, nTrs-1)
	w.net.QuickAlert = w.tr != trTCP
	s.Conns = s.Conns[:min(len(s.Conns), 10)]
	c.Label("over %s", trNames[w.tr])
	var done []<-chan struct{}
	for i := range s.Conns {
		i, d := i, &s.Conns[i]
		done = append(done, c.Go(func() {
			time.Sleep(time.Duration(clamp(d.Start, 0, 1000000)) * time.Millisecond)
			runF05Conn(w, i, d)
		}))
	}
	for _, d := range done {
		if !c.WaitDone(d, 10*pbt.Long) {
			c.Fatalf("a read or write never ends")
		}
	}
}

func runF05Conn(w *World, i int, d *f05Conn) {
	c := w.c
	addr := string(rune('a' + i))
	l, err := w.net.Listen(addr)
	if err != nil {
		c.Fatalf("%v", err)
	}
	link := d.Link.opts()
	if !d.Small {
		link.Buf = 64 << 20
		link.WStall = nil
	} else if link.Buf < 1 {
		link.Buf = 1
	}
	o := NetOpt{C2S: vnet.Opts{Buf: 1 << 20}, S2C: vnet.Opts{Buf: 1 << 20}}
	if d.Up {
		o.C2S = link
	} else {
		o.S2C = link
	}
	// the handshakes take their time over such a link
	cl, sv, err := w.f05Ends(addr, l, d, o)
	if err != nil {
		c.Failf("connection %d: %v", i, err)
		return
	}
	if cl.LocalAddr().String() != sv.RemoteAddr().String() || cl.RemoteAddr().String() != sv.LocalAddr().String() {
		c.Failf("connection %d: from %v to %v at one end, from %v to %v at the other one", i, cl.LocalAddr(), cl.RemoteAddr(), sv.RemoteAddr(), sv.LocalAddr())
	}
	wr, rd := cl, sv
	if !d.Up {
		wr, rd = sv, cl
	}
	time.Sleep(time.Minute)
	start := time.Now()
	at := func(t time.Time) time.Duration { return t.Sub(start) }

	// the writer
	type arrival struct {
		upto int
		at   time.Time
	}
	var (
		want     []byte // all bytes which are to be written
		arrivals []arrival
		limit    = -1 // bytes before a text message
		closed   time.Time
	)
	for _, x := range d.Writes {
		if x.Text && d.Raw && w.tr >= trWS {
			if limit < 0 {
				limit = len(want)
			}
			continue
		}
		want = append(want, x.P.Bytes()...)
	}
	exact := !d.Small
	wto := clamp(d.WTO, -1, 1000)
	if exact {
		// a plan, so that the reader can look ahead
		t, n := start, 0
		for _, x := range d.Writes {
			t = t.Add(time.Duration(clamp(x.Gap, 0, 100000))*time.Millisecond + 3*time.Microsecond)
			if !(x.Text && d.Raw && w.tr >= trWS) {
				n += clamp(x.P.N, 0, 1<<20)
			}
			arrivals = append(arrivals, arrival{n, t.Add(link.Lat)})
		}
		closed = t.Add(time.Duration(clamp(d.End, 0, 1000000))*time.Millisecond + 3*time.Microsecond)
	}
	wdone := c.Go(func() {
		defer func() {
			if d.Raw && w.tr >= trWS {
				// it sent pings, and a pong for them must not fail
				if tc, ok := wr.(*tapConn); ok {
					tc.raw.CloseWrite()
				} else {
					wr.(*wsRaw).Conn.(*vnet.Conn).CloseWrite()
				}
				return
			}
			wr.Close()
		}()
		lw := qrpc.NewWriterWithTimeout(context.Background(), wr, wto)
		if wto < 0 && d.Ctor {
			lw = qrpc.NewWriter(context.Background(), wr)
		}
		for k, x := range d.Writes {
			time.Sleep(time.Duration(clamp(x.Gap, 0, 100000))*time.Millisecond + 3*time.Microsecond)
			b := x.P.Bytes()
			t := time.Now()
			if x.Text && d.Raw && w.tr >= trWS {
				nc := wr
				if tc, ok := nc.(*tapConn); ok {
					nc = tc.Conn
				}
				nc.(*wsRaw).wc.WriteMessage(websocket.TextMessage, []byte("text"))
				continue
			}
			if d.Raw {
				if len(b) > 0 {
					if _, err := wr.Write(b); err != nil {
						return
					}
				}
				continue
			}
			n, err := lw.Write(b)
			took := time.Since(t)
			to := time.Duration(wto) * time.Second
			switch {
			case err == nil && n != len(b):
				c.Failf("connection %d, write %d: %d of %d bytes and no error", i, k, n, len(b))
			case n < 0 || n > len(b):
				c.Failf("connection %d, write %d: %d of %d bytes", i, k, n, len(b))
			case err == nil && to > 0 && took > to+10*time.Microsecond:
				c.Failf("connection %d, write %d took %v with a timeout of %v", i, k, took, to)
			case err != nil && isTimeout(err) && (to <= 0 || took < to || took > to+10*time.Microsecond):
				c.Failf("connection %d, write %d times out after %v with a timeout of %v", i, k, took, to)
			case err != nil && exact:
				c.Failf("connection %d, write %d: %v", i, k, err)
			case err == nil && exact && took > 0:
				c.Failf("connection %d, write %d takes %v although the connection takes everything at once", i, k, took)
			}
			if vc, ok := wr.(*vnet.Conn); ok {
				sum := 0
				for _, y := range d.Writes[:k] {
					sum += len(y.P.Bytes())
				}
				if int(vc.Accepted()) != sum+n {
					c.Failf("connection %d, write %d returns %d, the connection accepted %d", i, k, n, int(vc.Accepted())-sum)
				}
			}
			if err != nil {
				c.Label("write error")
				return
			}
		}
		time.Sleep(time.Duration(clamp(d.End, 0, 1000000))*time.Millisecond + 3*time.Microsecond)
	})

	// the reader
	rto := clamp(d.RTO, -1, 1000)
	lr := qrpc.NewReaderWithTimeout(context.Background(), rd, rto)
	if rto < 0 && d.Ctor {
		lr = qrpc.NewReader(nil, rd)
	}
	var conn net.Conn = rd
	pos := 0
	buffered := false // the Reader may hold bytes
	partial := false
	for k, x := range d.Reads {
		if x.Conn && buffered {
			continue
		}
		time.Sleep(time.Duration(clamp(x.Gap, 0, 100000)) * time.Millisecond)
		if x.Set != 0 {
			rto = clamp(x.Set, -1, 1000)
			lr.SetReadTimeout(rto)
		}
		n := clamp(x.N, 0, 1<<20)
		if x.U32 {
			n = 4
		}
		to := time.Duration(rto) * time.Second
		if m := time.Duration(clamp(x.Max, 0, 1000)) * time.Second; m > 0 && !x.U32 && !x.Conn && to > m {
			to = m
		}
		b := make([]byte, n)
		t := time.Now()
		var err error
		switch {
		case x.Conn:
			var dl time.Time
			if to = time.Duration(clamp(x.Max, 0, 1000)) * time.Second; to > 0 {
				dl = t.Add(to)
			}
			if err = conn.SetDeadline(dl); err != nil {
				c.Failf("connection %d: SetDeadline: %v", i, err)
			}
			_, err = io.ReadFull(conn, b)
		case x.U32:
			var v uint32
			v, err = lr.ReadUint32()
			binary.BigEndian.PutUint32(b, v)
		case x.Max > 0:
			err = lr.ReadBytesWithMaxTimeout(b, clamp(x.Max, 0, 1000))
		default:
			err = lr.ReadBytes(b)
		}
		now := time.Now()
		if !x.Conn {
			buffered = true
		}
		if n > 0 && n < 1024 {
			partial = true
		}
		if err == nil {
			if pos+n > len(want) || !bytes.Equal(b, want[pos:pos+n]) || limit >= 0 && pos+n > limit {
				c.Failf("connection %d, read %d of %d bytes at %d: wrong bytes", i, k, n, pos)
				break
			}
			pos += n
			if to > 0 && now.Sub(t) > to+10*time.Microsecond {
				c.Failf("connection %d, read %d took %v with a timeout of %v", i, k, now.Sub(t), to)
			}
		} else if isTimeout(err) && (to <= 0 || now.Sub(t) < to || now.Sub(t) > to+10*time.Microsecond) {
			c.Failf("connection %d, read %d times out after %v with a timeout of %v", i, k, now.Sub(t), to)
		}
		if exact && n > 0 {
			// when are the bytes there?
			ready, ok := t, false
			last := pos + n
			if err == nil {
				last = pos
			}
			text := limit >= 0 && last > limit
			for _, a := range arrivals {
				if a.upto >= last && !text {
					if a.at.After(ready) {
						ready = a.at
					}
					ok = true
					break
				}
			}
			late := to > 0 && ready.After(t.Add(to))
			if !ok {
				// the end of the connection, or a text message
				ready = t
				if closed.After(t) {
					ready = closed
				}
				if text {
					ready = t
				}
				late = to > 0 && ready.After(t.Add(to+2*link.Lat))
			}
			tie := to > 0 && ready.Sub(t.Add(to)).Abs() < 10*time.Microsecond+2*link.Lat && !ok || to > 0 && ready.Sub(t.Add(to)).Abs() < 10*time.Microsecond
			switch {
			case tie:
			case ok && !late && err != nil:
				c.Failf("connection %d, read %d of %d bytes at %d, started at %v, timeout %v: %v although the bytes are there at %v", i, k, n, pos, at(t), to, err, at(ready))
			case ok && !late && now.Sub(ready) > time.Microsecond:
				c.Failf("connection %d, read %d of %d bytes at %d, started at %v, ends at %v, the bytes were there at %v", i, k, n, pos, at(t), at(now), at(ready))
			case late && !isTimeout(err):
				c.Failf("connection %d, read %d of %d bytes at %d, started at %v, timeout %v: %v", i, k, n, pos, at(t), to, err)
			case !ok && !late && err == nil:
				c.Failf("connection %d, read %d: bytes from nowhere", i, k)
			case !ok && !late && !text && now.Before(ready):
				c.Failf("connection %d, read %d of %d bytes at %d ends at %v before the connection does (%v): %v", i, k, n, pos, at(now), at(ready), err)
			}
			if late || !ok {
				c.Label("read error")
			}
		}
		if err != nil {
			break
		}
	}
	lr.Finalize()
	if limit < 0 {
		// a deadline is one for both directions
		if err := rd.SetDeadline(time.Now().Add(time.Second)); err != nil {
			c.Failf("connection %d: SetDeadline: %v", i, err)
		}
		time.Sleep(time.Second + time.Millisecond)
		if _, err := rd.Write([]byte("late")); err == nil || exact && !isTimeout(err) {
			c.Failf("connection %d: a write after the deadline: %v", i, err)
		}
	}
	if partial && len(want) > 1 {
		c.NonTrivial()
	}
	if !exact {
		rd.Close()
	}
	<-wdone
	rd.Close()
	wr.Close()
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "F05",
		Title: "byte reader and writer",
		Rule:  "generated: sequences of reads and writes with sizes around the buffer size, pauses, timeouts which change, and Readers which are finalized with bytes left, on up to five connections at once over all transports, with fragmentation, latency and small buffers, the writer being the library or a reference websocket which uses fragments, pings, empty and text messages; oracle: the bytes, and the virtual time at which each operation has to end. Non-trivial: reads shorter than the Reader's buffer",
		Gen:   genF05,
		New:   func() any { return &f05{} }, Run: runF05,
		Quick:    pbt.Budget{Cases: 20000, MaxSec: 40},
		Thorough: pbt.Budget{Cases: 400000, MaxSec: 600},
	})
}
