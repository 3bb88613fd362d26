package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/pbt"
	"verif/wire"

	"github.com/gorilla/websocket"
)

// ---- T01: the command line tools

const (
	t1Answer = iota
	t1Close  // without an answer
	t1Reset
	t1Codec // an answer which cannot be decoded
	nT1
)

type t01 struct {
	Curl bool
	// of the request, as written on the command line
	Cmd  int64
	Flag int64
	ID   uint64
	Pay  Pay
	Text int // spelling of the numbers
	WS   bool
	Args int // what else is wrong with the arguments
	// of the response
	Kind  int
	RFlag int
	RCmd  int
	RPay  Pay
	Push  int // pushed frames before it
	Chunk []int
}

func genT01(r *pbt.R) any {
	s := &t01{Curl: r.P(1, 2), Text: r.Intn(4), WS: r.P(1, 3)}
	num := func(max int64) int64 {
		switch r.W(3, 3, 1, 1, 1) {
		case 0:
			return int64(r.Intn(64))
		case 1:
			return int64(r.U64()>>2) % (max + 1)
		case 2:
			return max
		case 3:
			return max + 1 + int64(r.Intn(2))*int64(r.U64()>>40)
		}
		return -1 - int64(r.Intn(300))
	}
	s.Cmd, s.Flag = num(0xffffff), num(0xff)
	if s.Curl && r.P(2, 3) {
		s.Flag = int64(pbt.Pick(r, 0, 8, 8, 1, 2, 3, 9, 64, 128, 16, 4, 32))
		if r.P(5, 6) {
			s.Cmd = int64(r.Intn(1 << 24))
		}
	}
	s.ID = pbt.Pick(r, r.U64(), r.U64()>>r.Intn(64), 0, 1<<64-1)
	pay := func() Pay {
		return Pay{N: pbt.Pick(r, 0, 1, r.Intn(50), r.Intn(3000)), S: uint64(r.Intn(1 << 30))}
	}
	s.Pay, s.RPay = pay(), pay()
	if r.P(1, 10) {
		s.Args = r.Range(1, 6)
	}
	s.Kind = r.W(8, 1, 1, 1)
	s.RFlag = pbt.Pick(r, 0, 0, wire.Stream, wire.StreamEnd, wire.Stream|wire.StreamEnd, wire.NB, 64, 128, 192|wire.NB)
	s.RCmd = r.Intn(1 << 24)
	if r.P(1, 5) {
		s.Push = r.Range(1, 3)
	}
	for n := r.Intn(4); n > 0; n-- {
		s.Chunk = append(s.Chunk, r.Range(1, 30))
	}
	return s
}

// arg makes bytes which can be an argument of a process
func (p Pay) arg() string {
	b := Pay{clamp(p.N, 0, 100000), p.S}.Bytes()
	for i := range b {
		if b[i] == 0 {
			b[i] = '\n'
		}
	}
	return string(b)
}

var (
	t1Once sync.Once
	t1Dir  string
)

// t1Tools builds the tools once per process
func t1Tools(c *pbt.C) string {
	t1Once.Do(func() {
		dir, err := os.MkdirTemp("", "verif-tools.")
		if err != nil {
			panic(err)
		}
		for _, f := range []string{"go.mod", "go.sum"} {
			b, err := os.ReadFile(harnessDir() + "/" + f)
			if err != nil {
				panic(err)
			}
			put(dir, f, string(b))
		}
		if out, err := goTool(c, dir, "build", "-o", dir+"/", "github.com/zhiqiangxu/qrpc/tool/packet", "github.com/zhiqiangxu/qrpc/tool/qrpcurl"); err != nil {
			panic("the tools do not compile: " + firstLines(out, 5))
		}
		t1Dir = dir
	})
	return t1Dir
}

func run1(c *pbt.C, prog string, args ...string) (stdout, stderr string, code int) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, prog, args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	if ctx.Err() != nil {
		c.Fatalf("%q hangs; output %q %q", args, o.String(), e.String())
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		panic(err)
	}
	if ee != nil {
		code = ee.ExitCode()
	}
	if strings.Contains(e.String(), "panic:") || strings.Contains(e.String(), "fatal error:") {
		c.Fatalf("%q crashes: %s", args, firstLines(e.String(), 6))
	}
	return o.String(), e.String(), code
}

func (s *t01) number(v int64, hex bool) string {
	switch clamp(s.Text, 0, 3) {
	case 1:
		if v >= 0 && hex {
			return fmt.Sprintf("0x%x", v)
		}
	case 2:
		if v >= 0 && !hex {
			return fmt.Sprintf("%03d", v)
		}
	}
	return strconv.FormatInt(v, 10)
}

func runT01(c *pbt.C, sc any) {
	s := sc.(*t01)
	dir := t1Tools(c)
	if s.Curl {
		s.curl(c, dir+"/qrpcurl")
	} else {
		s.packet(c, dir+"/packet")
	}
}

func (s *t01) packet(c *pbt.C, prog string) {
	p := s.Pay.arg()
	args := []string{"-c", s.number(s.Cmd, true), "-f=" + s.number(s.Flag, true), "-r", strconv.FormatUint(s.ID, 10), "-p", p}
	valid := s.Cmd >= 0 && s.Cmd <= 0xffffff && s.Flag >= 0 && s.Flag <= 0xff
	want := wire.Frame{ID: s.ID, Flags: byte(s.Flag), Cmd: uint32(s.Cmd), Payload: []byte(p)}
	switch clamp(s.Args, 0, 6) { // defaults
	case 1:
		args, want.Payload = args[:5], nil
	case 2:
		args, want.Payload, want.ID = args[:3], nil, 0
	case 3:
		args[3], args[4], want.ID = "-c", s.number(s.Cmd, true), 0
	case 4:
		args[4] = "18446744073709551616"
		valid = false
	case 5:
		args[1] = "x" + args[1]
		valid = false
	case 6:
		args = nil
		want, valid = wire.Frame{}, true
	}
	out, stderr, code := run1(c, prog, args...)
	what := fmt.Sprintf("packet %s", short([]byte(fmt.Sprintf("%q", args))))
	if !valid {
		c.Label("packet: invalid option")
		if code == 0 || strings.Contains(out, "packet is") {
			c.Fatalf("%s: accepted: exit code %d, %q", what, code, firstLines(out, 3))
		}
		return
	}
	b := wire.Encode(want)
	if text := fmt.Sprintf("packet is: %x\nlength:%x\nrequestID:%x\nflag:%x\ncmd:%x\npayload:%x\n", b, b[:4], b[4:12], b[12:13], b[13:16], b[16:]); out != text || code != 0 {
		c.Fatalf("%s: exit code %d, printed %s %s instead of %s", what, code, firstLines(out, 8), firstLines(stderr, 2), firstLines(text, 8))
	}
	c.Label("packet")
	c.NonTrivial()
}

func (s *t01) reply(f wire.Frame) (b []byte) {
	for i := 0; i < clamp(s.Push, 0, 10); i++ {
		b = append(b, wire.Encode(wire.Frame{ID: uint64(2 * i), Flags: wire.Push, Cmd: 77, Payload: []byte("[response]")})...)
	}
	switch clamp(s.Kind, 0, nT1-1) {
	case t1Answer:
		b = append(b, wire.Encode(s.answer(f.ID))...)
	case t1Reset:
		b = append(b, wire.Encode(wire.Frame{ID: f.ID, Flags: wire.Rst, Cmd: 3})...)
	case t1Codec:
		b = append(b, wire.Encode(wire.Frame{ID: f.ID, Flags: wire.Codec, Cmd: 3, Payload: []byte("encoded")})...)
	}
	return
}

func (s *t01) answer(id uint64) wire.Frame {
	return wire.Frame{ID: id, Flags: byte(s.RFlag) &^ (wire.Push | wire.Rst | wire.Codec), Cmd: uint32(s.RCmd) & 0xffffff, Payload: Pay{clamp(s.RPay.N, 0, 100000), s.RPay.S}.Bytes()}
}

func (s *t01) chunks(b []byte, write func([]byte) error) {
	for _, n := range s.Chunk {
		n = min(max(n, 1), len(b))
		if n > 0 && write(b[:n]) != nil {
			return
		}
		b = b[n:]
	}
	if len(b) > 0 {
		write(b)
	}
}

func (s *t01) curl(c *pbt.C, prog string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Label("no socket")
		return
	}
	defer l.Close()
	var (
		mu   sync.Mutex
		got  []wire.Frame
		dec  wire.Decoder
		bad  error
		done = make(chan struct{})
	)
	// feed takes what arrives, and tells whether the connection ends
	feed := func(b []byte, write func([]byte) error) bool {
		mu.Lock()
		defer mu.Unlock()
		fs, err := dec.Feed(b)
		if err != nil {
			bad = err
			return true
		}
		got = append(got, fs...)
		for _, f := range fs {
			if f.Flags&wire.Push == 0 {
				s.chunks(s.reply(f), write)
				return s.Kind == t1Close
			}
		}
		return false
	}
	if s.WS {
		up := websocket.Upgrader{}
		srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, rq *http.Request) {
			ws, err := up.Upgrade(rw, rq, nil)
			if err != nil {
				return
			}
			defer ws.Close()
			for {
				_, b, err := ws.ReadMessage()
				if err != nil || feed(b, func(b []byte) error { return ws.WriteMessage(websocket.BinaryMessage, b) }) {
					return
				}
			}
		})}
		go func() { srv.Serve(l); close(done) }()
		defer srv.Close()
	} else {
		go func() {
			defer close(done)
			nc, err := l.Accept()
			if err != nil {
				return
			}
			defer nc.Close()
			b := make([]byte, 4096)
			for {
				n, err := nc.Read(b)
				if n > 0 && feed(b[:n], func(b []byte) error { _, err := nc.Write(b); return err }) || err != nil {
					return
				}
			}
		}()
	}
	addr := l.Addr().String()
	cmd, flg, p := s.number(s.Cmd, false), s.number(s.Flag, true), s.Pay.arg()
	valid := s.Cmd >= 0 && s.Cmd <= 0xffffff && s.Flag >= 0 && s.Flag <= 0xff
	args := []string{"-f=" + flg}
	if s.Text%2 == 1 {
		args = []string{"--flag", flg}
	}
	if s.Flag == 0 && s.Text == 2 {
		args = nil
	}
	if s.WS {
		args = append(args, "-w")
	}
	switch clamp(s.Args, 0, 6) {
	case 0, 6:
		args = append(args, addr+"/"+cmd, p)
	case 1:
		args, valid = append(args, addr, p), false
	case 2:
		args, valid = append(args, addr+"/"+cmd), false
	case 3:
		args, valid = append(args, addr+"/"+cmd+"/", p), false
	case 4:
		args, valid = append(args, addr+"/x"+cmd, p), false
	case 5:
		args, valid = append(args, addr+"/"+cmd, p, p), false
	}
	out, stderr, code := run1(c, prog, args...)
	mu.Lock()
	frames, badErr, rest := got, bad, dec.Pending()
	mu.Unlock()
	what := "qrpcurl " + short([]byte(fmt.Sprintf("%q", args)))
	if badErr != nil || rest > 0 {
		c.Fatalf("%s: sent malformed bytes: %v, %d left", what, badErr, rest)
	}
	f := wire.Frame{Flags: byte(s.Flag) &^ (wire.Stream | wire.StreamEnd), Cmd: uint32(s.Cmd), Payload: []byte(p)}
	if len(p) == 0 {
		f.Flags &^= wire.Codec
	}
	if f.Flags&(wire.Codec|wire.Rst) != 0 {
		valid = false // it has no codec, and nothing to reset
	}
	if !valid {
		c.Label("qrpcurl: invalid option")
		if len(frames) > 0 || strings.Contains(out, "[request]") || strings.Contains(out, "[response]") {
			c.Fatalf("%s: sent %v, printed %q", what, frames, firstLines(out, 5))
		}
		return
	}
	if f.Flags&wire.Push != 0 {
		// the frame may still be on its way when the tool has ended
		for i := 0; i < 2000; i++ {
			mu.Lock()
			frames = got
			mu.Unlock()
			if len(frames) > 0 {
				break
			}
			time.Sleep(time.Millisecond)
		}
	}
	if len(frames) != 1 {
		c.Fatalf("%s: sent %d frames %v; exit code %d, %q %q", what, len(frames), frames, code, firstLines(out, 5), firstLines(stderr, 3))
	}
	f.ID = frames[0].ID
	if g := frames[0]; g.Flags != f.Flags || g.Cmd != f.Cmd || !bytes.Equal(g.Payload, f.Payload) {
		c.Fatalf("%s: sent %v instead of %v", what, g, f)
	}
	text := fmt.Sprintf("[request]\nflag: %d\ncmd: %d\npayload:\n%s\n\n", s.Flag, s.Cmd, p)
	switch {
	case f.Flags&wire.Push != 0:
		c.Label("qrpcurl: push")
		if out != text || code != 0 {
			c.Fatalf("%s: printed %q, exit code %d, %q", what, short([]byte(out)), code, firstLines(stderr, 3))
		}
	case s.Kind == t1Answer:
		a := s.answer(0)
		text += fmt.Sprintf("[response]\nflag: %d\ncmd: %d\npayload:\n%s\n", a.Flags, a.Cmd, a.Payload)
		if out != text || code != 0 {
			c.Fatalf("%s: exit code %d, printed %q instead of %q, %s", what, code, short([]byte(out)), short([]byte(text)), firstLines(stderr, 3))
		}
		c.Label("qrpcurl")
	default:
		c.Label("qrpcurl: no answer")
		if strings.Contains(strings.TrimPrefix(out, text), "[response]") || code == 0 {
			c.Fatalf("%s: exit code %d, printed a response which was not sent: %q", what, code, short([]byte(out)))
		}
	}
	c.NonTrivial()
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "T01",
		Title: "command line tools",
		Rule:  "generated: command lines for tool/packet and tool/qrpcurl (all option values in several spellings, out-of-range numbers, wrong arguments, payload bytes, TCP or websocket) and the answers of a reference server on loopback (any flags, command and payload, in pieces, after pushes, or none); oracle: the documented frame format through an independent encoder and the exact output; nothing is sent for rejected options. Non-trivial: the tool accepted its options",
		Gen:   genT01, New: func() any { return &t01{} }, Run: runT01,
		NoBubble: true,
		Quick:    pbt.Budget{Cases: 4000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 200000, MaxSec: 900},
	})
}
