package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"go.uber.org/zap"
)

func init() { qrpc.SetLogger(zap.NewNop()) }

func fail(format string, args ...any) {
	fmt.Printf("FAIL: "+format+"\n", args...)
	os.Exit(1)
}

func ok() {
	fmt.Println("ok")
	os.Exit(0)
}

// serve starts a server on loopback and returns its address
func serve(b qrpc.ServerBinding) (*qrpc.Server, string) {
	ch := make(chan string, 1)
	b.Addr = "127.0.0.1:0"
	b.ListenFunc = func(_, addr string) (net.Listener, error) {
		l, err := net.Listen("tcp", addr)
		if err != nil {
			fail("listen: %v", err)
		}
		ch <- l.Addr().String()
		return l, nil
	}
	s := qrpc.NewServer([]qrpc.ServerBinding{b})
	go s.ListenAndServe()
	return s, <-ch
}

// the wire format, see doc/frame.md
type frame struct {
	id      uint64
	flags   byte
	cmd     uint32
	payload []byte
}

const (
	fStream = 1 << iota
	fEnd
	fRst
	fNB
	fPush
	fCodec
)

func (f frame) bytes() []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(12+len(f.payload)))
	b = binary.BigEndian.AppendUint64(b, f.id)
	b = binary.BigEndian.AppendUint32(b, uint32(f.flags)<<24|f.cmd&0xffffff)
	return append(b, f.payload...)
}

func dial(addr string) net.Conn {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		fail("dial: %v", err)
	}
	return c
}

func send(c net.Conn, fs ...frame) error {
	var b []byte
	for _, f := range fs {
		b = append(b, f.bytes()...)
	}
	_, err := c.Write(b)
	return err
}

func recv(c net.Conn, d time.Duration) (f frame, err error) {
	c.SetReadDeadline(time.Now().Add(d))
	h := make([]byte, 16)
	if _, err = io.ReadFull(c, h); err != nil {
		return
	}
	f.id = binary.BigEndian.Uint64(h[4:])
	f.flags = h[12]
	f.cmd = binary.BigEndian.Uint32(h[12:]) & 0xffffff
	f.payload = make([]byte, binary.BigEndian.Uint32(h)-12)
	_, err = io.ReadFull(c, f.payload)
	return
}

// within runs f and fails when it takes longer than d
func within(d time.Duration, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		fail("%s hangs", what)
	}
}

func answer(w qrpc.FrameWriter, f *qrpc.RequestFrame, p []byte) error {
	w.StartWrite(f.RequestID, f.Cmd, 0)
	w.WriteBytes(p)
	return w.EndWrite()
}

var _ = []any{fStream, fEnd, fRst, fNB, fPush, fCodec, serve, send, recv, within, answer, dial, ok}
