package props

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/pbt"

	"github.com/gorilla/websocket"
	"github.com/zhiqiangxu/qrpc"
	wsclient "github.com/zhiqiangxu/qrpc/ws/client"
	wsserver "github.com/zhiqiangxu/qrpc/ws/server"
)

// ---- W02: the configured transport on the real loopback network: every way
// to make a connection, reconnects, restarts, mismatches and mute servers.

// w02Slack is when something that must happen counts as not happening
const w02Slack = 45 * time.Second

type w02Bind struct {
	Tr    int
	Certs bool // wants a client certificate
	RBuf  int
	WBuf  int
}

type w02Client struct {
	Bind    int
	Kind    int // NewConnection, NewConnectionWithReconnect, NewAPI, the wrapper of ws/client, NewReusedConnection
	RBuf    int
	WBuf    int
	Timeout int // ms
	Linger  bool
}

type w02Op struct {
	Kind   int // request, drop, restart, odd peer, wrong client, mute server
	Client int
	N      int
	Flag   bool
	Tr     int
}

type w02 struct {
	Wrap    bool // made by the constructor of ws/server
	Binds   []w02Bind
	Clients []w02Client
	Ops     []w02Op
}

func genW02(r *pbt.R) any {
	s := &w02{}
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		s.Binds = append(s.Binds, w02Bind{Tr: r.Intn(nTrs), Certs: r.P(1, 5), RBuf: r.Intn(2) * 8192, WBuf: r.Intn(2) * 16384})
	}
	if r.P(1, 5) {
		s.Wrap = true
		for i := range s.Binds {
			s.Binds[i].Tr = trWS + r.Intn(2)
		}
	}
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		cl := w02Client{Bind: r.Intn(len(s.Binds)), Kind: r.Intn(5), RBuf: r.Intn(2) * 4096, WBuf: r.Intn(2) * 8192, Timeout: r.Intn(2) * 15000}
		if r.P(1, 250) {
			cl.Timeout, cl.Linger = 1500, true
		}
		s.Clients = append(s.Clients, cl)
	}
	for i, n := 0, r.Range(2, 4+r.Len(8)); i < n; i++ {
		op := w02Op{Kind: r.W(10, 3, 1, 2, 2, 1), Client: r.Intn(len(s.Clients)), N: r.Len(3000), Flag: r.P(1, 2), Tr: r.Intn(nTrs)}
		if r.P(1, 20) {
			op.N = r.Intn(300000)
		}
		if op.Kind == 2 && op.Flag && !r.P(1, 20) {
			op.Flag = false // slow
		}
		s.Ops = append(s.Ops, op)
	}
	return s
}

// w02Hub is a listening socket which outlives the servers using it
type w02Hub struct {
	l     net.Listener
	mu    sync.Mutex
	cur   *w02Listener
	ready chan struct{}
	all   []*w02Conn
	off   bool // refuse
}

type w02Listener struct {
	h      *w02Hub
	q      chan *w02Conn
	closed chan struct{}
	once   sync.Once
}

type w02Conn struct {
	*net.TCPConn
	closed chan struct{}
	once   sync.Once
}

func (c *w02Conn) Close() error {
	c.once.Do(func() { close(c.closed) })
	return c.TCPConn.Close()
}

func newHub() (*w02Hub, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	h := &w02Hub{l: l, ready: make(chan struct{})}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			wc := &w02Conn{TCPConn: c.(*net.TCPConn), closed: make(chan struct{})}
			for done := false; !done; {
				h.mu.Lock()
				cur, ready, off := h.cur, h.ready, h.off
				h.mu.Unlock()
				if off {
					c.Close()
					break
				}
				if cur == nil {
					<-ready
					continue
				}
				select {
				case cur.q <- wc:
					done = true
				case <-cur.closed:
					h.mu.Lock()
					if h.cur == cur {
						h.cur = nil
					}
					h.mu.Unlock()
				}
			}
		}
	}()
	return h, nil
}

func (h *w02Hub) addr() string { return h.l.Addr().String() }

func (h *w02Hub) listen() net.Listener {
	l := &w02Listener{h: h, q: make(chan *w02Conn), closed: make(chan struct{})}
	h.mu.Lock()
	h.cur, h.off = l, false
	close(h.ready)
	h.ready = make(chan struct{})
	h.mu.Unlock()
	return l
}

func (h *w02Hub) refuse(on bool) {
	h.mu.Lock()
	h.off, h.cur = on, nil
	close(h.ready)
	h.ready = make(chan struct{})
	h.mu.Unlock()
}

func (h *w02Hub) conns() []*w02Conn {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]*w02Conn(nil), h.all...)
}

func (h *w02Hub) close() {
	h.refuse(true)
	h.l.Close()
	for _, c := range h.conns() {
		c.Close()
	}
}

func (l *w02Listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.q:
		// before anybody is served, for drops to find it
		l.h.mu.Lock()
		l.h.all = append(l.h.all, c)
		l.h.mu.Unlock()
		return c, nil
	case <-l.closed:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
}

func (l *w02Listener) Close() error {
	l.once.Do(func() { close(l.closed) })
	return nil
}

func (l *w02Listener) Addr() net.Addr { return l.h.l.Addr() }

type w02run struct {
	c    *pbt.C
	s    *w02
	hubs []*w02Hub
	srv  *qrpc.Server
	done <-chan struct{}
}

const w02Cmd = qrpc.Cmd(7)

func (x *w02run) bindings() []qrpc.ServerBinding {
	var bs []qrpc.ServerBinding
	srvConf, _ := tlsConfs()
	for i, b := range x.s.Binds {
		i, hub := i, x.hubs[i]
		mux := qrpc.NewServeMux()
		mux.HandleFunc(w02Cmd, func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			x.options(hub, f.ConnectionInfo().RemoteAddr(), b)
			w.StartWrite(f.RequestID, w02Cmd+1, 0)
			w.WriteBytes([]byte{byte(i)})
			w.WriteBytes(f.Payload)
			w.EndWrite()
		})
		sb := qrpc.ServerBinding{
			Addr: hub.addr(), Handler: mux, RBufSize: b.RBuf, WBufSize: b.WBuf,
			ListenFunc: func(string, string) (net.Listener, error) { return hub.listen(), nil },
		}
		if b.Tr == trTLS || b.Tr == trWSS {
			sb.TLSConf = srvConf
			if b.Certs {
				sb.TLSConf = srvConf.Clone()
				sb.TLSConf.ClientAuth = tls.RequireAnyClientCert
			}
		}
		if b.Tr == trWS || b.Tr == trWSS {
			if !x.s.Wrap {
				sb.OverlayNetwork = wsserver.OverlayNetwork
			}
		}
		bs = append(bs, sb)
	}
	return bs
}

// options checks the socket options of a connection the server has accepted
func (x *w02run) options(hub *w02Hub, remote string, b w02Bind) {
	for _, nc := range hub.conns() {
		if nc.RemoteAddr().String() != remote {
			continue
		}
		if k := sockOpt(nc.TCPConn, syscall.SOL_SOCKET, syscall.SO_KEEPALIVE); k == 0 {
			x.c.Failf("no keep alive on an accepted connection over %s", trNames[b.Tr])
		}
		if d := sockOpt(nc.TCPConn, syscall.IPPROTO_TCP, syscall.TCP_KEEPIDLE); d >= 0 && d != int(qrpc.DefaultKeepAliveDuration/time.Second) {
			x.c.Failf("keep alive of an accepted connection over %s is %d s", trNames[b.Tr], d)
		}
		checkBuf(x.c, "accepted over "+trNames[b.Tr], func(level, opt int) int { return sockOpt(nc.TCPConn, level, opt) }, b.RBuf, b.WBuf)
	}
}

// options checks those of a client's connection
func (cl *w02cl) options(what string) {
	if cl.conn == nil {
		return
	}
	nc := cl.conn.GetReusedCon()
	if nc == nil {
		return
	}
	get := func(level, opt int) int { return fdOpt(nc.LocalAddr(), nc.RemoteAddr(), level, opt) }
	checkBuf(cl.x.c, what, get, cl.want.RBufSize, cl.want.WBufSize)
	if cl.conf.Kind == 4 && cl.tr < trWS {
		if v := get(syscall.SOL_SOCKET, 15 /* SO_REUSEPORT */); v == 0 {
			cl.x.c.Failf("%s: the socket cannot be reused", what)
		}
	}
}

// checkBuf expects twice what was asked for, which is how Linux does it
func checkBuf(c *pbt.C, what string, get func(level, opt int) int, rbuf, wbuf int) {
	check := func(name string, v, want, other int) {
		if v < 0 {
			return
		}
		if want >= 4096 && v != 2*want {
			c.Failf("%s: the %s buffer is %d, %d was configured", what, name, v, want)
		}
		if want == 0 && other >= 4096 && v == 2*other {
			c.Failf("%s: the %s buffer is %d, which was not configured", what, name, v)
		}
	}
	check("receive", get(syscall.SOL_SOCKET, syscall.SO_RCVBUF), rbuf, wbuf)
	check("send", get(syscall.SOL_SOCKET, syscall.SO_SNDBUF), wbuf, rbuf)
}

// fdOpt is an option of the socket of this process which connects two
// addresses, -1 if there is none anymore
func fdOpt(local, remote net.Addr, level, opt int) int {
	l, ok := local.(*net.TCPAddr)
	r, ok2 := remote.(*net.TCPAddr)
	if !ok || !ok2 {
		return -1
	}
	same := func(fd int) bool {
		a, err := syscall.Getsockname(fd)
		if err != nil {
			return false
		}
		b, err := syscall.Getpeername(fd)
		if err != nil {
			return false
		}
		x, ok := a.(*syscall.SockaddrInet4)
		y, ok2 := b.(*syscall.SockaddrInet4)
		return ok && ok2 && x.Port == l.Port && y.Port == r.Port
	}
	dir, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	for _, e := range dir {
		fd, err := strconv.Atoi(e.Name())
		if err != nil || fd < 3 || !same(fd) {
			continue
		}
		if v, err := syscall.GetsockoptInt(fd, level, opt); err == nil && same(fd) {
			return v
		}
	}
	return -1
}

// sockOpt is a socket option, -1 if the socket is closed already
func sockOpt(tc *net.TCPConn, level, opt int) int {
	v := -1
	rc, err := tc.SyscallConn()
	if err != nil {
		return -1
	}
	rc.Control(func(fd uintptr) {
		if x, err := syscall.GetsockoptInt(int(fd), level, opt); err == nil {
			v = x
		}
	})
	return v
}

func (x *w02run) start() {
	if x.s.Wrap {
		x.srv = wsserver.New(x.bindings())
	} else {
		x.srv = qrpc.NewServer(x.bindings())
	}
	if err := x.srv.ListenAll(); err != nil {
		x.c.Fatalf("ListenAll: %v", err)
	}
	srv := x.srv
	x.done = x.c.Go(func() { srv.ServeAll() })
}

// stop shuts down; everything the server accepted must get closed
func (x *w02run) stop() {
	var err error
	srv := x.srv
	if !x.c.Do(w02Slack, func() { err = srv.Shutdown() }) {
		x.c.Fatalf("Shutdown did not return")
	}
	if err != nil {
		x.c.Fatalf("Shutdown: %v", err)
	}
	// the accept loop may sleep for a second first
	if len(x.s.Ops)%8 == 0 && !x.c.WaitDone(x.done, w02Slack) {
		x.c.Fatalf("ServeAll did not return after Shutdown")
	}
	for i, h := range x.hubs {
		for _, c := range h.conns() {
			if !x.c.WaitDone(c.closed, w02Slack) {
				x.c.Fatalf("binding %d (%s): a connection was not closed by Shutdown", i, trNames[x.s.Binds[i].Tr])
			}
		}
	}
}

type w02cl struct {
	x     *w02run
	conf  w02Client
	want  qrpc.ConnectionConfig
	tr    int
	conn  *qrpc.Connection
	api   qrpc.API
	mu    sync.Mutex
	dials []qrpc.DialConfig
	dead  bool // a connection which does not reconnect
}

func w02ClientTLS(certs bool) *tls.Config {
	srvConf, clConf := tlsConfs()
	conf := clConf.Clone()
	if certs {
		conf.Certificates = srvConf.Certificates
	}
	return conf
}

func (cl *w02cl) open() {
	x, k := cl.x, cl.conf
	b := x.s.Binds[k.Bind]
	cl.tr = b.Tr
	conf := qrpc.ConnectionConfig{DialTimeout: time.Duration(k.Timeout) * time.Millisecond, RBufSize: k.RBuf, WBufSize: k.WBuf}
	if cl.tr == trTLS || cl.tr == trWSS {
		conf.TLSConf = w02ClientTLS(b.Certs)
	}
	over := cl.tr == trWS || cl.tr == trWSS
	if over {
		conf.OverlayNetwork = func(addr string, dc qrpc.DialConfig) (net.Conn, error) {
			cl.mu.Lock()
			cl.dials = append(cl.dials, dc)
			cl.mu.Unlock()
			return wsclient.OverlayNetwork(addr, dc)
		}
	}
	cl.want = conf
	addr := x.hubs[k.Bind].addr()
	var err error
	ok := x.c.Do(w02Slack*2, func() {
		for try := 0; ; try++ {
			switch {
			case k.Kind == 1:
				cl.conn = qrpc.NewConnectionWithReconnect([]string{addr}, conf, nil)
			case k.Kind == 2:
				cl.api = qrpc.NewAPI([]string{addr}, conf, nil)
			case k.Kind == 3 && over:
				conf.OverlayNetwork = nil
				cl.conn, err = wsclient.NewConnection(addr, conf, nil)
			case k.Kind == 4 && !over:
				cl.conn, err = qrpc.NewReusedConnection(addr, conf, nil)
			default:
				cl.conn, err = qrpc.NewConnection(addr, conf, nil)
			}
			if err == nil || !k.Linger || try > 3 {
				return
			}
		}
	})
	what := fmt.Sprintf("client kind %d over %s", k.Kind, trNames[cl.tr])
	if !ok {
		x.c.Fatalf("%s: the constructor did not return", what)
	}
	if err != nil {
		x.c.Fatalf("%s: %v", what, err)
	}
	if cl.conn != nil {
		conn := cl.conn
		x.c.Cleanup(func() { conn.Close() })
	} else {
		api := cl.api
		x.c.Cleanup(func() { api.Close() })
	}
	x.c.Label("client %d over %s", k.Kind, trNames[cl.tr])
	cl.request(5, false) // accepted, at least
	if k.Linger {
		time.Sleep(1600 * time.Millisecond)
		cl.request(20, false)
		x.c.Label("idle for longer than the dial timeout")
	}
}

func (cl *w02cl) once(payload []byte) ([]byte, error) {
	ctx, cancel := context.WithTimeout(context.Background(), w02Slack)
	defer cancel()
	if cl.api != nil {
		f, err := cl.api.Call(ctx, w02Cmd, payload)
		if err != nil {
			return nil, err
		}
		return f.Payload, nil
	}
	_, resp, err := cl.conn.Request(w02Cmd, 0, payload)
	if err != nil {
		return nil, err
	}
	f, err := resp.GetFrameWithContext(ctx)
	if err != nil {
		return nil, err
	}
	return f.Payload, nil
}

// request must be answered; after the connection was lost it may take a while
func (cl *w02cl) request(n int, retry bool) {
	c := cl.x.c
	what := fmt.Sprintf("client kind %d over %s", cl.conf.Kind, trNames[cl.tr])
	payload := make([]byte, n)
	for i := range payload {
		payload[i] = byte(i*7 + n)
	}
	end := time.Now().Add(w02Slack)
	for {
		got, err := cl.once(payload)
		if err == nil {
			if len(got) == 0 || int(got[0]) != cl.conf.Bind || !bytes.Equal(got[1:], payload) {
				c.Fatalf("%s: wrong response to %d bytes: %d bytes", what, n, len(got))
			}
			cl.options(what)
			return
		}
		if !retry || time.Now().After(end) {
			c.Fatalf("%s: request of %d bytes: %v (after a disconnect: %v)", what, n, err, retry)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func (x *w02run) lost(cls []*w02cl, bind int) {
	for _, cl := range cls {
		if bind >= 0 && cl.conf.Bind != bind {
			continue
		}
		if cl.conf.Kind == 1 || cl.conf.Kind == 2 {
			continue
		}
		if !cl.dead {
			cl.dead = true
			if !x.c.Do(w02Slack, cl.conn.Wait) {
				x.c.Fatalf("client kind %d over %s: not closed after its connection was lost", cl.conf.Kind, trNames[cl.tr])
			}
		}
	}
}

// odd makes a peer which is no qrpc client
func (x *w02run) odd(op w02Op) {
	bind := x.s.Clients[op.Client].Bind
	b := x.s.Binds[bind]
	addr := x.hubs[bind].addr()
	before := len(x.hubs[bind].conns())
	var conf *tls.Config
	if b.Tr == trTLS || b.Tr == trWSS {
		conf = w02ClientTLS(b.Certs)
	}
	defer func() {
		// accepted, at least
		for i := 0; i < 500 && len(x.hubs[bind].conns()) == before; i++ {
			time.Sleep(time.Millisecond)
		}
		time.Sleep(2 * time.Millisecond)
	}()
	raw, err := net.Dial("tcp", addr)
	if err != nil {
		return
	}
	x.c.Cleanup(func() { raw.Close() })
	kind := op.N % 8
	x.c.Label("odd peer %d over %s", kind, trNames[b.Tr])
	raw.SetDeadline(time.Now().Add(w02Slack))
	switch kind {
	case 0: // silent
		return
	case 1:
		raw.Write([]byte("GET /qrpc HT"))
		return
	}
	var nc net.Conn = raw
	if conf != nil {
		t := tls.Client(raw, conf)
		if t.Handshake() != nil {
			return
		}
		nc = t
	}
	closed := func(what string) {
		buf := make([]byte, 1000)
		for {
			_, err := nc.Read(buf)
			if err == nil {
				continue
			}
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				x.c.Fatalf("%s over %s: not closed by the server", what, trNames[b.Tr])
			}
			return
		}
	}
	if b.Tr != trWS && b.Tr != trWSS {
		if kind == 2 {
			nc.Write([]byte{0, 0, 0})
		}
		return
	}
	switch kind {
	case 2, 3: // not an upgrade, or elsewhere
		path := "/qrpc"
		if kind == 3 {
			path = "/other"
		}
		fmt.Fprintf(nc, "GET %s HTTP/1.1\r\nHost: x\r\n\r\n", path)
		buf := make([]byte, 12)
		n, _ := nc.Read(buf)
		if got := string(buf[:n]); !strings.HasPrefix(got, "HTTP/1.1 4") {
			x.c.Fatalf("a plain request of %s is answered %q", path, got)
		}
		return
	}
	wc, _, err := (&websocket.Dialer{NetDial: func(string, string) (net.Conn, error) { return nc, nil }}).Dial("ws://"+addr+"/qrpc", http.Header{})
	if err != nil {
		x.c.Fatalf("websocket handshake: %v", err)
	}
	switch kind {
	case 4: // upgraded, then silent
	case 5:
		wc.WriteMessage(websocket.TextMessage, []byte("hello"))
		closed("a text message")
	case 6:
		wc.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""), time.Now().Add(w02Slack))
		closed("a close message")
	case 7:
		nc.Write([]byte{0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12})
		closed("an invalid websocket frame")
	}
}

// wrong makes a client with another transport or without trust
func (x *w02run) wrong(op w02Op) {
	bind := x.s.Clients[op.Client].Bind
	b := x.s.Binds[bind]
	conf := qrpc.ConnectionConfig{DialTimeout: 300 * time.Millisecond}
	if op.Tr == trTLS || op.Tr == trWSS {
		if op.Tr == b.Tr {
			conf.TLSConf = &tls.Config{ServerName: "qrpc.test"}
		} else {
			conf.TLSConf = w02ClientTLS(b.Certs)
		}
	} else if op.Tr == b.Tr {
		return
	}
	if op.Tr == trWS || op.Tr == trWSS {
		conf.OverlayNetwork = wsclient.OverlayNetwork
	}
	what := fmt.Sprintf("a client using %s for a server using %s", trNames[op.Tr], trNames[b.Tr])
	addr := x.hubs[bind].addr()
	var conn *qrpc.Connection
	var err error
	if !x.c.Do(w02Slack, func() {
		if op.Flag {
			conn = qrpc.NewConnectionWithReconnect([]string{addr}, conf, nil)
		} else {
			conn, err = qrpc.NewConnection(addr, conf, nil)
		}
	}) {
		x.c.Fatalf("%s: the constructor did not return within its dial timeout", what)
	}
	x.c.Label("wrong transport, %s", trNames[op.Tr])
	if conn == nil {
		if err == nil {
			x.c.Fatalf("%s: no connection and no error", what)
		}
		return
	}
	defer conn.Close()
	if !op.Flag && op.Tr != trTCP && !(op.Tr == trTLS && b.Tr == trWSS) {
		x.c.Fatalf("%s: connected", what)
	}
	_, resp, err := conn.Request(w02Cmd, 0, []byte("x"))
	if err != nil {
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
	defer cancel()
	if f, err := resp.GetFrameWithContext(ctx); err == nil {
		x.c.Fatalf("%s: a request was answered %q", what, f.Payload)
	}
}

// mute dials a server which never says anything
func (x *w02run) mute(op w02Op) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	defer l.Close()
	conf := qrpc.ConnectionConfig{DialTimeout: 100 * time.Millisecond}
	tr := op.Tr
	if tr == trTCP {
		tr = trTLS
	}
	if tr == trTLS || tr == trWSS {
		conf.TLSConf = w02ClientTLS(false)
	}
	if tr == trWS || tr == trWSS {
		conf.OverlayNetwork = wsclient.OverlayNetwork
	}
	x.c.Label("mute server, %s", trNames[tr])
	addr := l.Addr().String()
	var conn *qrpc.Connection
	t0 := time.Now()
	if !x.c.Do(w02Slack, func() {
		if op.Flag {
			conn = qrpc.NewConnectionWithReconnect([]string{addr}, conf, nil)
		} else {
			conn, err = qrpc.NewConnection(addr, conf, nil)
		}
	}) {
		x.c.Fatalf("dialling a mute server over %s: still waiting after %v, the dial timeout being %v", trNames[tr], time.Since(t0), conf.DialTimeout)
	}
	if !op.Flag && err == nil {
		x.c.Fatalf("dialling a mute server over %s succeeded", trNames[tr])
	}
	if conn != nil {
		conn.Close()
	}
}

func runW02(c *pbt.C, sc any) {
	s := sc.(*w02)
	if len(s.Binds) == 0 || len(s.Clients) == 0 {
		return
	}
	for i := range s.Binds {
		s.Binds[i].Tr = clamp(s.Binds[i].Tr, 0, nTrs-1)
		if s.Wrap && s.Binds[i].Tr < trWS {
			s.Binds[i].Tr = trWS
		}
	}
	for i := range s.Clients {
		s.Clients[i].Bind = modn(s.Clients[i].Bind, len(s.Binds))
	}
	x := &w02run{c: c, s: s}
	for range s.Binds {
		h, err := newHub()
		if err != nil {
			c.Label("no socket")
			return
		}
		c.Cleanup(h.close)
		x.hubs = append(x.hubs, h)
	}
	x.start()
	defer func() {
		if x.srv != nil && c.Failed() {
			srv := x.srv
			go srv.Shutdown()
		}
	}()
	var cls []*w02cl
	for _, k := range s.Clients {
		cl := &w02cl{x: x, conf: k}
		cl.open()
		cls = append(cls, cl)
	}
	lost := map[*w02cl]bool{}
	reqs, after := 0, 0
	for _, op := range s.Ops {
		op.Client = modn(op.Client, len(cls))
		cl := cls[op.Client]
		switch op.Kind {
		case 0:
			if cl.dead {
				if cl.conn == nil {
					continue
				}
				if _, _, err := cl.conn.Request(w02Cmd, 0, nil); err == nil {
					c.Fatalf("client kind %d over %s: request on a connection that was lost succeeded", cl.conf.Kind, trNames[cl.tr])
				}
				continue
			}
			op.N = clamp(op.N, 0, 1<<20)
			if b := s.Binds[cl.conf.Bind]; cl.conf.RBuf > 0 || cl.conf.WBuf > 0 || b.RBuf > 0 || b.WBuf > 0 {
				op.N %= 8000 // tiny socket buffers are slow
			}
			cl.request(op.N, lost[cl])
			reqs++
			if lost[cl] {
				after++
				c.Label("reconnected, kind %d over %s", cl.conf.Kind, trNames[cl.tr])
			}
			delete(lost, cl)
		case 1:
			for _, nc := range x.hubs[cl.conf.Bind].conns() {
				nc.TCPConn.SetLinger(0)
				nc.TCPConn.Close()
			}
			x.lost(cls, cl.conf.Bind)
			for _, o := range cls {
				if o.conf.Bind == cl.conf.Bind {
					lost[o] = true
				}
			}
		case 2:
			if op.Flag {
				for _, h := range x.hubs {
					h.refuse(true)
				}
			}
			x.stop()
			x.lost(cls, -1)
			x.start()
			for _, o := range cls {
				lost[o] = true
			}
			c.Label("restarted")
		case 3:
			x.odd(op)
		case 4:
			x.wrong(op)
		case 5:
			x.mute(op)
		}
	}
	for _, cl := range cls {
		if !cl.dead {
			cl.request(10, lost[cl])
			if lost[cl] {
				after++
			}
			reqs++
		}
	}
	x.stop()
	x.lost(cls, -1)
	for _, cl := range cls {
		cl := cl
		if !c.Do(w02Slack, func() {
			if cl.api != nil {
				cl.api.Close()
				return
			}
			cl.conn.Close()
		}) {
			c.Fatalf("client kind %d over %s: Close did not return", cl.conf.Kind, trNames[cl.tr])
		}
		cl.mu.Lock()
		for i, d := range cl.dials {
			w := cl.want
			if d.TLSConf != w.TLSConf || d.DialTimeout != w.DialTimeout || d.RBufSize != w.RBufSize || d.WBufSize != w.WBufSize {
				c.Fatalf("client kind %d: dial %d got %+v, configured: %v, %d, %d, tls: %v", cl.conf.Kind, i, d, w.DialTimeout, w.RBufSize, w.WBufSize, w.TLSConf != nil)
			}
		}
		cl.mu.Unlock()
	}
	if reqs > 0 && after > 0 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "W02",
		Title: "transport selection",
		Rule:  "generated: servers with one to three bindings over TCP, TLS, websocket and websocket over TLS (with client certificates or not) on the real loopback network, clients made by NewConnection, NewConnectionWithReconnect, NewAPI, NewReusedConnection and the websocket wrapper, requests, lost connections, server restarts, peers which are no qrpc clients, clients with a wrong transport or without trust, and servers which never answer the handshake; oracle: every request of a matching client is answered by its own binding, before and after reconnecting, every dial gets the complete configuration, socket buffers and keep alive are as configured on both ends, wrong clients are never served, constructors return within the dial timeout, and Shutdown closes everything accepted. Non-trivial: at least one request was answered over a connection made again",
		Gen:   genW02, New: func() any { return &w02{} }, Run: runW02,
		NoBubble: true, Workers: 32,
		Quick:    pbt.Budget{Cases: 3000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 150000, MaxSec: 900},
	})
}

func modn(i, n int) int {
	if i < 0 {
		i = -(i + 1)
	}
	return i % n
}
