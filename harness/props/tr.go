package props

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"io"
	"math/big"
	"net"
	"net/http"
	"sync"
	"time"

	"verif/vnet"

	"github.com/gorilla/websocket"
	"github.com/zhiqiangxu/qrpc"
	wsserver "github.com/zhiqiangxu/qrpc/ws/server"
)

// transports
const (
	trTCP = iota
	trTLS
	trWS
	trWSS
	nTrs
)

var trNames = []string{"tcp", "tls", "websocket", "websocket over tls"}

var (
	tlsOnce   sync.Once
	tlsServer *tls.Config
	tlsClient *tls.Config
)

// tlsConfs are a server configuration and a client one which trusts it
func tlsConfs() (srv, cl *tls.Config) {
	tlsOnce.Do(func() {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		t := &x509.Certificate{
			SerialNumber:          big.NewInt(1),
			Subject:               pkix.Name{CommonName: "qrpc.test"},
			DNSNames:              []string{"qrpc.test"},
			NotBefore:             time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC),
			NotAfter:              time.Date(2140, 1, 1, 0, 0, 0, 0, time.UTC),
			KeyUsage:              x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
			ExtKeyUsage:           []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
			IsCA:                  true,
			BasicConstraintsValid: true,
		}
		der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
		if err != nil {
			panic(err)
		}
		cert, err := x509.ParseCertificate(der)
		if err != nil {
			panic(err)
		}
		pool := x509.NewCertPool()
		pool.AddCert(cert)
		tlsServer = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}, SessionTicketsDisabled: true}
		tlsClient = &tls.Config{RootCAs: pool, ServerName: "qrpc.test"}
	})
	return tlsServer, tlsClient
}

func init() { tlsConfs() }

// tapConn reports what passes at the client's end of a transport
type tapConn struct {
	net.Conn
	up, down func([]byte)
	raw      *vnet.Conn
}

func (t *tapConn) Read(b []byte) (int, error) {
	n, err := t.Conn.Read(b)
	if n > 0 && t.down != nil {
		t.down(b[:n])
	}
	return n, err
}

func (t *tapConn) Write(b []byte) (int, error) {
	n, err := t.Conn.Write(b)
	if n > 0 && t.up != nil {
		t.up(b[:n])
	}
	return n, err
}

// Closed tells whether the network connection below is closed
func (t *tapConn) Closed() bool { return t.raw.Closed() }

// setup is the number of bytes either side may send before the first frame
func (w *World) setup() int { return []int{0, 4000, 400, 4400}[w.tr] }

// taps moves the taps of a connection above its transport
func (w *World) taps(o *NetOpt) (up, down func([]byte)) {
	if w.tr == trTCP {
		return nil, nil
	}
	up, down = o.C2S.Tap, o.S2C.Tap
	o.C2S.Tap, o.S2C.Tap = nil, nil
	return
}

// clientEnd puts the transport of a real client on a network connection
func (w *World) clientEnd(addr string, c *vnet.Conn, up, down func([]byte)) (net.Conn, error) {
	var nc net.Conn
	switch w.tr {
	case trTCP:
		return c, nil
	case trTLS:
		_, conf := tlsConfs()
		t := tls.Client(c, conf)
		c.Smooth(true)
		defer c.Smooth(false)
		if err := t.Handshake(); err != nil {
			c.Close()
			return nil, err
		}
		nc = t
	default:
		wc, err := w.wsDial(addr, c, 0)
		if err != nil {
			c.Close()
			return nil, err
		}
		nc = wsserver.NewConn(wc)
	}
	return &tapConn{nc, up, down, c}, nil
}

func (w *World) wsDial(addr string, c *vnet.Conn, wbuf int) (*websocket.Conn, error) {
	_, conf := tlsConfs()
	c.Smooth(true)
	defer c.Smooth(false)
	d := &websocket.Dialer{NetDial: func(string, string) (net.Conn, error) { return c, nil }, TLSClientConfig: conf, WriteBufferSize: wbuf}
	url := "ws://" + addr + "/qrpc"
	if w.tr == trWSS {
		url = "wss://" + addr + "/qrpc"
	}
	wc, _, err := d.Dial(url, http.Header{})
	return wc, err
}

// rawClientEnd is the reference client's end
func (w *World) rawClientEnd(addr string, c *vnet.Conn, up, down func([]byte)) (net.Conn, error) {
	switch w.tr {
	case trTCP:
		return c, nil
	case trTLS:
		_, conf := tlsConfs()
		t := tls.Client(c, conf)
		c.Smooth(true)
		defer c.Smooth(false)
		if err := t.Handshake(); err != nil {
			return nil, err
		}
		return &tapConn{t, up, down, c}, nil
	}
	wc, err := w.wsDial(addr, c, 20)
	if err != nil {
		return nil, err
	}
	return &tapConn{&wsRaw{Conn: c, wc: wc}, up, down, c}, nil
}

// binding puts the transport on a binding of a real server
func (w *World) binding(b *qrpc.ServerBinding) {
	conf, _ := tlsConfs()
	switch w.tr {
	case trTLS:
		b.TLSConf = conf
	case trWS, trWSS:
		b.OverlayNetwork = wsserver.OverlayNetwork
		if w.tr == trWSS {
			b.TLSConf = conf
		}
	}
}

// rawAccept serves a reference server's listener
func (w *World) rawAccept(l net.Listener, got func(raw *vnet.Conn, nc net.Conn)) {
	conf, _ := tlsConfs()
	switch w.tr {
	case trTCP, trTLS:
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			raw := c.(*vnet.Conn)
			if w.tr == trTCP {
				got(raw, c)
				continue
			}
			t := tls.Server(c, conf)
			go func() {
				// the lock of a handshake in progress would stop virtual time
				if t.Handshake() == nil {
					got(raw, t)
				} else {
					raw.Close()
				}
			}()
		}
	}
	up := websocket.Upgrader{WriteBufferSize: 20, ReadBufferSize: 64}
	type key struct{}
	srv := &http.Server{
		Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			if r.URL.Path != "/qrpc" {
				http.NotFound(rw, r)
				return
			}
			wc, err := up.Upgrade(rw, r, nil)
			if err != nil {
				return
			}
			raw := r.Context().Value(key{}).(*vnet.Conn)
			got(raw, &wsRaw{Conn: raw, wc: wc})
		}),
		ConnContext: func(ctx context.Context, c net.Conn) context.Context {
			if t, ok := c.(*tls.Conn); ok {
				c = t.NetConn()
			}
			return context.WithValue(ctx, key{}, c)
		},
	}
	if w.tr == trWSS {
		l = tls.NewListener(l, conf)
	}
	srv.Serve(l)
}

// wsRaw is a websocket as a byte stream which uses small fragments, messages
// of various sizes, empty ones and pings
type wsRaw struct {
	net.Conn
	wc  *websocket.Conn
	cur io.Reader
	wmu sync.Mutex
	n   int
}

func (x *wsRaw) Read(b []byte) (int, error) {
	for {
		if x.cur == nil {
			kind, r, err := x.wc.NextReader()
			if err != nil {
				return 0, err
			}
			if kind != websocket.BinaryMessage {
				return 0, errors.New("not a binary message")
			}
			x.cur = r
		}
		n, err := x.cur.Read(b)
		if err == io.EOF {
			x.cur, err = nil, nil
		}
		if n > 0 || err != nil {
			return n, err
		}
	}
}

func (x *wsRaw) Write(b []byte) (int, error) {
	x.wmu.Lock()
	defer x.wmu.Unlock()
	sum := 0
	for {
		x.n++
		k := len(b)
		switch x.n % 5 {
		case 1:
			k = min(k, 7)
		case 2:
			k = min(k, 1)
		case 3:
			k = min(k, 100)
			// the library's end has one second for the answer
			if v, ok := x.Conn.(*vnet.Conn); ok && !v.Prompt(100, 800*time.Millisecond) {
				break
			}
			if err := x.wc.WriteControl(websocket.PingMessage, []byte("x"), time.Now().Add(time.Hour)); err != nil {
				return sum, err
			}
		case 4:
			if err := x.wc.WriteMessage(websocket.BinaryMessage, nil); err != nil {
				return sum, err
			}
		}
		if err := x.wc.WriteMessage(websocket.BinaryMessage, b[:k]); err != nil {
			return sum, err
		}
		sum += k
		b = b[k:]
		if len(b) == 0 {
			return sum, nil
		}
	}
}
