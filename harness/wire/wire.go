// Package wire is an independent reference implementation of the qrpc frame
// format (doc/frame.md): it shares no code with the library under test.
package wire

import (
	"errors"
	"fmt"
)

// flag bits, as documented
const (
	Stream    = 0x01
	StreamEnd = 0x02
	Rst       = 0x04
	NB        = 0x08
	Push      = 0x10
	Codec     = 0x20
)

// Frame is one frame
type Frame struct {
	ID      uint64
	Flags   byte
	Cmd     uint32
	Payload []byte
}

func (f Frame) String() string {
	p := f.Payload
	s := ""
	if len(p) > 24 {
		s = fmt.Sprintf("%x..(%d)", p[:24], len(p))
	} else {
		s = fmt.Sprintf("%x", p)
	}
	return fmt.Sprintf("{id=%d flags=%#x cmd=%#x payload=%s}", f.ID, f.Flags, f.Cmd, s)
}

// Encode lays the frame out byte by byte
func Encode(f Frame) []byte {
	n := uint64(12 + len(f.Payload))
	b := make([]byte, 0, 16+len(f.Payload))
	for sh := 24; sh >= 0; sh -= 8 {
		b = append(b, byte(n>>uint(sh)))
	}
	for sh := 56; sh >= 0; sh -= 8 {
		b = append(b, byte(f.ID>>uint(sh)))
	}
	b = append(b, f.Flags)
	for sh := 16; sh >= 0; sh -= 8 {
		b = append(b, byte(f.Cmd>>uint(sh)))
	}
	return append(b, f.Payload...)
}

// Decoder is an incremental decoder
type Decoder struct {
	buf []byte
	// MaxLen bounds the accepted length field (0: 64MB)
	MaxLen int
}

// ErrFormat when the byte stream is not a sequence of frames
var ErrFormat = errors.New("malformed frame")

// Feed adds bytes and returns the frames completed by them
func (d *Decoder) Feed(b []byte) (out []Frame, err error) {
	d.buf = append(d.buf, b...)
	max := d.MaxLen
	if max == 0 {
		max = 64 << 20
	}
	for len(d.buf) >= 4 {
		n := int(d.buf[0])<<24 | int(d.buf[1])<<16 | int(d.buf[2])<<8 | int(d.buf[3])
		if n < 12 || n > max {
			return out, fmt.Errorf("%w: length %d", ErrFormat, n)
		}
		if len(d.buf) < 4+n {
			break
		}
		var f Frame
		for i := 4; i < 12; i++ {
			f.ID = f.ID<<8 | uint64(d.buf[i])
		}
		f.Flags = d.buf[12]
		f.Cmd = uint32(d.buf[13])<<16 | uint32(d.buf[14])<<8 | uint32(d.buf[15])
		f.Payload = append([]byte(nil), d.buf[16:4+n]...)
		d.buf = d.buf[4+n:]
		out = append(out, f)
	}
	return out, nil
}

// Pending is the number of bytes of an incomplete frame
func (d *Decoder) Pending() int { return len(d.buf) }
