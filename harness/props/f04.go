package props

import (
	"verif/pbt"

	"github.com/zhiqiangxu/qrpc"
)

// F04: flag and command algebra, against the documented bit layout

type f04 struct {
	Flag   int // every flag value: the case index modulo 256
	Cmds   []uint32
	Opaque []int
	Block  int // a block of 65536 commands
}

func runF04(c *pbt.C, x any) {
	s := x.(*f04)
	b := byte(s.Flag)
	f := qrpc.FrameFlag(b)
	const stream, end, rst, nb, push, codec = 1, 2, 4, 8, 16, 32
	if qrpc.StreamFlag != stream || qrpc.StreamEndFlag != end || qrpc.StreamRstFlag != rst || qrpc.NBFlag != nb || qrpc.PushFlag != push || qrpc.CodecFlag != codec {
		c.Fatalf("flag constants differ from the documented bits: %d %d %d %d %d %d", qrpc.StreamFlag, qrpc.StreamEndFlag, qrpc.StreamRstFlag, qrpc.NBFlag, qrpc.PushFlag, qrpc.CodecFlag)
	}
	isStream := b&(stream|end) != 0
	for _, t := range []struct {
		name      string
		got, want bool
	}{
		{"IsStream", f.IsStream(), isStream},
		{"IsRst", f.IsRst(), b&rst != 0},
		{"IsPush", f.IsPush(), b&push != 0},
		{"IsCodec", f.IsCodec(), b&codec != 0},
		{"IsNonBlock", f.IsNonBlock(), isStream || b&nb != 0},
		{"IsDone", f.IsDone(), !isStream || b&end != 0 || b&rst != 0},
	} {
		if t.got != t.want {
			c.Fatalf("%s(%#02x) = %v, want %v", t.name, b, t.got, t.want)
		}
	}
	for _, t := range []struct {
		name string
		got  qrpc.FrameFlag
		want byte
	}{
		{"ToStream", f.ToStream(), b | stream},
		{"ToEndStream", f.ToEndStream(), b | end},
		{"ToNonStream", f.ToNonStream(), b &^ (stream | end)},
		{"ToCodec", f.ToCodec(), b | codec},
		{"ToNonCodec", f.ToNonCodec(), b &^ codec},
	} {
		if byte(t.got) != t.want {
			c.Fatalf("%s(%#02x) = %#02x, want %#02x", t.name, b, byte(t.got), t.want)
		}
	}
	if qrpc.MaxCmd != 1<<24-1 {
		c.Fatalf("MaxCmd = %#x", qrpc.MaxCmd)
	}
	cmd := func(v uint32, o byte) {
		q := qrpc.Cmd(v)
		if g := q.Routing(); uint32(g) != v&0xffff {
			c.Fatalf("Cmd(%#x).Routing() = %#x", v, uint32(g))
		}
		if g := q.Opaque(); g != byte(v>>16) {
			c.Fatalf("Cmd(%#x).Opaque() = %#x", v, g)
		}
		w := qrpc.CmdWithOpaque(q, o)
		if uint32(w) != v&0xffff|uint32(o)<<16 {
			c.Fatalf("CmdWithOpaque(%#x, %#x) = %#x", v, o, uint32(w))
		}
		if w.Routing() != q.Routing() || w.Opaque() != o || qrpc.CmdWithOpaque(w.Routing(), w.Opaque()) != w {
			c.Fatalf("CmdWithOpaque(%#x, %#x) does not split back", v, o)
		}
	}
	for i, v := range s.Cmds {
		o := byte(i)
		if len(s.Opaque) > 0 {
			o = byte(s.Opaque[i%len(s.Opaque)])
		}
		cmd(v, o)
	}
	base := uint32(s.Block&0xff) << 16
	for i := uint32(0); i < 1<<16; i++ {
		cmd(base|i, byte(i)^byte(i>>8)^byte(s.Block))
	}
	c.NonTrivial()
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "F04",
		Title: "flag and command algebra",
		Rule:  "enumerated and generated: all 256 flag values, all 2^24 commands in blocks, and 32-bit commands with arbitrary opaque bytes; oracle: the documented bit layout, written independently. Every case is non-trivial",
		Gen: func(r *pbt.R) any {
			s := &f04{Flag: r.Intn(256), Block: r.Intn(256)}
			for i := 0; i < 20; i++ {
				s.Cmds = append(s.Cmds, uint32(r.U64()))
				s.Opaque = append(s.Opaque, r.Intn(256))
			}
			return s
		},
		Fixed: func() []any {
			var out []any
			for i := 0; i < 256; i++ {
				out = append(out, &f04{Flag: i, Block: i, Cmds: []uint32{uint32(i) << 24, ^uint32(0)}, Opaque: []int{i}})
			}
			return out
		}(),
		New: func() any { return &f04{} }, Run: runF04,
		Quick:    pbt.Budget{Cases: 800, MaxSec: 30},
		Thorough: pbt.Budget{Cases: 20000, MaxSec: 300},
		Extra:    map[string]any{"exhaustive": "all 256 flag values and all 2^24 24-bit commands (one opaque byte each)"},
	})
}
