package ref

import (
	"encoding/binary"
	"math/bits"
)

// SM3Stream is GB/T 32905-2016.
type SM3Stream struct {
	v   [8]uint32
	n   uint64
	buf []byte
}

func NewSM3() *SM3Stream {
	return &SM3Stream{v: [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}}
}

func (s *SM3Stream) cf(b []byte) {
	var w [68]uint32
	for j := 0; j < 16; j++ {
		w[j] = binary.BigEndian.Uint32(b[4*j:])
	}
	p1 := func(x uint32) uint32 { return x ^ bits.RotateLeft32(x, 15) ^ bits.RotateLeft32(x, 23) }
	p0 := func(x uint32) uint32 { return x ^ bits.RotateLeft32(x, 9) ^ bits.RotateLeft32(x, 17) }
	for j := 16; j < 68; j++ {
		w[j] = p1(w[j-16]^w[j-9]^bits.RotateLeft32(w[j-3], 15)) ^ bits.RotateLeft32(w[j-13], 7) ^ w[j-6]
	}
	a, bb, c, d, e, f, g, h := s.v[0], s.v[1], s.v[2], s.v[3], s.v[4], s.v[5], s.v[6], s.v[7]
	for j := 0; j < 64; j++ {
		t := uint32(0x79cc4519)
		if j >= 16 {
			t = 0x7a879d8a
		}
		ss1 := bits.RotateLeft32(bits.RotateLeft32(a, 12)+e+bits.RotateLeft32(t, j%32), 7)
		ss2 := ss1 ^ bits.RotateLeft32(a, 12)
		var ff, gg uint32
		if j < 16 {
			ff, gg = a^bb^c, e^f^g
		} else {
			ff, gg = (a&bb)|(a&c)|(bb&c), (e&f)|(^e&g)
		}
		tt1 := ff + d + ss2 + (w[j] ^ w[j+4])
		tt2 := gg + h + ss1 + w[j]
		d, c, bb, a = c, bits.RotateLeft32(bb, 9), a, tt1
		h, g, f, e = g, bits.RotateLeft32(f, 19), e, p0(tt2)
	}
	for i, x := range []uint32{a, bb, c, d, e, f, g, h} {
		s.v[i] ^= x
	}
}

func (s *SM3Stream) Write(p []byte) {
	s.n += uint64(len(p))
	if len(s.buf) > 0 {
		k := 64 - len(s.buf)
		if k > len(p) {
			k = len(p)
		}
		s.buf = append(s.buf, p[:k]...)
		p = p[k:]
		if len(s.buf) < 64 {
			return
		}
		s.cf(s.buf)
		s.buf = s.buf[:0]
	}
	for len(p) >= 64 {
		s.cf(p[:64])
		p = p[64:]
	}
	s.buf = append(s.buf, p...)
}

func (s *SM3Stream) Sum() []byte {
	bl := s.n * 8
	p := append([]byte{}, s.buf...)
	p = append(p, 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	var l [8]byte
	binary.BigEndian.PutUint64(l[:], bl)
	p = append(p, l[:]...)
	for i := 0; i < len(p); i += 64 {
		s.cf(p[i : i+64])
	}
	out := make([]byte, 32)
	for i, w := range s.v {
		binary.BigEndian.PutUint32(out[4*i:], w)
	}
	return out
}

func SM3(parts ...[]byte) []byte {
	s := NewSM3()
	for _, p := range parts {
		s.Write(p)
	}
	return s.Sum()
}

// HMAC over an arbitrary one-shot hash.
func HMAC(h func(...[]byte) []byte, block int, key, msg []byte) []byte {
	if len(key) > block {
		key = h(key)
	}
	ip := make([]byte, block)
	op := make([]byte, block)
	copy(ip, key)
	copy(op, key)
	for i := range ip {
		ip[i] ^= 0x36
		op[i] ^= 0x5c
	}
	return h(op, h(ip, msg))
}
