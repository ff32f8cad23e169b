// Package ref holds independent reference models, written from the published
// specifications with simplicity as the only goal.
package ref

import (
	"encoding/binary"
	"math/big"
	"math/bits"
)

var sigma = [10][16]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

// fractional digits of pi as 64-bit words, computed rather than copied.
var piWords = computePi(16)

// computePi returns n 64-bit words of the fractional part of pi (Machin).
func computePi(n int) []uint64 {
	prec := uint(n*64 + 64)
	one := new(big.Int).Lsh(big.NewInt(1), prec)
	atan := func(inv int64) *big.Int {
		sum := new(big.Int)
		term := new(big.Int).Div(one, big.NewInt(inv))
		sq := big.NewInt(inv * inv)
		for k := int64(0); term.Sign() != 0; k++ {
			t := new(big.Int).Div(term, big.NewInt(2*k+1))
			if k%2 == 0 {
				sum.Add(sum, t)
			} else {
				sum.Sub(sum, t)
			}
			term.Div(term, sq)
		}
		return sum
	}
	pi := new(big.Int).Mul(big.NewInt(16), atan(5))
	pi.Sub(pi, new(big.Int).Mul(big.NewInt(4), atan(239)))
	frac := new(big.Int).Sub(pi, new(big.Int).Mul(big.NewInt(3), one))
	frac.Rsh(frac, prec-uint(n*64))
	b := make([]byte, n*8)
	frac.FillBytes(b)
	out := make([]uint64, n)
	for i := range out {
		out[i] = binary.BigEndian.Uint64(b[8*i:])
	}
	return out
}

// sqrtFrac64 returns the first 64 bits of the fractional part of sqrt(p).
func sqrtFrac64(p int64) uint64 {
	v := new(big.Int).Lsh(big.NewInt(p), 128)
	v.Sqrt(v)
	v.And(v, new(big.Int).SetUint64(^uint64(0)))
	return v.Uint64()
}

var primes16 = []int64{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53}

func iv32(hi bool) (h [8]uint32) {
	for i := 0; i < 8; i++ {
		if hi { // SHA-256: first 32 fractional bits of sqrt of first 8 primes
			h[i] = uint32(sqrtFrac64(primes16[i]) >> 32)
		} else { // SHA-224: second 32 fractional bits of primes 9..16
			h[i] = uint32(sqrtFrac64(primes16[8+i]))
		}
	}
	return
}

func iv64(b512 bool) (h [8]uint64) {
	for i := 0; i < 8; i++ {
		if b512 {
			h[i] = sqrtFrac64(primes16[i])
		} else {
			h[i] = sqrtFrac64(primes16[8+i])
		}
	}
	return
}

// Blake32 is BLAKE-256 (or BLAKE-224) of msg with a 16-byte salt (nil = zero).
func Blake32(bitsOut int, salt, msg []byte) []byte {
	d := NewBlake32(bitsOut, salt)
	d.Write(msg)
	return d.Sum()
}

// Blake32Stream lets very long messages be hashed without holding them.
type Blake32Stream struct {
	h    [8]uint32
	s    [4]uint32
	bits uint64
	buf  []byte
	out  int
	c    [16]uint32
}

func NewBlake32(bitsOut int, salt []byte) *Blake32Stream {
	d := &Blake32Stream{out: bitsOut, h: iv32(bitsOut == 256)}
	for i := range d.c {
		w := piWords[i/2]
		if i%2 == 0 {
			d.c[i] = uint32(w >> 32)
		} else {
			d.c[i] = uint32(w)
		}
	}
	if salt != nil {
		for i := range d.s {
			d.s[i] = binary.BigEndian.Uint32(salt[4*i:])
		}
	}
	return d
}

func (d *Blake32Stream) compress(b []byte, t uint64) {
	var m [16]uint32
	for i := range m {
		m[i] = binary.BigEndian.Uint32(b[4*i:])
	}
	var v [16]uint32
	copy(v[:8], d.h[:])
	for i := 0; i < 4; i++ {
		v[8+i] = d.s[i] ^ d.c[i]
	}
	v[12] = uint32(t) ^ d.c[4]
	v[13] = uint32(t) ^ d.c[5]
	v[14] = uint32(t>>32) ^ d.c[6]
	v[15] = uint32(t>>32) ^ d.c[7]
	g := func(r, i, a, b, c, e int) {
		p := sigma[r%10]
		v[a] += v[b] + (m[p[2*i]] ^ d.c[p[2*i+1]])
		v[e] = bits.RotateLeft32(v[e]^v[a], -16)
		v[c] += v[e]
		v[b] = bits.RotateLeft32(v[b]^v[c], -12)
		v[a] += v[b] + (m[p[2*i+1]] ^ d.c[p[2*i]])
		v[e] = bits.RotateLeft32(v[e]^v[a], -8)
		v[c] += v[e]
		v[b] = bits.RotateLeft32(v[b]^v[c], -7)
	}
	for r := 0; r < 14; r++ {
		g(r, 0, 0, 4, 8, 12)
		g(r, 1, 1, 5, 9, 13)
		g(r, 2, 2, 6, 10, 14)
		g(r, 3, 3, 7, 11, 15)
		g(r, 4, 0, 5, 10, 15)
		g(r, 5, 1, 6, 11, 12)
		g(r, 6, 2, 7, 8, 13)
		g(r, 7, 3, 4, 9, 14)
	}
	for i := 0; i < 8; i++ {
		d.h[i] ^= d.s[i%4] ^ v[i] ^ v[i+8]
	}
}

func (d *Blake32Stream) Write(p []byte) {
	if len(d.buf) > 0 {
		n := 64 - len(d.buf)
		if n > len(p) {
			n = len(p)
		}
		d.buf = append(d.buf, p[:n]...)
		p = p[n:]
		if len(d.buf) == 64 {
			d.bits += 512
			d.compress(d.buf, d.bits)
			d.buf = d.buf[:0]
		}
	}
	for len(p) >= 64 {
		d.bits += 512
		d.compress(p[:64], d.bits)
		p = p[64:]
	}
	d.buf = append(d.buf, p...)
}

// Sum finalises (the stream must not be used afterwards).
func (d *Blake32Stream) Sum() []byte {
	total := d.bits + uint64(len(d.buf))*8
	last := append([]byte{}, d.buf...)
	n := len(last)
	last = append(last, 0x80)
	for len(last)%64 != 56 {
		last = append(last, 0)
	}
	if d.out == 256 {
		last[len(last)-1] |= 1
	}
	var lb [8]byte
	binary.BigEndian.PutUint64(lb[:], total)
	last = append(last, lb[:]...)
	for i := 0; i < len(last); i += 64 {
		// counter: message bits hashed so far; 0 for a block with no message bits
		msgBits := n - i
		t := total
		if msgBits <= 0 {
			t = 0
		} else if msgBits > 64 {
			t = d.bits + 512
		}
		d.compress(last[i:i+64], t)
	}
	out := make([]byte, 32)
	for i, w := range d.h {
		binary.BigEndian.PutUint32(out[4*i:], w)
	}
	return out[:d.out/8]
}

// Blake64 is BLAKE-512 (or BLAKE-384) of msg with a 32-byte salt (nil = zero).
func Blake64(bitsOut int, salt, msg []byte) []byte {
	d := NewBlake64Stream(bitsOut)
	if salt != nil {
		for i := range d.s {
			d.s[i] = binary.BigEndian.Uint64(salt[8*i:])
		}
	}
	d.Write(msg)
	return d.Sum()
}

// Blake64Stream is the streaming form of Blake64.
type Blake64Stream struct {
	h   [8]uint64
	s   [4]uint64
	n   uint64 // bytes compressed
	buf []byte
	out int
}

func NewBlake64Stream(bitsOut int) *Blake64Stream {
	return &Blake64Stream{h: iv64(bitsOut == 512), out: bitsOut}
}

func (d *Blake64Stream) compress(b []byte, t uint64) {
	c := piWords
	var m [16]uint64
	for i := range m {
		m[i] = binary.BigEndian.Uint64(b[8*i:])
	}
	var v [16]uint64
	copy(v[:8], d.h[:])
	for i := 0; i < 4; i++ {
		v[8+i] = d.s[i] ^ c[i]
	}
	v[12] = t ^ c[4]
	v[13] = t ^ c[5]
	v[14] = c[6]
	v[15] = c[7]
	g := func(r, i, a, b, cc, e int) {
		p := sigma[r%10]
		v[a] += v[b] + (m[p[2*i]] ^ c[p[2*i+1]])
		v[e] = bits.RotateLeft64(v[e]^v[a], -32)
		v[cc] += v[e]
		v[b] = bits.RotateLeft64(v[b]^v[cc], -25)
		v[a] += v[b] + (m[p[2*i+1]] ^ c[p[2*i]])
		v[e] = bits.RotateLeft64(v[e]^v[a], -16)
		v[cc] += v[e]
		v[b] = bits.RotateLeft64(v[b]^v[cc], -11)
	}
	for r := 0; r < 16; r++ {
		g(r, 0, 0, 4, 8, 12)
		g(r, 1, 1, 5, 9, 13)
		g(r, 2, 2, 6, 10, 14)
		g(r, 3, 3, 7, 11, 15)
		g(r, 4, 0, 5, 10, 15)
		g(r, 5, 1, 6, 11, 12)
		g(r, 6, 2, 7, 8, 13)
		g(r, 7, 3, 4, 9, 14)
	}
	for i := 0; i < 8; i++ {
		d.h[i] ^= d.s[i%4] ^ v[i] ^ v[i+8]
	}
}

func (d *Blake64Stream) Write(p []byte) {
	if len(d.buf) > 0 {
		n := 128 - len(d.buf)
		if n > len(p) {
			n = len(p)
		}
		d.buf = append(d.buf, p[:n]...)
		p = p[n:]
		if len(d.buf) == 128 {
			d.n += 128
			d.compress(d.buf, d.n*8)
			d.buf = d.buf[:0]
		}
	}
	for len(p) >= 128 {
		d.n += 128
		d.compress(p[:128], d.n*8)
		p = p[128:]
	}
	d.buf = append(d.buf, p...)
}

func (d *Blake64Stream) Sum() []byte {
	total := (d.n + uint64(len(d.buf))) * 8
	p := append([]byte{}, d.buf...)
	p = append(p, 0x80)
	for len(p)%128 != 112 {
		p = append(p, 0)
	}
	if d.out == 512 {
		p[len(p)-1] |= 1
	}
	var lb [16]byte
	binary.BigEndian.PutUint64(lb[8:], total)
	p = append(p, lb[:]...)
	n := len(d.buf)
	for i := 0; i < len(p); i += 128 {
		t := total
		if i >= n {
			t = 0
		} else if n-i > 128 {
			t = (d.n + 128) * 8
		}
		d.compress(p[i:i+128], t)
	}
	out := make([]byte, 64)
	for i, w := range d.h {
		binary.BigEndian.PutUint64(out[8*i:], w)
	}
	return out[:d.out/8]
}

// Blake2sParams are the inputs of BLAKE2s besides the message.
type Blake2sParams struct {
	Size              int
	Key, Salt, Person []byte
	Tree              bool
	Fanout, MaxDepth  uint8
	LeafSize          uint32
	NodeOffset        uint64
	NodeDepth, Inner  uint8
	LastNode          bool
}

type Blake2sStream struct {
	h    [8]uint32
	t    uint64
	buf  []byte
	last bool
	size int
}

func NewBlake2s(p Blake2sParams) *Blake2sStream {
	d := &Blake2sStream{size: p.Size, last: p.Tree && p.LastNode}
	var pb [32]byte
	pb[0] = byte(p.Size)
	pb[1] = byte(len(p.Key))
	if p.Tree {
		pb[2], pb[3] = p.Fanout, p.MaxDepth
		binary.LittleEndian.PutUint32(pb[4:], p.LeafSize)
		for i := 0; i < 6; i++ {
			pb[8+i] = byte(p.NodeOffset >> (8 * i))
		}
		pb[14], pb[15] = p.NodeDepth, p.Inner
	} else {
		pb[2], pb[3] = 1, 1
	}
	copy(pb[16:24], p.Salt)
	copy(pb[24:32], p.Person)
	d.h = iv32(true)
	for i := range d.h {
		d.h[i] ^= binary.LittleEndian.Uint32(pb[4*i:])
	}
	if len(p.Key) > 0 {
		k := make([]byte, 64)
		copy(k, p.Key)
		d.Write(k)
	}
	return d
}

func (d *Blake2sStream) compress(b []byte, fin bool) {
	var m [16]uint32
	for i := range m {
		m[i] = binary.LittleEndian.Uint32(b[4*i:])
	}
	iv := sha256IV
	var v [16]uint32
	copy(v[:8], d.h[:])
	copy(v[8:], iv[:])
	v[12] ^= uint32(d.t)
	v[13] ^= uint32(d.t >> 32)
	if fin {
		v[14] = ^v[14]
		if d.last {
			v[15] = ^v[15]
		}
	}
	g := func(r, i, a, b, c, e int) {
		p := &sigma[r]
		v[a] += v[b] + m[p[2*i]]
		v[e] = bits.RotateLeft32(v[e]^v[a], -16)
		v[c] += v[e]
		v[b] = bits.RotateLeft32(v[b]^v[c], -12)
		v[a] += v[b] + m[p[2*i+1]]
		v[e] = bits.RotateLeft32(v[e]^v[a], -8)
		v[c] += v[e]
		v[b] = bits.RotateLeft32(v[b]^v[c], -7)
	}
	for r := 0; r < 10; r++ {
		g(r, 0, 0, 4, 8, 12)
		g(r, 1, 1, 5, 9, 13)
		g(r, 2, 2, 6, 10, 14)
		g(r, 3, 3, 7, 11, 15)
		g(r, 4, 0, 5, 10, 15)
		g(r, 5, 1, 6, 11, 12)
		g(r, 6, 2, 7, 8, 13)
		g(r, 7, 3, 4, 9, 14)
	}
	for i := 0; i < 8; i++ {
		d.h[i] ^= v[i] ^ v[i+8]
	}
}

var sha256IV = iv32(true)

func (d *Blake2sStream) Write(p []byte) {
	for len(p) > 0 {
		if len(d.buf) == 64 {
			d.t += 64
			d.compress(d.buf, false)
			d.buf = d.buf[:0]
		}
		if len(d.buf) == 0 {
			for len(p) > 64 {
				d.t += 64
				d.compress(p[:64], false)
				p = p[64:]
			}
		}
		n := 64 - len(d.buf)
		if n > len(p) {
			n = len(p)
		}
		d.buf = append(d.buf, p[:n]...)
		p = p[n:]
	}
}

func (d *Blake2sStream) Sum() []byte {
	d.t += uint64(len(d.buf))
	b := make([]byte, 64)
	copy(b, d.buf)
	d.compress(b, true)
	out := make([]byte, 32)
	for i, w := range d.h {
		binary.LittleEndian.PutUint32(out[4*i:], w)
	}
	return out[:d.size]
}

func Blake2s(p Blake2sParams, msg []byte) []byte {
	d := NewBlake2s(p)
	d.Write(msg)
	return d.Sum()
}
