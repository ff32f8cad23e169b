package ref

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"errors"
	"math/big"
	"sync"
)

// Curve is a short Weierstrass curve y^2 = x^3 + ax + b over F_P with a
// prime-order group of order N.
type Curve struct {
	Name               string
	P, A, B, N, Gx, Gy *big.Int
	halfN              *big.Int
	base               *Point
	once               sync.Once
	tab                [][16]jac
}

// Point is affine; Inf marks the point at infinity.
type Point struct {
	X, Y *big.Int
	Inf  bool
}

func hx(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return x
}

func mkCurve(name, p, a, b, n, gx, gy string) *Curve {
	c := &Curve{Name: name, P: hx(p), A: hx(a), B: hx(b), N: hx(n), Gx: hx(gx), Gy: hx(gy)}
	c.halfN = new(big.Int).Rsh(c.N, 1)
	c.base = &Point{X: c.Gx, Y: c.Gy}
	if !c.OnCurve(c.base) {
		panic(name)
	}
	return c
}

var (
	K1 = mkCurve("secp256k1", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "0", "7",
		"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
		"79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
	R1 = mkCurve("secp256r1", "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc", "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
		"ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
		"6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")
	SM2 = mkCurve("sm2", "fffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff", "fffffffeffffffffffffffffffffffffffffffff00000000fffffffffffffffc", "28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e93",
		"fffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123",
		"32c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7", "bc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0")
	Pallas = mkCurve("pallas", "40000000000000000000000000000000224698fc094cf91b992d30ed00000001", "0", "5",
		"40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001",
		"1", "1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb")
)

func (c *Curve) OnCurve(p *Point) bool {
	if p.Inf {
		return true
	}
	if p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(c.P) >= 0 || p.Y.Cmp(c.P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.Y, p.Y)
	l.Sub(l, c.rhs(p.X))
	return l.Mod(l, c.P).Sign() == 0
}

func (c *Curve) rhs(x *big.Int) *big.Int {
	r := new(big.Int).Mul(x, x)
	r.Add(r, c.A)
	r.Mul(r, x)
	r.Add(r, c.B)
	return r.Mod(r, c.P)
}

// jac is a point in Jacobian coordinates, Z=0 at infinity.
type jac struct{ X, Y, Z *big.Int }

func (c *Curve) toJ(p *Point) jac {
	if p.Inf {
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	return jac{new(big.Int).Set(p.X), new(big.Int).Set(p.Y), big.NewInt(1)}
}

func (c *Curve) toA(j jac) *Point {
	if j.Z.Sign() == 0 {
		return &Point{Inf: true}
	}
	zi := new(big.Int).ModInverse(j.Z, c.P)
	z2 := c.mul(zi, zi)
	return &Point{X: c.mul(j.X, z2), Y: c.mul(j.Y, c.mul(z2, zi))}
}

func (c *Curve) mul(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, c.P) }
func (c *Curve) sub(a, b *big.Int) *big.Int { r := new(big.Int).Sub(a, b); return r.Mod(r, c.P) }

func (c *Curve) jdbl(p jac) jac {
	if p.Z.Sign() == 0 || p.Y.Sign() == 0 {
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	y2 := c.mul(p.Y, p.Y)
	s := c.mul(big.NewInt(4), c.mul(p.X, y2))
	m := c.mul(big.NewInt(3), c.mul(p.X, p.X))
	if c.A.Sign() != 0 {
		z2 := c.mul(p.Z, p.Z)
		m.Add(m, c.mul(c.A, c.mul(z2, z2)))
		m.Mod(m, c.P)
	}
	x := c.sub(c.mul(m, m), new(big.Int).Lsh(s, 1))
	y := c.sub(c.mul(m, c.sub(s, x)), c.mul(big.NewInt(8), c.mul(y2, y2)))
	z := c.mul(big.NewInt(2), c.mul(p.Y, p.Z))
	return jac{x, y, z}
}

func (c *Curve) jadd(p, q jac) jac {
	if p.Z.Sign() == 0 {
		return q
	}
	if q.Z.Sign() == 0 {
		return p
	}
	z1, z2 := c.mul(p.Z, p.Z), c.mul(q.Z, q.Z)
	u1, u2 := c.mul(p.X, z2), c.mul(q.X, z1)
	s1, s2 := c.mul(p.Y, c.mul(z2, q.Z)), c.mul(q.Y, c.mul(z1, p.Z))
	if u1.Cmp(u2) == 0 {
		if s1.Cmp(s2) != 0 {
			return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
		}
		return c.jdbl(p)
	}
	h := c.sub(u2, u1)
	r := c.sub(s2, s1)
	h2 := c.mul(h, h)
	h3 := c.mul(h2, h)
	v := c.mul(u1, h2)
	x := c.sub(c.sub(c.mul(r, r), h3), new(big.Int).Lsh(v, 1))
	y := c.sub(c.mul(r, c.sub(v, x)), c.mul(s1, h3))
	return jac{x, y, c.mul(c.mul(p.Z, q.Z), h)}
}

// Add is the group operation.
func (c *Curve) Add(p, q *Point) *Point { return c.toA(c.jadd(c.toJ(p), c.toJ(q))) }

// Neg is the group inverse.
func (c *Curve) Neg(p *Point) *Point {
	if p.Inf {
		return p
	}
	return &Point{X: p.X, Y: c.sub(new(big.Int), p.Y)}
}

// Mul is scalar multiplication (scalar taken modulo N).
func (c *Curve) Mul(p *Point, k *big.Int) *Point {
	return c.MulRaw(p, new(big.Int).Mod(k, c.N))
}

var jInf = jac{big.NewInt(1), big.NewInt(1), new(big.Int)}

// MulRaw multiplies by k as it is (four bits at a time).
func (c *Curve) MulRaw(p *Point, e *big.Int) *Point { return c.toA(c.jmul(c.toJ(p), e)) }

func (c *Curve) jmul(j jac, e *big.Int) jac {
	var t [16]jac
	t[0], t[1] = jInf, j
	top := 15
	if e.BitLen() < 12 {
		top = 1
	}
	for i := 2; i <= top; i++ {
		t[i] = c.jadd(t[i-1], j)
	}
	r := jInf
	if top == 1 {
		for i := e.BitLen() - 1; i >= 0; i-- {
			r = c.jdbl(r)
			if e.Bit(i) == 1 {
				r = c.jadd(r, j)
			}
		}
		return r
	}
	for i := (e.BitLen() + 3) / 4; i > 0; i-- {
		r = c.jdbl(c.jdbl(c.jdbl(c.jdbl(r))))
		r = c.jadd(r, t[nibble(e, 4*i-4)])
	}
	return r
}

func nibble(e *big.Int, i int) uint {
	return e.Bit(i) | e.Bit(i+1)<<1 | e.Bit(i+2)<<2 | e.Bit(i+3)<<3
}

// jbase uses tables of multiples of the base point.
func (c *Curve) jbase(e *big.Int) jac {
	c.once.Do(func() {
		j := c.toJ(c.base)
		for w := 0; w < 64; w++ {
			var t [16]jac
			t[0] = jInf
			for i := 1; i < 16; i++ {
				t[i] = c.toJ(c.toA(c.jadd(t[i-1], j)))
			}
			j = c.jadd(t[15], j)
			c.tab = append(c.tab, t)
		}
	})
	r := jInf
	for w := 0; w < 64; w++ {
		r = c.jadd(r, c.tab[w][nibble(e, 4*w)])
	}
	return r
}

// Mul2 computes aG + bQ.
func (c *Curve) Mul2(a *big.Int, q *Point, b *big.Int) *Point {
	x, y := new(big.Int).Mod(a, c.N), new(big.Int).Mod(b, c.N)
	return c.toA(c.jadd(c.jbase(x), c.jmul(c.toJ(q), y)))
}

// Base is a multiple of the base point.
func (c *Curve) Base(k *big.Int) *Point { return c.toA(c.jbase(new(big.Int).Mod(k, c.N))) }

// Bytes is X||Y.
func (p *Point) Bytes() []byte {
	return append(B32(p.X), B32(p.Y)...)
}

// B32 is the 32-byte big-endian form.
func B32(x *big.Int) []byte { return x.FillBytes(make([]byte, 32)) }

// Parse64 reads X||Y and checks that it is a valid point.
func (c *Curve) Parse64(b []byte) *Point {
	if len(b) != 64 {
		return nil
	}
	p := &Point{X: new(big.Int).SetBytes(b[:32]), Y: new(big.Int).SetBytes(b[32:])}
	if !c.OnCurve(p) {
		return nil
	}
	return p
}

// Lift returns the point with the given x and y parity, or nil.
func (c *Curve) Lift(x *big.Int, odd uint) *Point {
	if x.Sign() < 0 || x.Cmp(c.P) >= 0 {
		return nil
	}
	y := new(big.Int).ModSqrt(c.rhs(x), c.P)
	if y == nil {
		return nil
	}
	if y.Bit(0) != odd {
		y.Sub(c.P, y)
	}
	if y.Cmp(c.P) >= 0 || y.Bit(0) != odd {
		return nil
	}
	return &Point{X: new(big.Int).Set(x), Y: y}
}

// Decompress reads 02/03||X.
func (c *Curve) Decompress(b []byte) *Point {
	if len(b) != 33 || b[0] != 2 && b[0] != 3 {
		return nil
	}
	return c.Lift(new(big.Int).SetBytes(b[1:]), uint(b[0]&1))
}

// Compress writes 02/03||X.
func (p *Point) Compress() []byte { return append([]byte{2 + byte(p.Y.Bit(0))}, B32(p.X)...) }

func split(c *Curve, sig []byte) (r, s *big.Int, ok bool) {
	if len(sig) != 64 {
		return nil, nil, false
	}
	r, s = new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	ok = r.Sign() > 0 && s.Sign() > 0 && r.Cmp(c.N) < 0 && s.Cmp(c.N) < 0
	return
}

// ECDSAVerify is SEC1 verification of a 32-byte digest.
func ECDSAVerify(c *Curve, pub, hash, sig []byte) bool {
	q := c.Parse64(pub)
	r, s, ok := split(c, sig)
	if q == nil || !ok || len(hash) != 32 {
		return false
	}
	w := new(big.Int).ModInverse(s, c.N)
	e := new(big.Int).SetBytes(hash)
	R := c.Mul2(e.Mul(e, w), q, new(big.Int).Mul(r, w))
	if R.Inf {
		return false
	}
	return new(big.Int).Mod(R.X, c.N).Cmp(r) == 0
}

// ECDSARecover returns the key for (r, s, v) or nil.
func ECDSARecover(c *Curve, sig []byte, v byte, hash []byte) *Point {
	r, s, ok := split(c, sig)
	if !ok || v > 1 {
		return nil
	}
	R := c.Lift(r, uint(v))
	if R == nil {
		return nil
	}
	ri := new(big.Int).ModInverse(r, c.N)
	e := new(big.Int).SetBytes(hash)
	e.Mul(e, ri)
	e.Neg(e)
	q := c.Mul2(e, R, new(big.Int).Mul(s, ri))
	if q.Inf {
		return nil
	}
	return q
}

// ECDSANonce recovers the nonce (up to sign) from a signature and the key.
func ECDSANonce(c *Curve, d *big.Int, hash, sig []byte) *big.Int {
	r, s, ok := split(c, sig)
	if !ok {
		return nil
	}
	k := new(big.Int).Mul(r, d)
	k.Add(k, new(big.Int).SetBytes(hash))
	k.Mul(k, new(big.Int).ModInverse(s, c.N))
	return k.Mod(k, c.N)
}

// ---- SM2 ----

// SM2ZA is the identity hash.
func SM2ZA(pub, uid []byte) []byte {
	var b []byte
	n := len(uid) * 8
	b = append(b, byte(n>>8), byte(n))
	b = append(b, uid...)
	for _, x := range []*big.Int{SM2.A, SM2.B, SM2.Gx, SM2.Gy} {
		b = append(b, B32(x)...)
	}
	b = append(b, pub...)
	return SM3(b)
}

// SM2E is the digest that is signed; with a nil uid the input is the digest.
func SM2E(pub, uid, msg []byte) *big.Int {
	if uid == nil {
		return new(big.Int).SetBytes(msg)
	}
	return new(big.Int).SetBytes(SM3(SM2ZA(pub, uid), msg))
}

// SM2Verify follows GB/T 32918.2.
func SM2Verify(pub, uid, msg, sig []byte) bool {
	c := SM2
	q := c.Parse64(pub)
	r, s, ok := split(c, sig)
	if q == nil || !ok || len(msg) != 32 || len(uid) >= 8192 {
		return false
	}
	t := new(big.Int).Add(r, s)
	t.Mod(t, c.N)
	if t.Sign() == 0 {
		return false
	}
	R := c.Mul2(s, q, t)
	if R.Inf {
		return false
	}
	x := new(big.Int).Add(R.X, SM2E(pub, uid, msg))
	return x.Mod(x, c.N).Cmp(r) == 0
}

// SM2Nonce recovers k = s(1+d) + rd.
func SM2Nonce(d *big.Int, sig []byte) *big.Int {
	r, s, ok := split(SM2, sig)
	if !ok {
		return nil
	}
	k := new(big.Int).Add(big.NewInt(1), d)
	k.Mul(k, s)
	k.Add(k, new(big.Int).Mul(r, d))
	return k.Mod(k, SM2.N)
}

// SM2KDF is the key derivation function.
func SM2KDF(n int, parts ...[]byte) []byte {
	var out []byte
	for ct := uint32(1); len(out) < n; ct++ {
		all := append(append([][]byte{}, parts...), []byte{byte(ct >> 24), byte(ct >> 16), byte(ct >> 8), byte(ct)})
		out = append(out, SM3(all...)...)
	}
	return out[:n]
}

func allZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

// SM2Encrypt encrypts with an explicit nonce; nil if the nonce must be redrawn.
func SM2Encrypt(pub, plain []byte, k *big.Int) []byte {
	q := SM2.Parse64(pub)
	if q == nil {
		return nil
	}
	c1 := SM2.Base(k)
	s := SM2.Mul(q, k)
	if c1.Inf || s.Inf {
		return nil
	}
	t := SM2KDF(len(plain), B32(s.X), B32(s.Y))
	if allZero(t) {
		return nil
	}
	for i := range t {
		t[i] ^= plain[i]
	}
	out := append([]byte{4}, c1.Bytes()...)
	out = append(out, SM3(B32(s.X), plain, B32(s.Y))...)
	return append(out, t...)
}

// SM2Decrypt opens 04||C1||C3||C2.
func SM2Decrypt(d *big.Int, ct []byte) ([]byte, error) {
	if len(ct) < 98 || ct[0] != 4 {
		return nil, errors.New("format")
	}
	c1 := SM2.Parse64(ct[1:65])
	if c1 == nil {
		return nil, errors.New("C1")
	}
	s := SM2.Mul(c1, d)
	if s.Inf {
		return nil, errors.New("infinity")
	}
	t := SM2KDF(len(ct)-97, B32(s.X), B32(s.Y))
	if allZero(t) {
		return nil, errors.New("kdf")
	}
	for i := range t {
		t[i] ^= ct[97+i]
	}
	if !bytes.Equal(SM3(B32(s.X), t, B32(s.Y)), ct[65:97]) {
		return nil, errors.New("C3")
	}
	return t, nil
}

// SM2KA computes the shared secret of one side.  d, r: own static and
// ephemeral private keys; R: own ephemeral public key.
func SM2KA(initiator bool, ida, idb, puba, pubb []byte, d, r *big.Int, Ra, Rb []byte, n int) (key, s2, s3 []byte, err error) {
	own, peer, peerPub := Ra, Rb, pubb
	if !initiator {
		own, peer, peerPub = Rb, Ra, puba
	}
	pr, pp := SM2.Parse64(peer), SM2.Parse64(peerPub)
	if pr == nil || pp == nil || len(own) != 64 {
		return nil, nil, nil, errors.New("point")
	}
	bar := func(b []byte) *big.Int {
		x := append([]byte{}, b[16:32]...)
		x[0] |= 0x80
		return new(big.Int).SetBytes(x)
	}
	t := new(big.Int).Mul(bar(own), r)
	t.Add(t, d)
	t.Mod(t, SM2.N)
	u := SM2.Mul(SM2.Add(pp, SM2.Mul(pr, bar(peer))), t)
	if u.Inf {
		return nil, nil, nil, errors.New("infinity")
	}
	za, zb := SM2ZA(puba, ida), SM2ZA(pubb, idb)
	key = SM2KDF(n, B32(u.X), B32(u.Y), za, zb)
	in := SM3(B32(u.X), za, zb, Ra, Rb)
	s2 = SM3([]byte{2}, B32(u.Y), in)
	s3 = SM3([]byte{3}, B32(u.Y), in)
	return
}

// SM2Recover returns the key for a signature over the digest e, or nil.
func SM2Recover(sig []byte, v byte, hash []byte) *Point {
	c := SM2
	r, s, ok := split(c, sig)
	if !ok || v > 1 {
		return nil
	}
	x := new(big.Int).Sub(r, new(big.Int).SetBytes(hash))
	x.Mod(x, c.N)
	R := c.Lift(x, uint(v))
	if R == nil {
		return nil
	}
	t := new(big.Int).Add(r, s)
	t.Mod(t, c.N)
	if t.Sign() == 0 {
		return nil
	}
	ti := new(big.Int).ModInverse(t, c.N)
	a := new(big.Int).Mul(s, ti)
	q := c.Mul2(a.Neg(a), R, ti)
	if q.Inf {
		return nil
	}
	return q
}

// ---- Edwards / Montgomery ----

var (
	P25519 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	L25519 = hx("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
)

// LE reads little-endian bytes.
func LE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// LE32 writes 32 little-endian bytes.
func LE32(x *big.Int) []byte {
	b := x.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return b
}

// EdVerify is RFC 8032 verification (standard library).
func EdVerify(pub, msg, sig []byte) bool {
	return len(pub) == 32 && len(sig) == 64 && ed25519.Verify(ed25519.PublicKey(pub), msg, sig)
}

// XToEdY maps a Montgomery u to the Edwards y encoding without sign.
func XToEdY(u []byte) []byte {
	b := append([]byte{}, u...)
	b[31] &= 0x7f
	x := LE(b)
	x.Mod(x, P25519)
	num := new(big.Int).Sub(x, big.NewInt(1))
	den := new(big.Int).Add(x, big.NewInt(1))
	den.Mod(den, P25519)
	inv := new(big.Int).Exp(den, new(big.Int).Sub(P25519, big.NewInt(2)), P25519)
	num.Mul(num, inv)
	return LE32(num.Mod(num, P25519))
}

// XEdVerify verifies a signature under a Montgomery key; the sign of the
// Edwards key travels in the top bit of the signature.
func XEdVerify(pub, msg, sig []byte) bool {
	if len(pub) != 32 || len(sig) != 64 {
		return false
	}
	a := XToEdY(pub)
	a[31] |= sig[63] & 0x80
	s := append([]byte{}, sig...)
	s[63] &= 0x7f
	return EdVerify(a, msg, s)
}

// mont is x-only/affine arithmetic on y^2 = x^3 + 486662 x^2 + x.
type mpt struct {
	x, y *big.Int
	inf  bool
}

var montA = big.NewInt(486662)

func fmod(x *big.Int) *big.Int { return x.Mod(x, P25519) }

func mrhs(x *big.Int) *big.Int {
	r := new(big.Int).Add(x, montA)
	r.Mul(r, x)
	r.Add(r, big.NewInt(1))
	return fmod(r.Mul(r, x))
}

func madd(p, q mpt) mpt {
	if p.inf {
		return q
	}
	if q.inf {
		return p
	}
	var l *big.Int
	if p.x.Cmp(q.x) == 0 {
		if fmod(new(big.Int).Add(p.y, q.y)).Sign() == 0 {
			return mpt{inf: true}
		}
		n := new(big.Int).Mul(big.NewInt(3), new(big.Int).Mul(p.x, p.x))
		n.Add(n, new(big.Int).Mul(new(big.Int).Lsh(montA, 1), p.x))
		n.Add(n, big.NewInt(1))
		l = fmod(n.Mul(n, new(big.Int).ModInverse(fmod(new(big.Int).Lsh(p.y, 1)), P25519)))
	} else {
		n := new(big.Int).Sub(q.y, p.y)
		l = fmod(n.Mul(n, new(big.Int).ModInverse(fmod(new(big.Int).Sub(q.x, p.x)), P25519)))
	}
	x := new(big.Int).Mul(l, l)
	x.Sub(x, montA)
	x.Sub(x, p.x)
	x.Sub(x, q.x)
	fmod(x)
	y := new(big.Int).Sub(p.x, x)
	y.Mul(y, l)
	y.Sub(y, p.y)
	return mpt{x: x, y: fmod(y)}
}

func mmul(p mpt, k *big.Int) mpt {
	r := mpt{inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = madd(r, r)
		if k.Bit(i) == 1 {
			r = madd(r, p)
		}
	}
	return r
}

func mlift(x *big.Int, odd uint) *mpt {
	y := new(big.Int).ModSqrt(mrhs(x), P25519)
	if y == nil {
		return nil
	}
	if y.Bit(0) != odd {
		y.Sub(P25519, y)
	}
	return &mpt{x: x, y: y}
}

var mbase = func() mpt {
	p := mlift(big.NewInt(9), 0)
	want, _ := new(big.Int).SetString("14781619447589544791020593568409986887264606134616475288964881837755586237401", 10)
	if p.y.Cmp(want) != 0 {
		p.y.Sub(P25519, p.y)
	}
	return *p
}()

// KCDSAParity is the parity of the y coordinate that stands for a public key
// of the Curve25519/SHA-256 scheme.
var KCDSAParity uint = 1

// KCDSAVerify verifies v||h: Y = x(v|P| + hG), h = SHA256(SHA256(m)||Y).
func KCDSAVerify(pub, msg, sig []byte) (ok bool, Y []byte) {
	if len(pub) != 32 || len(sig) != 64 {
		return false, nil
	}
	v, h := LE(sig[:32]), LE(sig[32:])
	u := LE(pub)
	if v.Cmp(L25519) >= 0 || u.Cmp(P25519) >= 0 {
		return false, nil
	}
	p := mlift(u, KCDSAParity)
	if p == nil {
		return false, nil
	}
	R := madd(mmul(*p, v), mmul(mbase, h))
	x := new(big.Int)
	if !R.inf {
		x = R.x
	}
	Y = LE32(x)
	m := sha256.Sum256(msg)
	return bytes.Equal(sha2(m[:], Y), sig[32:]), Y
}

func sha2(p ...[]byte) []byte {
	h := sha256.New()
	for _, x := range p {
		h.Write(x)
	}
	return h.Sum(nil)
}
