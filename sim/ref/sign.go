package ref

import (
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/sha512"
	"math/big"
)

// edRoot is the square root of -486664 that maps the Montgomery base point to
// the Edwards base point.
var edRoot = func() *big.Int {
	c := new(big.Int).ModSqrt(fmod(big.NewInt(-486664)), P25519)
	bx, _ := new(big.Int).SetString("15112221349535400772501151409588531511454012693041857206046113283949847762202", 10)
	x := fmod(new(big.Int).Mul(c, new(big.Int).Mul(mbase.x, new(big.Int).ModInverse(mbase.y, P25519))))
	if x.Cmp(bx) != 0 {
		c.Sub(P25519, c)
	}
	return c
}()

// edEncode maps a Montgomery point to its Edwards encoding.
func edEncode(p mpt) []byte {
	if p.inf {
		return LE32(big.NewInt(1))
	}
	if p.y.Sign() == 0 { // the point of order two, (0,-1)
		return LE32(new(big.Int).Sub(P25519, big.NewInt(1)))
	}
	x := fmod(new(big.Int).Mul(edRoot, new(big.Int).Mul(p.x, new(big.Int).ModInverse(p.y, P25519))))
	one := big.NewInt(1)
	y := fmod(new(big.Int).Mul(new(big.Int).Sub(p.x, one), new(big.Int).ModInverse(new(big.Int).Add(p.x, one), P25519)))
	b := LE32(y)
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

// EdPub is the Edwards encoding of d·B.
func EdPub(d *big.Int) []byte { return edEncode(mmul(mbase, new(big.Int).Mod(d, L25519))) }

// XPub is the Montgomery u-coordinate of d·B.
func XPub(d *big.Int) []byte {
	p := mmul(mbase, new(big.Int).Mod(d, L25519))
	if p.inf {
		return make([]byte, 32)
	}
	return LE32(p.x)
}

// EdHash is the challenge scalar.
func EdHash(R, A, msg []byte) *big.Int {
	h := sha512.New()
	h.Write(R)
	h.Write(A)
	h.Write(msg)
	x := LE(h.Sum(nil))
	return x.Mod(x, L25519)
}

// EdSign signs with a raw scalar and a chosen nonce.
func EdSign(d *big.Int, msg []byte, r *big.Int) []byte {
	R := EdPub(r)
	s := new(big.Int).Mul(EdHash(R, EdPub(d), msg), d)
	s.Add(s, r).Mod(s, L25519)
	return append(R, LE32(s)...)
}

// EdNonce recovers the nonce of a raw-scalar signature.
func EdNonce(d *big.Int, msg, sig []byte) *big.Int {
	h := EdHash(sig[:32], EdPub(d), msg)
	s := append([]byte(nil), sig[32:]...)
	r := new(big.Int).Sub(LE(s), h.Mul(h, d))
	return r.Mod(r, L25519)
}

// XNonce recovers the nonce of a signature under an X25519 key.
func XNonce(d *big.Int, msg, sig []byte) *big.Int {
	A := EdPub(d)
	h := EdHash(sig[:32], A, msg)
	s := append([]byte(nil), sig[32:]...)
	s[31] &= 0x7f
	r := new(big.Int).Sub(LE(s), h.Mul(h, d))
	return r.Mod(r, L25519)
}

// SeedScalar expands an RFC 8032 seed.
func SeedScalar(seed []byte) *big.Int {
	h := sha512.Sum512(seed)
	h[0] &= 248
	h[31] = h[31]&127 | 64
	return LE(h[:32])
}

// SeedPub and SeedSign are RFC 8032 (crypto/ed25519).
func SeedPub(seed []byte) []byte       { return ed25519.NewKeyFromSeed(seed)[32:] }
func SeedSign(seed, msg []byte) []byte { return ed25519.Sign(ed25519.NewKeyFromSeed(seed), msg) }

// Clamp is the curve25519 clamping of a private key.
func Clamp(k []byte) []byte {
	c := append([]byte(nil), k...)
	c[0] &= 248
	c[31] = c[31]&127 | 64
	return c
}

// KCDSAPub is the public key of the Curve25519/SHA-256 scheme.
func KCDSAPub(k []byte) []byte { return XPub(LE(Clamp(k))) }

// ECDSASign signs with a chosen nonce; nil if that nonce does not work.
func ECDSASign(c *Curve, d *big.Int, hash []byte, k *big.Int) (sig []byte, v byte) {
	R := c.Base(k)
	if R.Inf {
		return nil, 0
	}
	r := new(big.Int).Mod(R.X, c.N)
	s := new(big.Int).Mul(r, d)
	s.Add(s, new(big.Int).SetBytes(hash)).Mul(s, new(big.Int).ModInverse(k, c.N)).Mod(s, c.N)
	if r.Sign() == 0 || s.Sign() == 0 {
		return nil, 0
	}
	v = byte(R.Y.Bit(0))
	if R.X.Cmp(c.N) >= 0 {
		v |= 2
	}
	if s.Cmp(new(big.Int).Rsh(c.N, 1)) > 0 {
		s.Sub(c.N, s)
		v ^= 1
	}
	return append(B32(r), B32(s)...), v
}

// SM2Sign signs with a chosen nonce.
func SM2Sign(d *big.Int, pub, uid, msg []byte, k *big.Int) []byte {
	e := SM2E(pub, uid, msg)
	R := SM2.Base(k)
	if R.Inf {
		return nil
	}
	r := new(big.Int).Add(e, R.X)
	r.Mod(r, SM2.N)
	if r.Sign() == 0 || new(big.Int).Add(r, k).Cmp(SM2.N) == 0 {
		return nil
	}
	s := new(big.Int).ModInverse(new(big.Int).Add(d, big.NewInt(1)), SM2.N)
	t := new(big.Int).Mul(r, d)
	s.Mul(s, t.Sub(k, t)).Mod(s, SM2.N)
	if s.Sign() == 0 {
		return nil
	}
	return append(B32(r), B32(s)...)
}

// XEdSign signs with a raw scalar under its Montgomery key.
func XEdSign(d *big.Int, msg []byte, r *big.Int) []byte {
	s := EdSign(d, msg, r)
	s[63] |= EdPub(d)[31] & 0x80
	return s
}

// KCDSASign signs with a chosen nonce under the key k; nil if that nonce does
// not work.
func KCDSASign(k, msg []byte, x *big.Int) []byte {
	pub := KCDSAPub(k)
	m := sha256.Sum256(msg)
	h := sha2(m[:], XPub(x))
	a := new(big.Int).Mod(LE(Clamp(k)), L25519)
	for i := 0; i < 2; i++ {
		v := new(big.Int).Sub(x, LE(h))
		v.Mul(v, new(big.Int).ModInverse(a, L25519)).Mod(v, L25519)
		sig := append(LE32(v), h...)
		if ok, _ := KCDSAVerify(pub, msg, sig); ok {
			return sig
		}
		a.Sub(L25519, a)
	}
	return nil
}

// EdYToX maps an Edwards encoding to the Montgomery u coordinate (the sign does
// not matter; the identity maps to zero).
func EdYToX(b []byte) []byte {
	c := append([]byte{}, b...)
	c[31] &= 0x7f
	y := fmod(LE(c))
	one := big.NewInt(1)
	den := fmod(new(big.Int).Sub(one, y))
	inv := new(big.Int).Exp(den, new(big.Int).Sub(P25519, big.NewInt(2)), P25519)
	return LE32(fmod(inv.Mul(inv, new(big.Int).Add(one, y))))
}

// OnMont reports whether u is the coordinate of a point of curve25519.
func OnMont(u *big.Int) bool { return mlift(u, 0) != nil }
