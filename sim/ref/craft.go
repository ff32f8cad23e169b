package ref

import "math/big"

// Signatures and keys nobody needs a private key for: valid ones for arbitrary
// components, and forgeries that only a verifier with a missing check accepts.

// ECDSACraft makes the key under which (r, s) signs hash, where r comes from the
// point with the given x coordinate and parity; nil when there is none.
func ECDSACraft(c *Curve, x *big.Int, odd uint, s *big.Int, hash []byte) (pub, sig []byte, v byte) {
	R := c.Lift(x, odd)
	if R == nil {
		return nil, nil, 0
	}
	r := new(big.Int).Mod(x, c.N)
	s = new(big.Int).Mod(s, c.N)
	if r.Sign() == 0 || s.Sign() == 0 {
		return nil, nil, 0
	}
	ri := new(big.Int).ModInverse(r, c.N)
	e := new(big.Int).SetBytes(hash)
	e.Mul(e, ri)
	e.Neg(e)
	q := c.Mul2(e, R, new(big.Int).Mul(s, ri))
	if q.Inf {
		return nil, nil, 0
	}
	v = byte(odd)
	if x.Cmp(c.N) >= 0 {
		v |= 2
	}
	return q.Bytes(), append(B32(r), B32(s)...), v
}

// SM2Craft is the same for SM2 over a raw digest.
func SM2Craft(x *big.Int, odd uint, s *big.Int, hash []byte) (pub, sig []byte) {
	c := SM2
	R := c.Lift(x, odd)
	if R == nil {
		return nil, nil
	}
	s = new(big.Int).Mod(s, c.N)
	r := new(big.Int).Add(x, new(big.Int).SetBytes(hash))
	r.Mod(r, c.N)
	t := new(big.Int).Add(r, s)
	t.Mod(t, c.N)
	if r.Sign() == 0 || s.Sign() == 0 || t.Sign() == 0 {
		return nil, nil
	}
	ti := new(big.Int).ModInverse(t, c.N)
	a := new(big.Int).Mul(s, ti)
	// P = (R - sG)/t
	q := c.Mul2(a.Neg(a), R, ti)
	if q.Inf {
		return nil, nil
	}
	return q.Bytes(), append(B32(r), B32(s)...)
}

// Equal1 and Equal2 craft ECDSA / SM2 signatures in whose verification the two
// summands are the same point.
func ECDSAEqual(c *Curve, d, u *big.Int) (hash, sig []byte) {
	u2 := new(big.Int).Mul(u, new(big.Int).ModInverse(d, c.N))
	u2.Mod(u2, c.N)
	X := c.Base(new(big.Int).Lsh(u, 1))
	r := new(big.Int).Mod(X.X, c.N)
	s := new(big.Int).Mul(r, new(big.Int).ModInverse(u2, c.N))
	s.Mod(s, c.N)
	e := new(big.Int).Mul(u, s)
	e.Mod(e, c.N)
	return B32(e), append(B32(r), B32(s)...)
}

func SM2Equal(d, s *big.Int) (hash, sig []byte) {
	c := SM2
	t := new(big.Int).Mul(s, new(big.Int).ModInverse(d, c.N))
	t.Mod(t, c.N)
	r := new(big.Int).Sub(t, s)
	r.Mod(r, c.N)
	X := c.Base(new(big.Int).Lsh(s, 1))
	e := new(big.Int).Sub(r, X.X)
	e.Mod(e, c.N)
	if r.Sign() == 0 {
		return nil, nil
	}
	return B32(e), append(B32(r), B32(s)...)
}

// ECDSAEqualRec and SM2EqualRec craft signatures with nonce k in whose recovery the two
// summands are the same point.
func ECDSAEqualRec(c *Curve, d, k *big.Int) (hash, sig []byte) {
	r := new(big.Int).Mod(c.Base(k).X, c.N)
	h := new(big.Int).Mul(r, d) // e = -rd/2, s = rd/2k
	h.Mul(h, new(big.Int).ModInverse(big.NewInt(2), c.N))
	h.Mod(h, c.N)
	s := new(big.Int).Mul(h, new(big.Int).ModInverse(k, c.N))
	s.Mod(s, c.N)
	if r.Sign() == 0 || s.Sign() == 0 {
		return nil, nil
	}
	return B32(h.Sub(c.N, h)), append(B32(r), B32(s)...)
}

func SM2EqualRec(d, k *big.Int) (hash, sig []byte) {
	c := SM2 // s = -k, r = k(2+d)/d
	r := new(big.Int).Add(d, big.NewInt(2))
	r.Mul(r, k)
	r.Mul(r, new(big.Int).ModInverse(d, c.N))
	r.Mod(r, c.N)
	e := new(big.Int).Sub(r, c.Base(k).X)
	e.Mod(e, c.N)
	if r.Sign() == 0 {
		return nil, nil
	}
	return B32(e), append(B32(r), B32(new(big.Int).Sub(c.N, k))...)
}

// ECDSAInf, SM2Inf and MinaInf make what the key's owner would sign with nonce zero: the
// point the verifier computes is the point at infinity, which is no nonce point.
func ECDSAInf(c *Curve, d *big.Int, hash []byte, s *big.Int) []byte {
	r := new(big.Int).Mul(new(big.Int).SetBytes(hash), new(big.Int).ModInverse(d, c.N))
	r.Neg(r).Mod(r, c.N)
	return append(B32(r), B32(s)...)
}

func SM2Inf(d *big.Int, pub, uid, msg []byte) []byte {
	c := SM2
	r := SM2E(pub, uid, msg)
	r.Mod(r, c.N)
	i := new(big.Int).ModInverse(new(big.Int).Add(d, big.NewInt(1)), c.N)
	if i == nil {
		return nil
	}
	s := new(big.Int).Mul(r, d)
	s.Mul(s, i).Neg(s).Mod(s, c.N)
	return append(B32(r), B32(s)...)
}

func MinaInf(d *big.Int, msg []byte) []byte {
	m, ok := MinaParse(msg)
	if !ok {
		return nil
	}
	e := minaHash(m, Pallas.Base(d), new(big.Int))
	return append(make([]byte, 32), B32(e.Mul(e, d).Mod(e, Pallas.N))...)
}

// rawMul multiplies a point that need not be on the curve with the curve's formulas.
func (c *Curve) RawMul(x, y, k *big.Int) *Point {
	return c.MulRaw(&Point{X: x, Y: y}, k)
}

// BlsTorsionG1 is an encoding of a curve point outside the prime-order group.
func BlsTorsionG1(seed []byte) []byte {
	for i := 0; ; i++ {
		x := new(big.Int).SetBytes(sha2(seed, []byte{byte(i)}))
		y := new(big.Int).ModSqrt(blsG1.rhs(x), blsP)
		if y == nil {
			continue
		}
		p := blsG1.MulRaw(&Point{X: x, Y: y}, BlsR)
		if p.Inf {
			continue
		}
		return g1Bytes(p)
	}
}

// BlsTorsionG2 is a curve point of G2's curve outside the prime-order group.
func BlsTorsionG2(seed []byte) *G2 {
	for i := int64(0); ; i++ {
		x := f2(new(big.Int).SetBytes(sha2(seed, []byte{byte(i)})), big.NewInt(i))
		y, ok := x.sq().mul(x).add(blsB2).sqrt()
		if !ok {
			continue
		}
		p := (&G2{x, y}).Mul(BlsR)
		if p == nil {
			continue
		}
		return p
	}
}

// ---- edwards25519, affine ----

var edD = fmod(new(big.Int).Mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), P25519)))

type edp struct{ x, y *big.Int }

func edAdd(p, q edp) edp {
	m := func(a, b *big.Int) *big.Int { return fmod(new(big.Int).Mul(a, b)) }
	t := m(edD, m(m(p.x, q.x), m(p.y, q.y)))
	x := fmod(new(big.Int).Add(m(p.x, q.y), m(q.x, p.y)))
	y := fmod(new(big.Int).Add(m(p.y, q.y), m(p.x, q.x)))
	dx := fmod(new(big.Int).Add(big.NewInt(1), t))
	dy := fmod(new(big.Int).Sub(big.NewInt(1), t))
	return edp{m(x, new(big.Int).ModInverse(dx, P25519)), m(y, new(big.Int).ModInverse(dy, P25519))}
}

// edDecode reads an Edwards encoding; canon asks for a canonical one.
func edDecode(b []byte) (p edp, ok bool) {
	if len(b) != 32 {
		return p, false
	}
	c := append([]byte{}, b...)
	c[31] &= 0x7f
	y := fmod(LE(c))
	yy := fmod(new(big.Int).Mul(y, y))
	n := fmod(new(big.Int).Sub(yy, big.NewInt(1)))
	d := fmod(new(big.Int).Add(new(big.Int).Mul(edD, yy), big.NewInt(1)))
	x := new(big.Int).ModSqrt(fmod(n.Mul(n, new(big.Int).ModInverse(d, P25519))), P25519)
	if x == nil {
		return p, false
	}
	if x.Bit(0) != uint(b[31]>>7) {
		x = fmod(new(big.Int).Neg(x))
	}
	return edp{x, y}, true
}

func (p edp) enc() []byte {
	b := LE32(p.y)
	b[31] |= byte(p.x.Bit(0)) << 7
	return b
}

// IsEdPoint reports whether b is the canonical encoding of a curve point.
func IsEdPoint(b []byte) bool {
	p, ok := edDecode(b)
	return ok && string(p.enc()) == string(b)
}

// EdDecodable reports whether b decodes to a point, canonically or not.
func EdDecodable(b []byte) bool { _, ok := edDecode(b); return ok }

// EdPointAdd adds two encoded points.
func EdPointAdd(a, b []byte) ([]byte, bool) {
	p, ok := edDecode(a)
	q, ok2 := edDecode(b)
	if !ok || !ok2 {
		return nil, false
	}
	return edAdd(p, q).enc(), true
}

// edSmall lists the eight points of small order.
var edSmall = func() []edp {
	for y := int64(2); ; y++ {
		p, ok := edDecode(LE32(big.NewInt(y)))
		if !ok {
			continue
		}
		t := edp{big.NewInt(0), big.NewInt(1)}
		for i := L25519.BitLen() - 1; i >= 0; i-- {
			t = edAdd(t, t)
			if L25519.Bit(i) == 1 {
				t = edAdd(t, p)
			}
		}
		q := edAdd(t, t)
		q = edAdd(q, q)
		if q.x.Sign() == 0 && q.y.Cmp(big.NewInt(1)) == 0 {
			continue
		}
		out := []edp{{big.NewInt(0), big.NewInt(1)}}
		for len(out) < 8 {
			out = append(out, edAdd(out[len(out)-1], t))
		}
		return out
	}
}()

// EdAddSmall adds a small-order point to an encoded point.
func EdAddSmall(b []byte, i int) []byte {
	p, ok := edDecode(b)
	if !ok {
		return b
	}
	return edAdd(p, edSmall[i&7]).enc()
}

// SmallKey is an encoding of a small-order public key, canonical or not.
func SmallKey(mont bool, i int) []byte {
	if mont {
		x, _ := new(big.Int).SetString("39382357235489614581723060781553021112529911719440698176882885853963445705823", 10)
		y, _ := new(big.Int).SetString("325606250916557431795983626356110631294008115727848805560023387167927233504", 10)
		one := big.NewInt(1)
		l := []*big.Int{new(big.Int), one, x, y, new(big.Int).Sub(P25519, one), P25519, new(big.Int).Add(P25519, one), new(big.Int).Lsh(one, 255)}
		return LE32(l[i&7])
	}
	b := edSmall[i&7].enc()
	if i&8 != 0 { // a non-canonical encoding where there is one
		c := append([]byte{}, b...)
		sign := c[31] & 0x80
		c[31] &= 0x7f
		if y := new(big.Int).Add(LE(c), P25519); y.BitLen() <= 255 {
			b = LE32(y)
			b[31] |= sign
		}
	}
	if i&16 != 0 && edSmall[i&7].x.Sign() == 0 {
		b[31] ^= 0x80
	}
	return b
}

// SignedForKey makes a digest and a signature that verifies under any key q at
// all (u1 and u2 choose which); nobody needs to know the private key.
func SignedForKey(c *Curve, q *Point, u1, u2 *big.Int, sm2 bool) (hash, sig []byte) {
	R := c.Mul2(u1, q, u2)
	if R.Inf || u2.Sign() == 0 {
		return nil, nil
	}
	mod := func(x *big.Int) *big.Int { return x.Mod(x, c.N) }
	if sm2 { // R = s G + t Q, r = t - s, e = r - R.x
		r := mod(new(big.Int).Sub(u2, u1))
		if r.Sign() == 0 || u1.Sign() == 0 {
			return nil, nil
		}
		return B32(mod(new(big.Int).Sub(r, R.X))), append(B32(r), B32(u1)...)
	}
	r := mod(new(big.Int).Set(R.X))
	s := mod(new(big.Int).Mul(r, new(big.Int).ModInverse(u2, c.N)))
	if r.Sign() == 0 {
		return nil, nil
	}
	h := B32(mod(new(big.Int).Mul(u1, s)))
	if half := new(big.Int).Rsh(c.N, 1); s.Cmp(half) > 0 {
		s.Sub(c.N, s)
	}
	return h, append(B32(r), B32(s)...)
}
