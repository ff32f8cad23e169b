package ref

import (
	"crypto/sha256"
	"math/big"
)

// BLS12-381, written from RFC 9380 / the BLS signature draft with plain big
// integers.

var (
	blsP = hx("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
	BlsR = hx("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
	// G1 as a curve over Fp (only Add/Mul/OnCurve are used)
	blsG1   = &Curve{P: blsP, A: big.NewInt(0), B: big.NewInt(4), N: BlsR}
	blsG1G  = &Point{X: hx("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"), Y: hx("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1")}
	blsHEff = hx("bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551")
	blsHalf = new(big.Int).Rsh(blsP, 1)
)

type fp2 struct{ a, b *big.Int } // a + b·u, u² = -1

func f2(a, b *big.Int) fp2 { return fp2{new(big.Int).Mod(a, blsP), new(big.Int).Mod(b, blsP)} }
func f2i(a, b int64) fp2   { return f2(big.NewInt(a), big.NewInt(b)) }
func f2h(a, b string) fp2  { return f2(hx(a), hx(b)) }
func (x fp2) add(y fp2) fp2 {
	return f2(new(big.Int).Add(x.a, y.a), new(big.Int).Add(x.b, y.b))
}
func (x fp2) sub(y fp2) fp2 {
	return f2(new(big.Int).Sub(x.a, y.a), new(big.Int).Sub(x.b, y.b))
}
func (x fp2) neg() fp2 { return f2(new(big.Int).Neg(x.a), new(big.Int).Neg(x.b)) }
func (x fp2) mul(y fp2) fp2 {
	ac := new(big.Int).Mul(x.a, y.a)
	bd := new(big.Int).Mul(x.b, y.b)
	s := new(big.Int).Mul(new(big.Int).Add(x.a, x.b), new(big.Int).Add(y.a, y.b))
	s.Sub(s, ac)
	s.Sub(s, bd)
	return f2(ac.Sub(ac, bd), s)
}
func (x fp2) sq() fp2       { return x.mul(x) }
func (x fp2) zero() bool    { return x.a.Sign() == 0 && x.b.Sign() == 0 }
func (x fp2) eq(y fp2) bool { return x.a.Cmp(y.a) == 0 && x.b.Cmp(y.b) == 0 }
func (x fp2) inv() fp2 {
	n := new(big.Int).Add(new(big.Int).Mul(x.a, x.a), new(big.Int).Mul(x.b, x.b))
	n.Mod(n, blsP)
	n.ModInverse(n, blsP)
	return f2(new(big.Int).Mul(x.a, n), new(big.Int).Neg(new(big.Int).Mul(x.b, n)))
}
func (x fp2) scale(k int64) fp2 { return x.mul(f2i(k, 0)) }

// square: is x a square in Fp2 (norm is a square in Fp)
func (x fp2) square() bool {
	n := new(big.Int).Add(new(big.Int).Mul(x.a, x.a), new(big.Int).Mul(x.b, x.b))
	n.Mod(n, blsP)
	return big.Jacobi(n, blsP) >= 0
}

// sqrt via the complex method; ok is false for non-squares.
func (x fp2) sqrt() (fp2, bool) {
	if x.zero() {
		return x, true
	}
	if x.b.Sign() == 0 {
		if r := new(big.Int).ModSqrt(x.a, blsP); r != nil {
			return f2(r, new(big.Int)), true
		}
		r := new(big.Int).ModSqrt(new(big.Int).Mod(new(big.Int).Neg(x.a), blsP), blsP)
		return f2(new(big.Int), r), true
	}
	n := new(big.Int).Add(new(big.Int).Mul(x.a, x.a), new(big.Int).Mul(x.b, x.b))
	n.Mod(n, blsP)
	d := new(big.Int).ModSqrt(n, blsP)
	if d == nil {
		return fp2{}, false
	}
	two := new(big.Int).ModInverse(big.NewInt(2), blsP)
	for i := 0; i < 2; i++ {
		t := new(big.Int).Add(x.a, d)
		t.Mul(t, two)
		t.Mod(t, blsP)
		if r := new(big.Int).ModSqrt(t, blsP); r != nil && r.Sign() != 0 {
			b := new(big.Int).Mul(x.b, new(big.Int).ModInverse(new(big.Int).Lsh(r, 1), blsP))
			c := f2(r, b)
			if c.sq().eq(x) {
				return c, true
			}
		}
		d.Sub(blsP, d)
	}
	return fp2{}, false
}

func (x fp2) sgn0() uint {
	s0 := x.a.Bit(0)
	if x.a.Sign() == 0 {
		return x.b.Bit(0)
	}
	return s0
}

// G2 is an affine point on y² = x³ + 4(1+u); nil is infinity.
type G2 struct{ x, y fp2 }

var blsB2 = f2i(4, 4)

type j2 struct{ x, y, z fp2 }

func (p j2) dbl() j2 {
	if p.z.zero() {
		return p
	}
	A, B := p.x.sq(), p.y.sq()
	C := B.sq()
	D := p.x.add(B).sq().sub(A).sub(C).scale(2)
	E := A.scale(3)
	F := E.sq()
	x3 := F.sub(D.scale(2))
	return j2{x3, E.mul(D.sub(x3)).sub(C.scale(8)), p.y.mul(p.z).scale(2)}
}
func (p j2) add(q j2) j2 {
	if p.z.zero() {
		return q
	}
	if q.z.zero() {
		return p
	}
	z1, z2 := p.z.sq(), q.z.sq()
	u1, u2 := p.x.mul(z2), q.x.mul(z1)
	s1, s2 := p.y.mul(q.z).mul(z2), q.y.mul(p.z).mul(z1)
	h, r := u2.sub(u1), s2.sub(s1)
	if h.zero() {
		if r.zero() {
			return p.dbl()
		}
		return j2{f2i(1, 0), f2i(1, 0), f2i(0, 0)}
	}
	hh := h.sq()
	hhh := hh.mul(h)
	v := u1.mul(hh)
	x3 := r.sq().sub(hhh).sub(v.scale(2))
	return j2{x3, r.mul(v.sub(x3)).sub(s1.mul(hhh)), p.z.mul(q.z).mul(h)}
}
func (p *G2) j() j2 {
	if p == nil {
		return j2{f2i(1, 0), f2i(1, 0), f2i(0, 0)}
	}
	return j2{p.x, p.y, f2i(1, 0)}
}
func (p j2) aff() *G2 {
	if p.z.zero() {
		return nil
	}
	zi := p.z.inv()
	zi2 := zi.sq()
	return &G2{p.x.mul(zi2), p.y.mul(zi2).mul(zi)}
}

func (p *G2) Add(q *G2) *G2 { return p.j().add(q.j()).aff() }
func (p *G2) Neg() *G2 {
	if p == nil {
		return nil
	}
	return &G2{p.x, p.y.neg()}
}
func (p *G2) Mul(k *big.Int) *G2 {
	r := (*G2)(nil).j()
	b := p.j()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.dbl()
		if k.Bit(i) == 1 {
			r = r.add(b)
		}
	}
	return r.aff()
}
func (p *G2) OnCurve() bool { return p == nil || p.y.sq().eq(p.x.sq().mul(p.x).add(blsB2)) }

func b48(x *big.Int) []byte { return x.FillBytes(make([]byte, 48)) }

// Bytes is the 96-byte compressed form.
func (p *G2) Bytes() []byte {
	if p == nil {
		b := make([]byte, 96)
		b[0] = 0xc0
		return b
	}
	b := append(b48(p.x.b), b48(p.x.a)...)
	b[0] |= 0x80
	big := p.y.b.Cmp(blsHalf) > 0
	if p.y.b.Sign() == 0 {
		big = p.y.a.Cmp(blsHalf) > 0
	}
	if big {
		b[0] |= 0x20
	}
	return b
}

// G2Parse decodes a compressed point strictly; sub asks for the subgroup check.
func G2Parse(b []byte, sub bool) (*G2, bool) {
	if len(b) != 96 || b[0]&0x80 == 0 {
		return nil, false
	}
	if b[0]&0x40 != 0 {
		z := make([]byte, 96)
		z[0] = 0xc0
		return nil, string(z) == string(b)
	}
	c := append([]byte{}, b...)
	c[0] &= 0x1f
	x1, x0 := new(big.Int).SetBytes(c[:48]), new(big.Int).SetBytes(c[48:])
	if x0.Cmp(blsP) >= 0 || x1.Cmp(blsP) >= 0 {
		return nil, false
	}
	x := f2(x0, x1)
	y, ok := x.sq().mul(x).add(blsB2).sqrt()
	if !ok {
		return nil, false
	}
	p := &G2{x, y}
	if (p.Bytes()[0]^b[0])&0x20 != 0 {
		p = p.Neg()
	}
	if sub && p.Mul(BlsR) != nil {
		return nil, false
	}
	return p, true
}

func expandXMD(msg, dst []byte, n int) []byte {
	dp := append(append([]byte{}, dst...), byte(len(dst)))
	sum := func(p ...[]byte) []byte {
		h := sha256.New()
		for _, x := range p {
			h.Write(x)
		}
		return h.Sum(nil)
	}
	b0 := sum(make([]byte, 64), msg, []byte{byte(n >> 8), byte(n), 0}, dp)
	b := sum(b0, []byte{1}, dp)
	out := append([]byte{}, b...)
	for i := 2; len(out) < n; i++ {
		t := make([]byte, 32)
		for j := range t {
			t[j] = b0[j] ^ b[j]
		}
		b = sum(t, []byte{byte(i)}, dp)
		out = append(out, b...)
	}
	return out[:n]
}

var (
	swuA = f2i(0, 240)
	swuB = f2i(1012, 1012)
	swuZ = f2i(-2, -1)
)

func sswu(u fp2) (x, y fp2) {
	tv := swuZ.mul(u.sq())
	tv1 := tv.sq().add(tv)
	var x1 fp2
	if tv1.zero() {
		x1 = swuB.mul(swuZ.mul(swuA).inv())
	} else {
		x1 = swuB.neg().mul(swuA.inv()).mul(f2i(1, 0).add(tv1.inv()))
	}
	g := func(x fp2) fp2 { return x.sq().mul(x).add(swuA.mul(x)).add(swuB) }
	if gx := g(x1); gx.square() {
		x = x1
		y, _ = gx.sqrt()
	} else {
		x = tv.mul(x1)
		y, _ = g(x).sqrt()
	}
	if u.sgn0() != y.sgn0() {
		y = y.neg()
	}
	return
}

var isoX, isoXD, isoY, isoYD []fp2

func init() {
	z := "0"
	isoX = []fp2{
		f2h("5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97d6", "5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97d6"),
		f2h(z, "11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71a"),
		f2h("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71e", "8ab05f8bdd54cde190937e76bc3e447cc27c3d6fbd7063fcd104635a790520c0a395554e5c6aaaa9354ffffffffe38d"),
		f2h("171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1", z),
	}
	isoXD = []fp2{
		f2h(z, "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaa63"),
		f2h("c", "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaa9f"),
		f2i(1, 0),
	}
	isoY = []fp2{
		f2h("1530477c7ab4113b59a4c18b076d11930f7da5d4a07f649bf54439d87d27e500fc8c25ebf8c92f6812cfc71c71c6d706", "1530477c7ab4113b59a4c18b076d11930f7da5d4a07f649bf54439d87d27e500fc8c25ebf8c92f6812cfc71c71c6d706"),
		f2h(z, "5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97be"),
		f2h("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71c", "8ab05f8bdd54cde190937e76bc3e447cc27c3d6fbd7063fcd104635a790520c0a395554e5c6aaaa9354ffffffffe38f"),
		f2h("124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10", z),
	}
	isoYD = []fp2{
		f2h("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffa8fb", "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffa8fb"),
		f2h(z, "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffa9d3"),
		f2h("12", "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaa99"),
		f2i(1, 0),
	}
}

func poly(c []fp2, x fp2) fp2 {
	r := c[len(c)-1]
	for i := len(c) - 2; i >= 0; i-- {
		r = r.mul(x).add(c[i])
	}
	return r
}

func iso(x, y fp2) *G2 {
	return &G2{poly(isoX, x).mul(poly(isoXD, x).inv()), y.mul(poly(isoY, x)).mul(poly(isoYD, x).inv())}
}

// HashToG2 is the RFC 9380 suite BLS12381G2_XMD:SHA-256_SSWU_RO_.
func HashToG2(msg, dst []byte) *G2 {
	b := expandXMD(msg, dst, 256)
	f := func(i int) *big.Int { return new(big.Int).SetBytes(b[64*i : 64*i+64]) }
	p := iso(sswu(f2(f(0), f(1))))
	q := iso(sswu(f2(f(2), f(3))))
	return p.Add(q).Mul(blsHEff)
}

const (
	DSTNul = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_"
	DSTAug = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_AUG_"
)

func g1Bytes(p *Point) []byte {
	if p.Inf {
		b := make([]byte, 48)
		b[0] = 0xc0
		return b
	}
	b := b48(p.X)
	b[0] |= 0x80
	if p.Y.Cmp(blsHalf) > 0 {
		b[0] |= 0x20
	}
	return b
}

// G1Parse strictly decodes a compressed G1 point.
func G1Parse(b []byte, sub bool) (*Point, bool) {
	if len(b) != 48 || b[0]&0x80 == 0 {
		return nil, false
	}
	if b[0]&0x40 != 0 {
		z := make([]byte, 48)
		z[0] = 0xc0
		return &Point{Inf: true}, string(z) == string(b)
	}
	c := append([]byte{}, b...)
	c[0] &= 0x1f
	x := new(big.Int).SetBytes(c)
	if x.Cmp(blsP) >= 0 {
		return nil, false
	}
	y := new(big.Int).ModSqrt(blsG1.rhs(x), blsP)
	if y == nil {
		return nil, false
	}
	p := &Point{X: x, Y: y}
	if (g1Bytes(p)[0]^b[0])&0x20 != 0 {
		p = blsG1.Neg(p)
	}
	if sub && !blsG1.MulRaw(p, BlsR).Inf {
		return nil, false
	}
	return p, true
}

// BlsPub is the compressed public key sk·G1.
func BlsPub(sk *big.Int) []byte { return g1Bytes(blsG1.MulRaw(blsG1G, sk)) }

// BlsAddG1 adds two compressed points (sub-group membership not required).
func BlsAddG1(a, b []byte) ([]byte, bool) {
	p, ok := G1Parse(a, false)
	if !ok {
		return nil, false
	}
	q, ok := G1Parse(b, false)
	if !ok {
		return nil, false
	}
	return g1Bytes(blsG1.Add(p, q)), true
}

// BlsNegG1 negates a compressed point.
func BlsNegG1(a []byte) []byte {
	b := append([]byte{}, a...)
	b[0] ^= 0x20
	return b
}

// BlsHash is the message point of either scheme.
func BlsHash(aug bool, pub, msg []byte) *G2 {
	if aug {
		return HashToG2(append(append([]byte{}, pub...), msg...), []byte(DSTAug))
	}
	return HashToG2(msg, []byte(DSTNul))
}

// BlsSign is the unique signature.
func BlsSign(aug bool, sk *big.Int, msg []byte) []byte {
	var pub []byte
	if aug {
		pub = BlsPub(sk)
	}
	return BlsHash(aug, pub, msg).Mul(sk).Bytes()
}

// BlsP is the field prime.
func BlsP() *big.Int { return new(big.Int).Set(blsP) }

// BlsMulG1 multiplies a compressed point.
func BlsMulG1(a []byte, k *big.Int) ([]byte, bool) {
	p, ok := G1Parse(a, false)
	if !ok {
		return nil, false
	}
	if p.Inf {
		return g1Bytes(p), true
	}
	return g1Bytes(blsG1.MulRaw(p, k)), true
}

// G2Gen is the standard generator of G2.
func G2Gen() *G2 {
	return &G2{f2(hx("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"), hx("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")),
		f2(hx("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"), hx("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be"))}
}

// ---- G1 and G2 as groups, for the engines ----

// BlsG1 is G1's curve (cofactor points included) and its generator.
func BlsG1() (*Curve, *Point) { return blsG1, blsG1G }

var blsHEff1 = hx("d201000000010001")

// Effective cofactors (clearing) and the cofactor of G1.
func BlsClear(g int) *big.Int {
	if g == 1 {
		return blsHEff1
	}
	return blsHEff
}

func BlsCofactor1() *big.Int { return hx("396c8c005555e1568c00aaab0000aaab") }

var (
	g1A = hx("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d")
	g1B = hx("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0")
	g1C [4][]*big.Int
)

func init() {
	for i, r := range g1Iso {
		for _, c := range r {
			g1C[i] = append(g1C[i], hx(c))
		}
	}
}

func p1(k int, v ...*big.Int) *big.Int { // product or sum mod p
	r := big.NewInt(int64(k))
	for _, x := range v {
		if k == 0 {
			r.Add(r, x)
		} else {
			r.Mul(r, x)
		}
		r.Mod(r, blsP)
	}
	return r
}

// MapToG1 maps a field element to the curve (cofactor not cleared).
func MapToG1(u *big.Int) *Point {
	inv := func(x *big.Int) *big.Int { return new(big.Int).ModInverse(x, blsP) }
	z := big.NewInt(11)
	tv := p1(1, z, u, u)
	t1 := p1(0, p1(1, tv, tv), tv)
	var x1 *big.Int
	if t1.Sign() == 0 {
		x1 = p1(1, g1B, inv(p1(1, z, g1A)))
	} else {
		x1 = p1(1, new(big.Int).Sub(blsP, g1B), inv(g1A), p1(0, big.NewInt(1), inv(t1)))
	}
	g := func(x *big.Int) *big.Int { return p1(0, p1(1, x, x, x), p1(1, g1A, x), g1B) }
	x := x1
	y := new(big.Int).ModSqrt(g(x1), blsP)
	if y == nil {
		x = p1(1, tv, x1)
		y = new(big.Int).ModSqrt(g(x), blsP)
	}
	if y.Bit(0) != u.Bit(0) {
		y = p1(0, new(big.Int).Neg(y))
	}
	ev := func(c []*big.Int) *big.Int {
		r := new(big.Int)
		for i := len(c) - 1; i >= 0; i-- {
			r = p1(0, p1(1, r, x), c[i])
		}
		return r
	}
	xd, yd := ev(g1C[1]), ev(g1C[3])
	if xd.Sign() == 0 || yd.Sign() == 0 {
		return &Point{Inf: true}
	}
	return &Point{X: p1(1, ev(g1C[0]), inv(xd)), Y: p1(1, y, ev(g1C[2]), inv(yd))}
}

func hashFields(msg, dst []byte, n int) (u []*big.Int) {
	b := expandXMD(msg, dst, 64*n)
	for i := 0; i < n; i++ {
		x := new(big.Int).SetBytes(b[64*i : 64*i+64])
		u = append(u, x.Mod(x, blsP))
	}
	return
}

// HashToG1 is the RFC 9380 suite BLS12381G1_XMD:SHA-256_SSWU_RO_ (or NU).
func HashToG1(msg, dst []byte, uniform bool) *Point {
	if !uniform {
		return blsG1.MulRaw(MapToG1(hashFields(msg, dst, 1)[0]), blsHEff1)
	}
	u := hashFields(msg, dst, 2)
	return blsG1.MulRaw(blsG1.Add(MapToG1(u[0]), MapToG1(u[1])), blsHEff1)
}

// EncodeToG2 is the suite BLS12381G2_XMD:SHA-256_SSWU_NU_.
func EncodeToG2(msg, dst []byte) *G2 {
	u := hashFields(msg, dst, 2)
	return iso(sswu(f2(u[0], u[1]))).Mul(blsHEff)
}

// Encodings: 0 compressed, 1 uncompressed with flags, 2 plain coordinates.
func G1Encode(p *Point, form int) []byte {
	if form == 0 {
		return g1Bytes(p)
	}
	b := make([]byte, 96)
	if p.Inf {
		if form == 1 {
			b[0] = 0x40
		}
		return b
	}
	p.X.FillBytes(b[:48])
	p.Y.FillBytes(b[48:])
	return b
}

func G2Encode(p *G2, form int) []byte {
	if form == 0 {
		return p.Bytes()
	}
	b := make([]byte, 192)
	if p == nil {
		if form == 1 {
			b[0] = 0x40
		}
		return b
	}
	for i, x := range []*big.Int{p.x.b, p.x.a, p.y.b, p.y.a} {
		x.FillBytes(b[48*i : 48*i+48])
	}
	return b
}

func coords(b []byte, form int) (c []*big.Int, inf, ok bool) {
	z := true
	for i, x := range b {
		if !(x == 0 || i == 0 && form == 1 && x == 0x40) {
			z = false
		}
	}
	if z && (form == 2 || b[0] == 0x40) {
		return nil, true, true
	}
	if form == 1 && b[0]&0xe0 != 0 {
		return nil, false, false
	}
	for ; len(b) > 0; b = b[48:] {
		x := new(big.Int).SetBytes(b[:48])
		if x.Cmp(blsP) >= 0 {
			return nil, false, false
		}
		c = append(c, x)
	}
	return c, false, true
}

// G1Decode and G2Decode decode strictly; sub asks for the subgroup check.
func G1Decode(b []byte, form int, sub bool) (*Point, bool) {
	if form == 0 {
		return G1Parse(b, sub)
	}
	if len(b) != 96 {
		return nil, false
	}
	c, inf, ok := coords(b, form)
	if inf || !ok {
		return &Point{Inf: true}, ok
	}
	p := &Point{X: c[0], Y: c[1]}
	if !blsG1.OnCurve(p) || sub && !blsG1.MulRaw(p, BlsR).Inf {
		return nil, false
	}
	return p, true
}

func G2Decode(b []byte, form int, sub bool) (*G2, bool) {
	if form == 0 {
		return G2Parse(b, sub)
	}
	if len(b) != 192 {
		return nil, false
	}
	c, inf, ok := coords(b, form)
	if inf || !ok {
		return nil, ok
	}
	p := &G2{f2(c[1], c[0]), f2(c[3], c[2])}
	if !p.OnCurve() || sub && p.Mul(BlsR) != nil {
		return nil, false
	}
	return p, true
}
