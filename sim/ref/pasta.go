package ref

import (
	"encoding/json"
	"math/big"
)

// Mina (Pasta/Poseidon) Schnorr, with plain big integers.  The Poseidon round
// constants and the MDS matrix are a copy of the library's (published data);
// everything else is independent.

var pastaRInv = new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), 256), Pallas.P)

func limbs(l [4]uint64) *big.Int {
	r := new(big.Int)
	for i := 3; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(l[i]))
	}
	return r
}

func fromMont(l [4]uint64) *big.Int {
	r := limbs(l)
	r.Mul(r, pastaRInv)
	return r.Mod(r, Pallas.P)
}

var posKeys, posMds = posTable(posKeysMont), posTable(posMdsMont)

func posTable(t [][3][4]uint64) (k [][]*big.Int) {
	for _, r := range t {
		var row []*big.Int
		for _, f := range r {
			row = append(row, fromMont(f))
		}
		k = append(k, row)
	}
	return
}

// Poseidon is the sponge: rate 2, width 3.
type Poseidon struct {
	S [3]*big.Int
	N int
}

func NewPoseidon(iv ...*big.Int) *Poseidon {
	s := &Poseidon{}
	for i := range s.S {
		s.S[i] = new(big.Int)
		if len(iv) == 3 {
			s.S[i].Set(iv[i])
		}
	}
	return s
}

func (s *Poseidon) Clone() *Poseidon {
	c := NewPoseidon(s.S[:]...)
	c.N = s.N
	return c
}

func (s *Poseidon) Absorb(x *big.Int) {
	if s.N == 2 {
		posPermute(s.S[:])
		s.N = 0
	}
	s.S[s.N] = new(big.Int).Add(s.S[s.N], x)
	s.S[s.N].Mod(s.S[s.N], Pallas.P)
	s.N++
}

// Digest leaves the sponge as it is.
func (s *Poseidon) Digest() *big.Int {
	c := s.Clone()
	posPermute(c.S[:])
	return c.S[0]
}

func posPermute(s []*big.Int) {
	p := Pallas.P
	for r := 0; r < 63; r++ {
		for i := range s {
			t := new(big.Int).Add(s[i], posKeys[r][i])
			t.Mod(t, p)
			q := new(big.Int).Mul(t, t)
			q.Mod(q, p)
			q.Mul(q, q)
			q.Mod(q, p)
			q.Mul(q, t)
			s[i] = q.Mod(q, p)
		}
		n := make([]*big.Int, 3)
		for i := range n {
			n[i] = new(big.Int)
			for j := range s {
				n[i].Add(n[i], new(big.Int).Mul(s[j], posMds[i][j]))
			}
			n[i].Mod(n[i], p)
		}
		copy(s, n)
	}
	for i := range s {
		s[i] = new(big.Int).Add(s[i], posKeys[63][i])
		s[i].Mod(s[i], p)
	}
}

type minaMsg struct {
	P  [][4]uint64  `json:"transactionPrefix"`
	S  [][4]uint64  `json:"transactionSuffix"`
	IV [3][4]uint64 `json:"spongeIV"`
}

// MinaParse decodes the JSON message; ok is false if it is not a message or
// holds something that is not a field element.
func MinaParse(b []byte) (m minaMsg, ok bool) {
	if json.Unmarshal(b, &m) != nil {
		return m, false
	}
	chk := func(f [4]uint64) bool { return limbs(f).Cmp(Pallas.P) < 0 }
	for _, f := range m.P {
		if !chk(f) {
			return m, false
		}
	}
	for _, f := range m.S {
		if !chk(f) {
			return m, false
		}
	}
	for _, f := range m.IV {
		if !chk(f) {
			return m, false
		}
	}
	return m, true
}

func minaHash(m minaMsg, pub *Point, r *big.Int) *big.Int {
	s := NewPoseidon(fromMont(m.IV[0]), fromMont(m.IV[1]), fromMont(m.IV[2]))
	for _, f := range m.P {
		s.Absorb(fromMont(f))
	}
	for _, x := range []*big.Int{pub.X, pub.Y, r} {
		s.Absorb(x)
	}
	for _, f := range m.S {
		s.Absorb(fromMont(f))
	}
	return s.Digest()
}

// MinaHash is the hash of a parsed message, a public key and a field element.
func MinaHash(m minaMsg, pub *Point, r *big.Int) *big.Int { return minaHash(m, pub, r) }

// FromMont and ToMont convert field elements (prime p) from and to Montgomery limbs.
func FromMont(l [4]uint64, p *big.Int) *big.Int {
	r := limbs(l)
	r.Mul(r, new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), 256), p))
	return r.Mod(r, p)
}

// Limbs is the number that four little-endian words hold.
func Limbs(l [4]uint64) *big.Int { return limbs(l) }

// MinaPoint decodes any of the accepted public key forms: X||Y, 04||X||Y,
// 02/03||X; it must be a finite point with canonical coordinates.
func MinaPoint(b []byte) *Point {
	switch len(b) {
	case 33:
		return Pallas.Decompress(b)
	case 65:
		if b[0] != 4 {
			return nil
		}
		b = b[1:]
	case 64:
	default:
		return nil
	}
	return Pallas.Parse64(b)
}

// MinaVerify is the scheme's verifier.
func MinaVerify(pub, msg, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	p := MinaPoint(pub)
	if p == nil {
		return false
	}
	m, ok := MinaParse(msg)
	if !ok {
		return false
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if r.Cmp(Pallas.P) >= 0 || s.Cmp(Pallas.N) >= 0 {
		return false
	}
	e := minaHash(m, p, r)
	R := Pallas.Mul2(s, p, new(big.Int).Sub(Pallas.N, new(big.Int).Mod(e, Pallas.N)))
	return !R.Inf && R.Y.Bit(0) == 0 && R.X.Cmp(r) == 0
}

// MinaSign signs with the given nonce.
func MinaSign(d *big.Int, msg []byte, k *big.Int) []byte { return minaSign(d, msg, k, 0) }

// MinaSignOdd makes what the scheme must refuse: the nonce point has odd y.
func MinaSignOdd(d *big.Int, msg []byte, k *big.Int) []byte { return minaSign(d, msg, k, 1) }

func minaSign(d *big.Int, msg []byte, k *big.Int, par uint) []byte {
	m, ok := MinaParse(msg)
	if !ok {
		return nil
	}
	pub := Pallas.Base(d)
	R := Pallas.Base(k)
	kk := new(big.Int).Set(k)
	if R.Y.Bit(0) != par {
		kk.Sub(Pallas.N, kk)
	}
	e := minaHash(m, pub, R.X)
	s := new(big.Int).Mul(e, d)
	s.Add(s, kk)
	s.Mod(s, Pallas.N)
	return append(B32(R.X), B32(s)...)
}

// MinaNonce recovers the nonce (up to sign) from a signature.
func MinaNonce(d *big.Int, msg, sig []byte) *big.Int {
	m, ok := MinaParse(msg)
	if !ok || len(sig) != 64 {
		return nil
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	e := minaHash(m, Pallas.Base(d), r)
	k := new(big.Int).Sub(s, new(big.Int).Mul(e, d))
	return k.Mod(k, Pallas.N)
}
