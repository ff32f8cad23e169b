package props

import (
	"bytes"
	"encoding/json"
	"math/big"

	"verifsim/engine"
	"verifsim/ref"
)

var one = big.NewInt(1)

func curveOf(c int64) *ref.Curve {
	switch c {
	case cK1:
		return ref.K1
	case cR1:
		return ref.R1
	case cSM2:
		return ref.SM2
	case cPasta:
		return ref.Pallas
	}
	return nil
}

// orderOf is the group order of the scheme.
func orderOf(c int64) *big.Int {
	switch c {
	case cK1, cR1, cSM2, cPasta:
		return curveOf(c).N
	case cNul, cAug:
		return ref.BlsR
	}
	return ref.L25519
}

// scalar is the private scalar a key stands for; nil when the key is not valid.
func scalar(c int64, priv []byte) *big.Int {
	if len(priv) != 32 {
		return nil
	}
	switch c {
	case cK1, cR1, cPasta, cNul, cAug:
		d := new(big.Int).SetBytes(priv)
		if d.Sign() > 0 && d.Cmp(orderOf(c)) < 0 {
			return d
		}
	case cSM2:
		d := new(big.Int).SetBytes(priv)
		if d.Sign() > 0 && d.Cmp(new(big.Int).Sub(ref.SM2.N, one)) < 0 {
			return d
		}
	case cEdN:
		return ref.SeedScalar(priv)
	case cEd, cX:
		d := ref.LE(priv)
		if new(big.Int).Mod(d, ref.L25519).Sign() != 0 {
			return d
		}
	case cKCDSA:
		return ref.LE(ref.Clamp(priv))
	}
	return nil
}

type pubKey struct {
	c    int64
	priv string
}

var pubCache = map[pubKey][]byte{}

// refPub is the public key by the reference.
func refPub(c int64, priv []byte) []byte {
	k := pubKey{c, string(priv)}
	p, ok := pubCache[k]
	if !ok {
		if len(pubCache) > 1000 {
			pubCache = map[pubKey][]byte{}
		}
		p = refPubSlow(c, priv)
		pubCache[k] = p
	}
	return dup(p)
}

func refPubSlow(c int64, priv []byte) []byte {
	d := scalar(c, priv)
	if d == nil {
		return nil
	}
	switch c {
	case cK1, cR1, cSM2, cPasta:
		return curveOf(c).Base(d).Bytes()
	case cEdN:
		return ref.SeedPub(priv)
	case cEd:
		return ref.EdPub(d)
	case cX, cKCDSA:
		return ref.XPub(d)
	}
	return ref.BlsPub(d)
}

// party is a key pair in an episode.
type party struct {
	c         int64
	priv, pub []byte
	d         *big.Int
}

func newParty(c int64, priv []byte) *party {
	return &party{c, priv, refPub(c, priv), scalar(c, priv)}
}

// genKey draws a valid private key, with edge values.
func genKey(r *engine.Rand, c int64) []byte {
	n := orderOf(c)
	le := c == cEd || c == cX || c == cKCDSA || c == cEdN
	var d *big.Int
	switch r.Intn(14) {
	case 0, 12:
		if d = genShort(r, c); d != nil {
			break
		}
		d = big.NewInt(int64(1 + r.Intn(3)))
	case 1:
		d = new(big.Int).Sub(n, big.NewInt(int64(1+r.Intn(3))))
		if c == cSM2 && d.Cmp(new(big.Int).Sub(n, one)) == 0 {
			d.Sub(d, one)
		}
	case 2: // short
		d = new(big.Int).SetBytes(r.Bytes(1 + r.Intn(31)))
	case 3: // sparse or dense
		d = new(big.Int).Lsh(one, uint(r.Intn(n.BitLen()-1)))
		if r.Intn(2) == 0 {
			d.Sub(d, one)
		}
	default:
		if le { // any 32 bytes
			b := r.Bytes(32)
			if r.Intn(2) == 0 {
				b = ref.Clamp(b)
			}
			if scalar(c, b) != nil {
				return b
			}
		}
		d = new(big.Int).SetBytes(r.Bytes(40))
	}
	if c != cKCDSA || d.BitLen() < 255 {
		d.Mod(d, n)
	}
	if d.Sign() == 0 {
		d.SetInt64(5)
	}
	b := ref.B32(d)
	if le {
		b = ref.LE32(d)
	}
	if scalar(c, b) == nil {
		return append(make([]byte, 31), 7)
	}
	return b
}

func genMinaMsg(r *engine.Rand) []byte {
	f := func() [4]uint64 {
		switch r.Intn(8) {
		case 0:
			return [4]uint64{}
		case 1:
			return [4]uint64{uint64(r.Intn(5))}
		}
		return [4]uint64{r.U64(), r.U64(), r.U64(), r.U64() >> 2}
	}
	fs := func() [][4]uint64 {
		n := r.Intn(6)
		if r.Intn(25) == 0 {
			n = 6 + r.Intn(30)
		}
		x := make([][4]uint64, n)
		for i := range x {
			x[i] = f()
		}
		return x
	}
	b, _ := json.Marshal(map[string]interface{}{"transactionPrefix": fs(), "transactionSuffix": fs(), "spongeIV": [3][4]uint64{f(), f(), f()}})
	return b
}

// genMsg draws a message the scheme can sign.
func genMsg(r *engine.Rand, c int64) []byte {
	switch c {
	case cK1, cR1, cSM2:
		switch r.Intn(16) {
		case 0:
			return make([]byte, 32)
		case 5:
			return ref.B32(big.NewInt(int64(1 + r.Intn(3))))
		case 6:
			return ref.B32(new(big.Int).Lsh(one, uint(r.Intn(256))))
		case 1:
			return bytes.Repeat([]byte{0xff}, 32)
		case 2:
			return ref.B32(curveOf(c).N)
		case 3:
			return ref.B32(new(big.Int).Add(curveOf(c).N, big.NewInt(int64(r.Intn(5)-2))))
		case 4:
			return append(make([]byte, 24), r.Bytes(8)...)
		}
		return r.Bytes(32)
	case cPasta:
		return genMinaMsg(r)
	}
	switch r.Intn(10) {
	case 0:
		return r.Bytes(1 + r.Intn(3))
	case 1:
		return make([]byte, 1+r.Intn(70))
	case 2:
		if r.Intn(12) == 0 { // beyond 64 KiB as often as not
			return r.Bytes(3000 + r.Intn(130000))
		}
		return r.Bytes(engine.LogUniform(r, 3000) + 1)
	case 3:
		return r.Bytes(32)
	}
	return r.Bytes(1 + r.Intn(200))
}

func genID(r *engine.Rand, c int64) []byte {
	if c != cSM2 {
		if r.Intn(10) == 0 {
			return r.Bytes(r.Intn(20))
		}
		return nil
	}
	switch r.Intn(10) {
	case 0:
		return r.Bytes(1)
	case 1:
		return r.Bytes(1 + r.Intn(400))
	case 2:
		return r.Bytes(8188 + r.Intn(4)) // the length of the identity in bits fills its field
	case 6:
		return nil // sign the digest itself
	case 3, 4, 5:
		return []byte("1234567812345678")
	}
	return r.Bytes(1 + r.Intn(32))
}

// refVerify is the independent verdict.  known lists the key pairs of the
// episode (needed where the verdict is computed from the private key).
func refVerify(c int64, pub, id, msg, sig []byte, known []*party) bool {
	switch c {
	case cK1, cR1:
		return ref.ECDSAVerify(curveOf(c), pub, msg, sig)
	case cSM2:
		return ref.SM2Verify(pub, id, msg, sig)
	case cEdN, cEd:
		return ref.EdVerify(pub, msg, sig)
	case cX:
		return ref.XEdVerify(pub, msg, sig)
	case cKCDSA:
		ok, _ := ref.KCDSAVerify(pub, msg, sig)
		return ok
	case cPasta:
		return ref.MinaVerify(pub, msg, sig)
	}
	// BLS signatures are unique: the accepted one is computed from the key.
	// A key nobody in the episode knows the secret of cannot have been signed for.
	for _, p := range known {
		if p.c != cNul && p.c != cAug || p.d == nil {
			continue
		}
		if bytes.Equal(p.pub, pub) {
			return bytes.Equal(sig, ref.BlsSign(c == cAug, p.d, msg))
		}
		if bytes.Equal(ref.BlsNegG1(p.pub), pub) {
			return bytes.Equal(sig, ref.BlsSign(c == cAug, new(big.Int).Sub(ref.BlsR, p.d), msg))
		}
	}
	return false
}

// nonceOf recovers the nonce of a signature as a label that is equal for k and
// -k; nil when the scheme has no recoverable nonce.
func nonceOf(p *party, id, msg, sig []byte) *big.Int {
	if len(sig) != 64 {
		return nil
	}
	var k *big.Int
	switch p.c {
	case cK1, cR1:
		k = ref.ECDSANonce(curveOf(p.c), p.d, msg, sig)
	case cSM2:
		k = ref.SM2Nonce(p.d, sig)
	case cEdN, cEd:
		k = ref.EdNonce(p.d, msg, sig)
	case cX:
		k = ref.XNonce(p.d, msg, sig)
	case cPasta:
		k = ref.MinaNonce(p.d, msg, sig)
	case cKCDSA:
		_, Y := ref.KCDSAVerify(p.pub, msg, sig)
		if Y == nil {
			return nil
		}
		return new(big.Int).SetBytes(Y)
	}
	return k
}

// foldNonce identifies k with -k.
func foldNonce(c int64, k *big.Int) *big.Int {
	if c == cKCDSA {
		return k
	}
	n := orderOf(c)
	m := new(big.Int).Sub(n, k)
	if m.Cmp(k) < 0 {
		return m
	}
	return k
}

func usesEntropy(c int64) bool {
	switch c {
	case cK1, cR1, cSM2, cEd, cX, cPasta:
		return true
	}
	return false
}
