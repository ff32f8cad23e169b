package props

import (
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"verifsim/engine"
	"verifsim/ref"
)

// Well-formed calls of every service, built by the reference implementations
// alone, so that what a call is made of never depends on the code under test.

var hashAlgs = func() (a []int64) {
	for i := int64(0); i <= 0x12; i++ {
		a = append(a, int64(oc.HASH_ALG_SHA1)+i)
	}
	return
}()

var (
	weCurves   = []int64{cK1, cR1, cSM2}
	pointCurve = []int64{cK1, cR1, cSM2, cEd, cNul, cPasta} // Point_add has no BLS
	allCurves  = []int64{cK1, cR1, cSM2, cEdN, cEd, cX, cKCDSA, cNul, cAug, cPasta}
)

// callKinds are the services a caller episode draws from, with how often.
var callKinds = func() (k []string) {
	add := func(n int, s ...string) {
		for ; n > 0; n-- {
			k = append(k, s...)
		}
	}
	add(4, "Signature", "Verify", "GenPubkey")
	add(2, "Encryption", "Decryption", "RecoverPubkey", "Point_mulBaseG_add", "Point_add", "Point_mul", "PointCompress", "PointDecompress",
		"KeyAgreement_initiator_step2", "KeyAgreement_responder_step1", "AggregateSignatures", "Hash")
	add(1, "KeyAgreement_initiator_step1", "KeyAgreement_responder_ElGamal_step1", "KeyAgreement_responder_step2", "Point_mulBaseG", "GetCurveOrder",
		"CURVE25519_convert_X_to_Ed", "CURVE25519_convert_Ed_to_X", "Hmac", "MulBaseG_Add", "Add", "Mul", "Sm3Sum", "Sha3Sum", "Stream", "ShakeSum",
		"pasta.PointDecompress", "pasta.PointAdd", "pasta.PointMul", "pasta.Sign", "pasta.Verify", "pasta.GenPublicKey", "pasta.PointMulBaseGAdd", "pasta.NewMinaMessage", "pasta.Negate",
		"bls12_381.Sign", "bls12_381.Verify", "bls12_381.AggregateSignatures", "bls12_381.GenPublicKey", "bls12_381.ScalarMultBaseAdd", "bls12_381.G1", "bls12_381.G2",
		"eddsa.sign", "eddsa.verify", "eddsa.genPub", "eddsa.IsPoint", "eddsa.convert")
	return
}()

func pick64(r *engine.Rand, xs []int64) int64 { return xs[r.Intn(len(xs))] }

// genScalar is a nonce or multiplier below the order.
func genScalar(r *engine.Rand, c int64) *big.Int {
	n := orderOf(c)
	d := new(big.Int).SetBytes(r.Bytes(40))
	if r.Intn(8) == 0 {
		if k := genShort(r, c); k != nil {
			d = k
		}
	} else if r.Intn(5) == 0 {
		d.SetInt64(int64(1 + r.Intn(3)))
	}
	if d.Mod(d, n).Sign() == 0 {
		d.SetInt64(7)
	}
	return d
}

func encScalar(c int64, d *big.Int) []byte {
	switch c {
	case cEdN, cEd, cX, cKCDSA:
		return ref.LE32(d)
	}
	return ref.B32(d)
}

// refSign signs by the reference.  v is the recovery flag where there is one.
func refSign(r *engine.Rand, p *party, id, msg []byte) (sig []byte, v byte) {
	for try := 0; try < 4 && sig == nil; try++ {
		k := genScalar(r, p.c)
		if try > 0 {
			k = new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(40)), orderOf(p.c))
		}
		switch p.c {
		case cK1, cR1:
			sig, v = ref.ECDSASign(curveOf(p.c), p.d, msg, k)
		case cSM2:
			sig = ref.SM2Sign(p.d, p.pub, id, msg, k)
			v = byte(ref.SM2.Base(k).Y.Bit(0))
		case cEdN:
			sig = ref.SeedSign(p.priv, msg)
		case cEd:
			sig = ref.EdSign(p.d, msg, k)
		case cX:
			sig = ref.XEdSign(p.d, msg, k)
		case cKCDSA:
			sig = ref.KCDSASign(p.priv, msg, k)
		case cPasta:
			sig = ref.MinaSign(p.d, msg, k)
		default:
			sig = ref.BlsSign(p.c == cAug, p.d, msg)
		}
	}
	if sig == nil {
		sig = make([]byte, 64)
	}
	return
}

// genPoint is a point of the group in the encoding the point services use.
func genPoint(r *engine.Rand, c int64) []byte { return pointOf(c, genScalar(r, c)) }

func pointOf(c int64, k *big.Int) []byte {
	switch c {
	case cEdN, cEd:
		return ref.EdPub(k)
	case cX, cKCDSA:
		return ref.XPub(k)
	case cNul, cAug:
		return ref.BlsPub(k)
	}
	return curveOf(c).Base(k).Bytes()
}

func compressed(c int64, pt []byte) []byte {
	if cv := curveOf(c); cv != nil && len(pt) == 64 {
		return cv.Parse64(pt).Compress()
	}
	return pt
}

// genCall is one well-formed call.
func genCall(r *engine.Rand, name string) engine.Op {
	return genCallOn(r, name, -1)
}

// genCallOn is genCall on a given curve (-1: any the service knows).
func genCallOn(r *engine.Rand, name string, on int64) engine.Op {
	o := engine.Op{N: name}
	cur := func(xs []int64) int64 {
		for _, x := range xs {
			if x == on {
				return on
			}
		}
		return pick64(r, xs)
	}
	set := func(c int64, b ...[]byte) {
		o.I = append(o.I, c)
		o.B = h3(b...)
	}
	signed := func(c int64) (p *party, id, msg, sig []byte, v byte) {
		p = newParty(c, genKey(r, c))
		id, msg = genID(r, c), genMsg(r, c)
		sig, v = refSign(r, p, id, msg)
		return
	}
	ka := func() (ida, idb []byte, a, b *party, ra, rb *big.Int, RA, RB []byte, n int) {
		for len(ida) == 0 || len(idb) == 0 {
			ida, idb = genID(r, cSM2), genID(r, cSM2)
		}
		a, b = newParty(cSM2, genKey(r, cSM2)), newParty(cSM2, genKey(r, cSM2))
		ra, rb = genScalar(r, cSM2), genScalar(r, cSM2)
		return ida, idb, a, b, ra, rb, ref.SM2.Base(ra).Bytes(), ref.SM2.Base(rb).Bytes(), 1 + r.Intn(engine.PickInt(r, 33, 33, 200))
	}
	data := func(max int) []byte { return r.Bytes(engine.LogUniform(r, max)) }
	switch name {
	case "GenPubkey", "Point_mulBaseG":
		c := cur(allCurves)
		set(c, genKey(r, c))
	case "Signature":
		c := cur(allCurves)
		set(c, genKey(r, c), genID(r, c), genMsg(r, c))
	case "Verify":
		c := cur(allCurves)
		p, id, msg, sig, _ := signed(c)
		set(c, p.pub, id, msg, sig)
	case "RecoverPubkey":
		c := cur(weCurves)
		var sig, msg []byte
		var v byte
		for {
			p := newParty(c, genKey(r, c))
			msg = genMsg(r, c)
			if r.Intn(3) == 0 { // the digest becomes a scalar: one, two, minus one
				msg = ref.B32(big.NewInt(int64(1 + r.Intn(2))))
				if r.Intn(4) == 0 {
					msg = ref.B32(new(big.Int).Sub(orderOf(c), one))
				}
			}
			if sig, v = refSign(r, p, nil, msg); v < 2 {
				break
			}
		}
		set(c, append(sig, v), msg)
	case "AggregateSignatures", "bls12_381.AggregateSignatures":
		c := cur([]int64{cNul, cAug})
		var sigs [][]byte
		msg := genMsg(r, c)
		for n := 1 + r.Intn(3); n > 0; n-- {
			s, _ := refSign(r, newParty(c, genKey(r, c)), nil, msg)
			sigs = append(sigs, s)
		}
		set(c, sigs...)
	case "Encryption":
		set(cSM2, newParty(cSM2, genKey(r, cSM2)).pub, append(data(300), 1))
	case "Decryption":
		p := newParty(cSM2, genKey(r, cSM2))
		set(cSM2, p.priv, ref.SM2Encrypt(p.pub, append(data(300), 1, 2, 3), genScalar(r, cSM2)))
	case "KeyAgreement_initiator_step1":
		set(cSM2)
	case "KeyAgreement_initiator_step2":
		ida, idb, a, b, ra, rb, RA, RB, n := ka()
		_, s2, _, _ := ref.SM2KA(false, ida, idb, a.pub, b.pub, b.d, rb, RA, RB, n)
		set(cSM2, ida, idb, a.priv, a.pub, b.pub, ref.B32(ra), RA, RB, s2)
		o.I = append(o.I, int64(n))
	case "KeyAgreement_responder_step1":
		ida, idb, a, b, _, _, RA, _, n := ka()
		set(cSM2, ida, idb, b.priv, b.pub, a.pub, RA)
		o.I = append(o.I, int64(n))
	case "KeyAgreement_responder_ElGamal_step1":
		ida, idb, a, b, _, _, RA, _, n := ka()
		set(cSM2, ida, idb, b.priv, b.pub, a.pub, RA, r.Bytes(32))
		o.I = append(o.I, int64(n))
	case "KeyAgreement_responder_step2":
		s := r.Bytes(32)
		t := dup(s)
		if r.Intn(2) == 0 {
			t = flipOne(r, t)
		}
		set(cSM2, s, t)
	case "Point_mulBaseG_add", "MulBaseG_Add":
		c := cur(pointCurve)
		if name == "MulBaseG_Add" {
			c = cur(weCurves)
		}
		a, k := genScalar(r, c), genScalar(r, c)
		t := genShort(r, c)
		if t == nil || r.Intn(8) > 0 {
			set(c, genPoint(r, c), encScalar(c, k))
			break
		}
		// the sum is short
		t.Sub(t, a)
		set(c, pointOf(c, a), encScalar(c, t.Mod(t, orderOf(c))))
	case "Point_add", "Add":
		c := cur(pointCurve)
		if name == "Add" {
			c = cur(weCurves)
		}
		if c == cNul {
			c = cEd
		}
		a, b := genPoint(r, c), genPoint(r, c)
		switch r.Intn(12) {
		case 0, 1:
			b = dup(a)
		case 2, 3: // the sum is short
			if t := genShort(r, c); t != nil {
				k := genScalar(r, c)
				a = pointOf(c, k)
				if t.Sub(t, k).Mod(t, orderOf(c)).Sign() != 0 {
					b = pointOf(c, t)
				}
			}
		}
		set(c, a, b)
	case "Point_mul", "Mul":
		c := cur([]int64{cK1, cR1, cSM2, cPasta})
		if name == "Mul" {
			c = cur(weCurves)
		}
		if r.Intn(8) == 0 { // the product is short
			a := genScalar(r, c)
			set(c, pointOf(c, a), encScalar(c, quotient(c, genShort(r, c), a)))
			break
		}
		set(c, genPoint(r, c), encScalar(c, genScalar(r, c)))
	case "PointCompress":
		c := cur(weCurves)
		pt := genPoint(r, c)
		if r.Intn(2) == 0 {
			pt = append([]byte{4}, pt...)
		}
		set(c, pt)
	case "PointDecompress":
		c := cur([]int64{cK1, cR1, cSM2, cPasta})
		set(c, compressed(c, genPoint(r, c)))
	case "GetCurveOrder":
		set(cur(allCurves))
	case "CURVE25519_convert_X_to_Ed":
		set(cX, genPoint(r, cX))
	case "CURVE25519_convert_Ed_to_X":
		set(cEd, genPoint(r, cEd))
	case "Hash":
		o.I = []int64{pick64(r, hashAlgs), int64(engine.PickInt(r, 20, 28, 32, 1+r.Intn(32)))}
		o.B = h3(data(2000))
	case "Hmac":
		o.I = []int64{int64(oc.HMAC_SHA256_ALG) + int64(r.Intn(3))}
		o.B = h3(data(300), data(1000))
	case "Sm3Sum", "Sha3Sum":
		o.B = h3(data(2000))
	case "ShakeSum":
		o.I = []int64{int64(engine.PickInt(r, 128, 256)), int64(engine.LogUniform(r, 1000))}
		o.B = h3(data(1000))
	case "Stream":
		a := r.Intn(len(algs))
		b, i := streamParams(r, a)
		m := data(1500)
		o.I = []int64{i[0], i[1], int64(r.Intn(len(m) + 1))}
		o.B = append(b, m)
	case "pasta.PointDecompress", "pasta.Negate":
		pt := genPoint(r, cPasta)
		switch r.Intn(3) {
		case 0:
			pt = compressed(cPasta, pt)
		case 1:
			pt = append([]byte{4}, pt...)
		}
		set(cPasta, pt)
	case "pasta.PointAdd":
		set(cPasta, genPoint(r, cPasta), genPoint(r, cPasta))
	case "pasta.PointMul", "pasta.PointMulBaseGAdd":
		set(cPasta, genPoint(r, cPasta), ref.B32(genScalar(r, cPasta)))
	case "pasta.Sign":
		set(cPasta, genKey(r, cPasta), genMsg(r, cPasta))
	case "pasta.Verify":
		p, _, msg, sig, _ := signed(cPasta)
		set(cPasta, p.pub, msg, sig)
	case "pasta.GenPublicKey":
		set(cPasta, genKey(r, cPasta))
	case "pasta.NewMinaMessage":
		set(cPasta, genMinaMsg(r))
	case "bls12_381.Sign":
		msg := genMsg(r, cNul)
		if r.Intn(3) > 0 {
			msg = append([]byte(ref.DSTNul), msg...)
		}
		set(cNul, genKey(r, cNul), msg)
	case "bls12_381.Verify":
		p, _, msg, sig, _ := signed(cNul)
		set(cNul, p.pub, append([]byte(ref.DSTNul), msg...), sig)
	case "bls12_381.GenPublicKey":
		set(cNul, genKey(r, cNul))
	case "bls12_381.ScalarMultBaseAdd":
		set(cNul, genPoint(r, cNul), ref.B32(genScalar(r, cNul)))
	case "bls12_381.G1":
		set(cNul, genPoint(r, cNul), genPoint(r, cNul))
	case "bls12_381.G2":
		m := genMsg(r, cNul)
		set(cNul, ref.BlsSign(false, genScalar(r, cNul), m), ref.BlsSign(false, genScalar(r, cNul), m))
	case "eddsa.sign", "eddsa.verify", "eddsa.genPub":
		k := int64(r.Intn(4))
		c := []int64{cEdN, cEd, cX, cKCDSA}[k]
		// CURVE25519_* is the seed scheme, ED25519_* the raw-scalar one
		p := newParty(c, genKey(r, c))
		msg := genMsg(r, c)
		switch name {
		case "eddsa.genPub":
			set(k, p.priv)
		case "eddsa.sign":
			set(k, p.priv, msg)
		default:
			sig, _ := refSign(r, p, nil, msg)
			set(k, p.pub, msg, sig)
		}
	case "eddsa.IsPoint":
		set(cEd, genPoint(r, cEd))
	case "eddsa.convert":
		k := int64(r.Intn(2))
		set(k, genPoint(r, []int64{cX, cEd}[k]))
	default:
		panic("no such call " + name)
	}
	return o
}
