package props

import (
	"bytes"
	"math/big"

	"verifsim/engine"
	"verifsim/ref"
)

// C09: verification accepts genuine signatures and nothing that was altered.
// C11: public-key recovery returns the signer or an error.
//
// "sign" I=[curve, maker] B=[priv, id, msg, aux]: a sender makes a triple with
// the library (maker 0), with the reference and the nonce aux (1), or without
// any private key: a valid signature with chosen components (2, 3) or a forgery
// (10...).  "deliver" I=[session, other session] carries it over the network;
// faults at its K hit component N (0 signature, 1 message, 2 identity, 3 key).

type verifyProp struct{}
type recoverProp struct{}

func init() { engine.Register(verifyProp{}); engine.Register(recoverProp{}) }

func (verifyProp) ID() string  { return "C09" }
func (recoverProp) ID() string { return "C11" }

const (
	mkLib      = 0
	mkRef      = 1
	mkCraft    = 2
	mkEqual    = 3
	mkHighX    = 4
	mkEqualRec = 6  // the two summands of recovery are the same point
	mkSmallX   = 5  // a key whose coordinate has a second representative
	fgOff      = 10 // key off the curve
	fgZeroPub  = 11 // key (0,0) or infinity
	fgZero     = 12 // zero or order-valued components
	fgT0       = 13 // SM2: r + s = 0
	fgTorsion  = 14 // components outside the prime-order group
	fgSmall    = 15 // small-order keys
	fgRandom   = 16
	fgOdd      = 17 // Mina: a nonce point with odd y
	fgInf      = 18 // nonce zero: the verifier computes the point at infinity
)

func makersFor(r *engine.Rand, c int64) int64 {
	x := r.Intn(10)
	switch c {
	case cK1, cR1:
		if x < 4 {
			return mkLib
		}
		return int64(engine.PickInt(r, mkRef, mkRef, mkCraft, mkEqual, mkEqualRec, mkHighX, mkSmallX, fgOff, fgOff, fgZeroPub, fgZero, fgInf, fgRandom))
	case cSM2:
		if x < 4 {
			return mkLib
		}
		return int64(engine.PickInt(r, mkRef, mkRef, mkCraft, mkEqual, mkEqualRec, mkSmallX, fgOff, fgZeroPub, fgZero, fgInf, fgInf, fgT0, fgT0, fgRandom))
	case cPasta:
		if x < 5 {
			return mkLib
		}
		return int64(engine.PickInt(r, mkRef, mkRef, fgOdd, fgOdd, fgInf, fgZeroPub, fgOff, fgZero, fgRandom))
	case cNul, cAug:
		if x < 5 {
			return mkLib
		}
		return int64(engine.PickInt(r, mkRef, fgZeroPub, fgTorsion, fgTorsion, fgSmall, fgRandom))
	case cEdN, cEd:
		if x < 5 {
			return mkLib
		}
		return int64(engine.PickInt(r, mkRef, mkRef, fgSmall, fgTorsion, fgZero, fgRandom))
	}
	if x < 7 {
		return mkLib
	}
	return int64(engine.PickInt(r, fgSmall, fgZero, fgRandom))
}

func genAux(r *engine.Rand, c int64) []byte {
	switch r.Intn(8) {
	case 6:
		if k := genShort(r, c); k != nil {
			return ref.B32(k.Mod(k, orderOf(c)))
		}
	case 7: // as a coordinate: short itself
		k := new(big.Int).SetBytes(r.Bytes(28 + r.Intn(3)))
		return ref.B32(k.Mod(k, orderOf(c)))
	case 0:
		return ref.B32(big.NewInt(int64(1 + r.Intn(20))))
	case 1:
		return ref.B32(new(big.Int).SetBytes(r.Bytes(1 + r.Intn(31))))
	case 2:
		return ref.B32(new(big.Int).Sub(orderOf(c), big.NewInt(int64(1+r.Intn(5)))))
	}
	return ref.B32(new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(40)), orderOf(c)))
}

func genTriples(r *engine.Rand, p *engine.Plan, c int64, n int, same bool, maker func(c int64) int64) {
	k := 0
	priv, id, msg := genKey(r, c), genID(r, c), genMsg(r, c)
	for ; n > 0; n-- {
		k++
		if r.Intn(12) == 0 {
			if o, f := genShortSig(r, k, c); f != nil {
				p.Ops, p.Faults = append(p.Ops, o), append(p.Faults, f...)
				continue
			}
		}
		how := r.Intn(4)
		if same && r.Intn(10) > 0 {
			how = 1 + r.Intn(2)
		}
		switch how {
		case 0:
			priv = genKey(r, c)
		case 1:
			id = genID(r, c)
		case 2:
			msg = genMsg(r, c)
		default:
			priv, id, msg = genKey(r, c), genID(r, c), genMsg(r, c)
		}
		p.Ops = append(p.Ops, engine.Op{N: "sign", K: k, I: []int64{c, maker(c)}, B: h3(priv, id, msg, genAux(r, c))})
	}
}

func (verifyProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C09", seed, idx)
	p := &engine.Plan{Prop: "C09", Seed: seed, Idx: idx, Kind: "wire"}
	c := int64(r.Intn(nCurves))
	if (c == cNul || c == cAug || c == cPasta) && r.Intn(2) == 0 {
		c = int64(engine.PickInt(r, cK1, cR1, cSM2, cEd))
	}
	if idx < 3*nCurves {
		c = int64(idx % nCurves)
	}
	n := 1 + r.Intn(3)
	var long bool
	if l := longLife(r, idx, 30); l > 0 {
		n, long = l, true
		if c == cNul || c == cAug || c == cPasta {
			n = 12
		}
	}
	genTriples(r, p, c, n, long, func(c int64) int64 {
		if long && r.Intn(5) > 0 {
			return mkLib
		}
		return makersFor(r, c)
	})
	k := len(p.Ops)
	if long { // every one is delivered as it is
		for i := 1; i <= n; i++ {
			k++
			p.Ops = append(p.Ops, engine.Op{N: "deliver", K: k, I: []int64{int64(i), int64(i), 0}})
		}
		n = 3
	}
	for m := n * (2 + r.Intn(4)); m > 0; m-- {
		k++
		p.Ops = append(p.Ops, engine.Op{N: "deliver", K: k, I: []int64{int64(1 + r.Intn(n)), int64(1 + r.Intn(n)), int64(engine.PickInt(r, 0, 0, 0, 1, 1, 2))}})
		if r.Intn(6) == 0 {
			continue
		}
		for q := 1 + r.Intn(5)/4; q > 0; q-- {
			p.Faults = append(p.Faults, genWire(r, k, engine.PickInt(r, 0, 0, 0, 1, 1, 2, 3, 3), c))
		}
	}
	return p
}

// triple is what travels.
type triple struct {
	c       int64
	comp    [4][]byte // signature, message, identity, key
	p       *party    // nil for forgeries
	owner   *party    // whose private key the sender started from
	genuine bool
	v       int
	maker   int64
}

// verifyVia asks the public service (0), the package under it (1), or the
// package without the ciphersuite tag the service puts before a message (2).
func verifyVia(via, c int64, got [4][]byte) Res {
	pub, id, msg, sig := dup(got[3]), dup(got[2]), dup(got[1]), dup(got[0])
	if via == 0 {
		return do("Verify", []int64{c}, [][]byte{pub, id, msg, sig})
	}
	switch c {
	case cEdN, cEd, cX, cKCDSA:
		k := map[int64]int64{cEdN: 0, cEd: 1, cX: 2, cKCDSA: 3}[c]
		return do("eddsa.verify", []int64{k}, [][]byte{pub, msg, sig})
	case cPasta:
		return do("pasta.Verify", nil, [][]byte{pub, msg, sig})
	case cNul, cAug:
		tag := ref.DSTNul
		if c == cAug {
			tag = ref.DSTAug
			msg = append(dup(pub), msg...)
		}
		if via == 1 {
			msg = append([]byte(tag), msg...)
		}
		return do("bls12_381.Verify", nil, [][]byte{pub, msg, sig})
	}
	return do("Verify", []int64{c}, [][]byte{pub, id, msg, sig})
}

// makeTriple runs the sender of one session.
func makeTriple(e *engine.Env, o engine.Op, pfx string) *triple {
	c, mk := o.I[0], in(o.I, 1)
	for len(o.B) < 4 {
		o.B = append(o.B, nil)
	}
	priv, id, msg := []byte(o.B[0]), []byte(o.B[1]), []byte(o.B[2])
	aux := new(big.Int).SetBytes(o.B[3])
	p := newParty(c, priv)
	if p.d == nil {
		return nil
	}
	n := orderOf(c)
	aux.Mod(aux, n)
	if aux.Sign() == 0 {
		aux.SetInt64(1)
	}
	cv := curveOf(c)
	t := &triple{c: c, p: p, owner: p, maker: mk}
	t.comp = [4][]byte{nil, dup(msg), dup(id), p.pub}
	forged := func(sig, pub, msg []byte) *triple {
		t.p = nil
		t.comp[0], t.comp[1], t.comp[3] = sig, msg, pub
		e.Count("forgeries")
		return t
	}
	rnd := func(i byte) []byte { return ref.SM3(o.B[3], []byte{i}) }
	switch mk {
	case mkLib:
		var res Res
		ok := false
		catch(e, pfx+"-sign", o, func() { res, _ = signOp(e, o); ok = true })
		if !ok || !res.OK {
			return nil
		}
		t.comp[0], t.v = at(res.Outs, 0), res.V
		if aux.Bit(3) == 1 { // the sender hands out the key the library computes
			res := do("GenPubkey", []int64{c}, [][]byte{dup(priv)})
			t.comp[3] = at(res.Outs, 0)
			if !res.OK {
				e.Fail(pfx+"-no-key", "%s: a private key that signs has no public key: %s", curveName(c), res.Ret)
			}
		}
		e.Count("signed_lib")
	case mkRef:
		switch c {
		case cK1, cR1:
			var v byte
			t.comp[0], v = ref.ECDSASign(cv, p.d, msg, aux)
			t.v = int(v)
		case cSM2:
			t.comp[0] = ref.SM2Sign(p.d, p.pub, id, msg, aux)
			if t.comp[0] != nil {
				t.v = int(ref.SM2.Base(aux).Y.Bit(0))
			}
		case cPasta:
			t.comp[0] = ref.MinaSign(p.d, msg, aux)
		case cNul, cAug:
			t.comp[0] = ref.BlsSign(c == cAug, p.d, msg)
		case cEdN:
			t.comp[0] = ref.SeedSign(priv, msg)
		case cEd:
			t.comp[0] = ref.EdSign(p.d, msg, aux)
		}
		if t.comp[0] == nil {
			return nil
		}
		e.Count("signed_ref")
	case mkSmallX:
		if c == cSM2 {
			t.comp[2] = nil
		}
		var q *ref.Point
		for x := int64(rnd(1)[0]); q == nil; x++ {
			q = cv.Lift(big.NewInt(x), uint(rnd(2)[0]&1))
		}
		u2 := new(big.Int).SetBytes(rnd(3))
		t.comp[1], t.comp[0] = ref.SignedForKey(cv, q, aux, u2.Mod(u2, n), c == cSM2)
		if t.comp[0] == nil {
			return nil
		}
		t.p = nil
		t.comp[3] = q.Bytes()
		t.genuine = true
		e.Count("crafted")
		if rnd(4)[0]&1 == 0 { // the second representative
			t.genuine = false
			copy(t.comp[3], ref.B32(new(big.Int).Add(q.X, cv.P)))
		}
		return t
	case mkCraft, mkHighX:
		if c == cSM2 {
			t.comp[2] = nil
		}
		x := new(big.Int).Mod(aux, cv.P)
		if mk == mkHighX {
			x.Mod(aux, new(big.Int).Sub(cv.P, cv.N))
			x.Add(x, cv.N)
		}
		for i := 0; i < 40; i++ {
			var pub, sig []byte
			var v byte
			s := new(big.Int).SetBytes(priv)
			if c == cSM2 {
				v = priv[31] & 1
				pub, sig = ref.SM2Craft(x, uint(v), s, msg)
				if x.Cmp(cv.N) >= 0 {
					v |= 2 // this point cannot be told from r
				}
			} else {
				pub, sig, v = ref.ECDSACraft(cv, x, uint(priv[31]&1), s, msg)
			}
			if pub != nil {
				t.p = nil
				t.comp[0], t.comp[3], t.v = sig, pub, int(v)
				e.Count("crafted")
				t.genuine = true
				return t
			}
			x.Add(x, one)
		}
		return nil
	case mkEqual:
		if c == cSM2 {
			t.comp[2] = nil
			t.comp[1], t.comp[0] = ref.SM2Equal(p.d, aux)
			t.v = int(ref.SM2.Base(new(big.Int).Lsh(aux, 1)).Y.Bit(0))
		} else {
			t.comp[1], t.comp[0] = ref.ECDSAEqual(cv, p.d, aux)
			t.v = int(cv.Base(new(big.Int).Lsh(aux, 1)).Y.Bit(0))
		}
		if t.comp[0] == nil {
			return nil
		}
		e.Count("crafted")
	case mkEqualRec:
		if c == cSM2 {
			t.comp[2] = nil
			t.comp[1], t.comp[0] = ref.SM2EqualRec(p.d, aux)
		} else {
			t.comp[1], t.comp[0] = ref.ECDSAEqualRec(cv, p.d, aux)
		}
		if t.comp[0] == nil {
			return nil
		}
		t.v = int(cv.Base(aux).Y.Bit(0))
		e.Count("crafted")
	case fgInf:
		var sig []byte
		switch c {
		case cSM2:
			sig = ref.SM2Inf(p.d, p.pub, id, msg)
		case cPasta:
			sig = ref.MinaInf(p.d, msg)
		default:
			sig = ref.ECDSAInf(cv, p.d, msg, aux)
		}
		if sig == nil {
			return nil
		}
		e.Count("nonce_zero")
		return forged(sig, p.pub, msg)
	case fgOff: // a point off the curve; the verifier's own formulas would accept
		q := &ref.Point{X: new(big.Int).SetBytes(rnd(1)), Y: new(big.Int).SetBytes(rnd(2))}
		q.X.Mod(q.X, cv.P)
		q.Y.Mod(q.Y, cv.P)
		if aux.Bit(1) == 0 { // order two in the formulas
			q.Y.SetInt64(0)
		}
		k := new(big.Int).Set(aux)
		R := cv.RawMul(q.X, q.Y, k)
		if c == cSM2 {
			// s = 0 is refused, so t·Q plays the part of R only with s·G = infinity
			// out of reach; a key of order two leaves R = s·G for even t
			q.Y.SetInt64(0)
			if aux.Bit(2) == 0 {
				q.X.SetInt64(0)
			}
			s := new(big.Int).SetBytes(rnd(3))
			s.Mod(s, n)
			R := cv.Base(s)
			t.comp[2] = nil
			for i := 0; i < 8; i++ {
				e := new(big.Int).SetBytes(rnd(byte(10 + i)))
				r := new(big.Int).Add(e, R.X)
				r.Mod(r, n)
				tt := new(big.Int).Add(r, s)
				if tt.Mod(tt, n).Bit(0) == 0 {
					return forged(append(ref.B32(r), ref.B32(s)...), q.Bytes(), ref.B32(e.Mod(e, n)))
				}
			}
			return nil
		}
		if c == cPasta {
			return forged(append(ref.B32(aux), ref.B32(new(big.Int).Mod(q.X, n))...), q.Bytes(), msg)
		}
		if R.Inf {
			return nil
		}
		r := new(big.Int).Mod(R.X, n)
		s := new(big.Int).Mul(r, new(big.Int).ModInverse(k, n))
		s.Mod(s, n)
		return forged(append(ref.B32(r), ref.B32(s)...), q.Bytes(), make([]byte, 32))
	case fgZeroPub:
		switch c {
		case cK1, cR1:
			R := cv.Base(aux)
			r := new(big.Int).Mod(R.X, n)
			s := new(big.Int).Mul(new(big.Int).SetBytes(msg), new(big.Int).ModInverse(aux, n))
			s.Mod(s, n)
			return forged(append(ref.B32(r), ref.B32(s)...), make([]byte, 64), msg)
		case cSM2:
			pub := make([]byte, 64)
			R := cv.Base(aux)
			x := ref.SM2E(pub, id, msg)
			x.Add(x, R.X)
			return forged(append(ref.B32(x.Mod(x, n)), ref.B32(aux)...), pub, msg)
		case cPasta:
			R := cv.Base(aux)
			if R.Y.Bit(0) == 1 {
				aux.Sub(n, aux)
			}
			return forged(append(ref.B32(R.X), ref.B32(aux)...), make([]byte, 64), msg)
		}
		sig := make([]byte, 96)
		sig[0] = 0xc0
		pub := make([]byte, 48)
		pub[0] = 0xc0
		if aux.Bit(0) == 1 { // the signature that needs no key
			pub = p.pub
		}
		return forged(sig, pub, msg)
	case fgOdd:
		if sig := ref.MinaSignOdd(p.d, msg, aux); sig != nil {
			return forged(sig, p.pub, msg)
		}
		return nil
	case fgZero:
		z := func(i byte) []byte {
			b := rnd(i)
			switch b[0] % 4 {
			case 0:
				return make([]byte, 32)
			case 1:
				if c >= cEdN && c <= cKCDSA {
					return ref.LE32(n)
				}
				return ref.B32(n)
			case 2:
				return append(make([]byte, 31), 1)
			}
			return b
		}
		return forged(append(z(1), z(2)...), p.pub, msg)
	case fgT0:
		s := aux
		r := new(big.Int).Sub(n, s)
		R := cv.Base(s)
		x := new(big.Int).Sub(r, R.X)
		t.comp[2] = nil
		return forged(append(ref.B32(r), ref.B32(s)...), p.pub, ref.B32(x.Mod(x, n)))
	case fgTorsion:
		if c == cNul || c == cAug {
			good := ref.BlsSign(c == cAug, p.d, msg)
			g, _ := ref.G2Parse(good, false)
			if aux.Bit(0) == 0 {
				return forged(g.Add(ref.BlsTorsionG2(o.B[3])).Bytes(), p.pub, msg)
			}
			pub, _ := ref.BlsAddG1(p.pub, ref.BlsTorsionG1(o.B[3]))
			if c == cAug {
				good = ref.BlsHash(true, pub, msg).Mul(p.d).Bytes()
			}
			return forged(good, pub, msg)
		}
		sig := ref.EdSign(p.d, msg, aux)
		return forged(append(ref.EdAddSmall(sig[:32], int(rnd(1)[0])), sig[32:]...), ref.EdAddSmall(p.pub, int(rnd(2)[0])), msg)
	case fgSmall:
		if c == cNul || c == cAug {
			sig := make([]byte, 96)
			sig[0] = 0xc0
			return forged(sig, ref.BlsTorsionG1(o.B[3]), msg)
		}
		pub := ref.SmallKey(c == cX || c == cKCDSA, int(rnd(1)[0]))
		s := ref.LE32(aux)
		R := ref.EdPub(aux)
		if c == cKCDSA {
			R = rnd(5)
		}
		return forged(append(R, s...), pub, msg)
	default:
		m := 64
		if c == cNul || c == cAug {
			m = 96
		}
		var b []byte
		for i := byte(0); len(b) < m; i++ {
			b = append(b, rnd(i)...)
		}
		return forged(b, p.pub, msg)
	}
	t.genuine = true
	return t
}

func (verifyProp) Exec(e *engine.Env) {
	sess := map[int64]*triple{}
	var known []*party
	var nver int64
	s := e.Solo(4_000_000_000, func() {
		for _, o := range e.Plan.Ops {
			if o.N == "sign" {
				t := makeTriple(e, o, "verify")
				if t != nil {
					sess[int64(o.K)] = t
					known = append(known, t.owner)
				}
				continue
			}
			t, peer := sess[in(o.I, 0)], sess[in(o.I, 1)]
			if t == nil {
				continue
			}
			if peer != nil && peer.c != t.c {
				peer = nil
			}
			c := t.c
			got := t.comp
			for _, f := range e.FaultsAt(o.K) {
				if f.N < 0 || f.N > 3 {
					continue
				}
				var pb []byte
				if peer != nil {
					pb = peer.comp[f.N]
				}
				got[f.N] = applyWire(e, c, got[f.N], pb, f)
			}
			same := true
			for i := range got {
				if (!bytes.Equal(got[i], t.comp[i]) || i == 2 && (got[i] == nil) != (t.comp[i] == nil)) && (i != 2 || c == cSM2) {
					same = false
				}
			}
			var res Res
			done := false
			catch(e, "verify", o, func() {
				res = verifyVia(in(o.I, 2), c, got)
				done = true
			})
			if !done {
				continue
			}
			nver++
			e.Log("deliver %s %v", curveName(c), res)
			if same && in(o.I, 2) > 0 {
				e.Count("package_level")
			}
			untagged := in(o.I, 2) == 2 && (c == cNul || c == cAug)
			if same && t.genuine && !untagged {
				e.Count("intact")
				if !res.OK {
					e.Fail("verify-rejects-genuine", "%s: a genuine signature (maker %d) is rejected with %s", curveName(c), t.maker, res.Ret)
				}
				continue
			}
			e.Count("altered")
			if !res.OK {
				continue
			}
			e.Count("altered_accepted")
			if untagged || !refVerify(c, got[3], got[2], got[1], got[0], known) {
				e.Fail("verify-accepts-altered", "%s: accepted sig=%s msg=%s id=%s pub=%s (maker %d)", curveName(c), engine.Short(got[0]), engine.Short(got[1]), engine.Short(got[2]), engine.Short(got[3]), t.maker)
			}
		}
	})
	settle(e, "verify", s)
	e.Add("verifications", nver)
	e.Out.Trivial = nver == 0
}

func (verifyProp) Info() engine.Info {
	return engine.Info{Quick: 1200, Thorough: 40000, Chunk: 20, PlainQuick: 9000, PlainThorough: 300000, PlainChunk: 60, QuickSecs: 80, ThoroughSecs: 700, Timeout: 120,
		Rule:        "an episode counts when at least one delivered triple was verified; distinct = distinct event logs",
		Real:        []string{"Signature and Verify of all ten schemes and everything below them"},
		Stubs:       []string{"network between signer and verifier", "entropy device", "byzantine senders"},
		Assumptions: []string{"crypto/ed25519 of the Go standard library is the verdict for Ed25519 keys; the other verifiers are written for this check in math/big"},
		MinProbes:   map[string]int64{"intact": 300, "altered": 1000, "forgeries": 200, "crafted": 50, "nonce_zero": 20},
	}
}

// ---- C11 ----

func (recoverProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C11", seed, idx)
	p := &engine.Plan{Prop: "C11", Seed: seed, Idx: idx, Kind: "recover"}
	c := int64(engine.PickInt(r, cK1, cR1, cSM2))
	n := 1 + r.Intn(3)
	l := longLife(r, idx, 100)
	if l > 0 {
		n = l
	}
	genTriples(r, p, c, n, l > 0, func(c int64) int64 {
		return int64(engine.PickInt(r, mkLib, mkLib, mkLib, mkRef, mkRef, mkCraft, mkCraft, mkEqual, mkEqualRec, mkEqualRec, mkHighX, fgZero, fgT0, fgInf, fgRandom, fgOff))
	})
	for i := range p.Ops {
		if c != cSM2 && p.Ops[i].I[1] == fgT0 || c == cSM2 && p.Ops[i].I[1] == mkHighX {
			p.Ops[i].I[1] = mkLib
		}
		if c == cSM2 {
			p.Ops[i].B[1] = nil
		}
	}
	k := len(p.Ops)
	for i := 1; i <= l; i++ {
		k++
		p.Ops = append(p.Ops, engine.Op{N: "deliver", K: k, I: []int64{int64(i), int64(i)}})
	}
	for m := min(n, 10) * (1 + r.Intn(4)); m > 0; m-- {
		k++
		p.Ops = append(p.Ops, engine.Op{N: "deliver", K: k, I: []int64{int64(1 + r.Intn(n)), int64(1 + r.Intn(n))}})
		if r.Intn(3) == 0 {
			continue
		}
		for q := 1 + r.Intn(5)/4; q > 0; q-- {
			if r.Intn(4) == 0 {
				p.Faults = append(p.Faults, engine.Fault{Kind: "flag", At: k, A: int64(engine.PickInt(r, 0, 1, 2, 3, 4, 27, 28, 255))})
				continue
			}
			f := genWire(r, k, engine.PickInt(r, 0, 0, 0, 1), c)
			p.Faults = append(p.Faults, f)
		}
	}
	return p
}

func (recoverProp) Exec(e *engine.Env) {
	sess := map[int64]*triple{}
	n := int64(0)
	s := e.Solo(4_000_000_000, func() {
		for _, o := range e.Plan.Ops {
			if o.N == "sign" {
				if t := makeTriple(e, o, "recover"); t != nil {
					sess[int64(o.K)] = t
				}
				continue
			}
			t, peer := sess[in(o.I, 0)], sess[in(o.I, 1)]
			if t == nil {
				continue
			}
			c := t.c
			with := func(t *triple) [2][]byte {
				return [2][]byte{append(dup(t.comp[0]), byte(t.v)), t.comp[1]}
			}
			orig := with(t)
			got := orig
			for _, f := range e.FaultsAt(o.K) {
				if f.Kind == "flag" {
					got[0] = dup(got[0])
					if len(got[0]) > 0 {
						got[0][len(got[0])-1] = byte(f.A)
					}
					e.Count("fault:wire-flag")
					continue
				}
				if f.N < 0 || f.N > 1 {
					continue
				}
				var pb []byte
				if peer != nil {
					pb = with(peer)[f.N]
				}
				got[f.N] = applyWire(e, c, got[f.N], pb, f)
			}
			same := t.genuine && t.v <= 1 && bytes.Equal(got[0], orig[0]) && bytes.Equal(got[1], orig[1])
			var res Res
			done := false
			catch(e, "recover", o, func() {
				res = do("RecoverPubkey", []int64{c}, [][]byte{dup(got[0]), dup(got[1])})
				done = true
			})
			if !done {
				continue
			}
			n++
			e.Log("recover %s %v", curveName(c), res)
			pub := at(res.Outs, 0)
			if same {
				e.Count("intact")
				if !res.OK || !bytes.Equal(pub, t.comp[3]) {
					e.Fail("recover-wrong", "%s: an untampered signature (maker %d, flag %d) recovers %s %s, not its key", curveName(c), t.maker, t.v, res.Ret, engine.Short(pub))
				}
				continue
			}
			e.Count("altered")
			if !res.OK {
				if len(pub) != 0 {
					e.Fail("recover-failed-with-data", "%s: failure %s with data", curveName(c), res.Ret)
				}
				continue
			}
			e.Count("altered_recovered")
			ok := len(got[0]) == 65
			if ok {
				if c == cSM2 {
					ok = ref.SM2Verify(pub, nil, got[1], got[0][:64])
				} else {
					ok = ref.ECDSAVerify(curveOf(c), pub, got[1], got[0][:64])
				}
			}
			if !ok {
				e.Fail("recover-invalid", "%s: recovery from sig=%x digest=%s returned %s, under which it does not verify", curveName(c), got[0], engine.Short(got[1]), engine.Short(pub))
			}
		}
	})
	settle(e, "recover", s)
	e.Add("recoveries", n)
	e.Out.Trivial = n == 0
}

func (recoverProp) Info() engine.Info {
	return engine.Info{Quick: 1000, Thorough: 40000, Chunk: 20, PlainQuick: 9000, PlainThorough: 300000, PlainChunk: 100, QuickSecs: 60, ThoroughSecs: 700, Timeout: 120,
		Rule:        "an episode counts when at least one recovery ran; distinct = distinct event logs",
		Real:        []string{"RecoverPubkey and Signature of secp256k1, secp256r1 and SM2"},
		Stubs:       []string{"network between signer and recoverer", "entropy device"},
		Assumptions: []string{"the verdict on a recovered key is the reference verifier's"},
		MinProbes:   map[string]int64{"intact": 300, "altered": 1000, "altered_recovered": 100, "crafted": 50},
	}
}
