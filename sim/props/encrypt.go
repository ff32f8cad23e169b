package props

import (
	"bytes"
	"fmt"
	"math/big"

	"verifsim/engine"
	"verifsim/ref"
)

// C07: SM2 decryption returns the plaintext that was encrypted, or fails.
//
// "enc" I=[how, entropy label, salt] B=[priv, plain, nonce]: a client encrypts
// for a party and puts the ciphertext into a store.  Wire faults with N=2 hit
// the public key it uses.  "dec" I=[record, other record, key record]: the
// ciphertext comes back (wire faults N=0 on it, N=1 on the private key).

type cryptProp struct{}

func init() { engine.Register(cryptProp{}) }

func (cryptProp) ID() string { return "C07" }

const (
	encLib      = iota
	encRef      // another implementation of the standard
	encOffCurve // C1 on a curve with another b, the rest consistent
	encInfinity // C1 = (0,0), the rest consistent with an all-zero shared point
	encUnreduc  // C1 with X + P where that fits
	encZeroKey  // the key stream of a one-byte message is zero
	encTagOnly  // C3 recomputed over altered plaintext under the right shared point with a wrong hash input order
	encTruncTag // C2 of length zero
	encHybrid   // 06/07 or 02/03 prefixed
	nEnc
)

func (cryptProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C07", seed, idx)
	p := &engine.Plan{Prop: "C07", Seed: seed, Idx: idx, Kind: "store"}
	plain := idx >= engine.PlainBase
	keys := [][]byte{genKey(r, cSM2)}
	for n := r.Intn(3); n > 0; n-- {
		keys = append(keys, genKey(r, cSM2))
	}
	n := 1 + r.Intn(3)
	l := longLife(r, idx, 40)
	if l > 0 {
		n = l
	}
	k := 0
	big := false
	label := func() int64 {
		if r.Intn(3) == 0 {
			return 0 // a stuck or restored device: the same bytes for several records
		}
		return int64(k + 1)
	}
	for i := 0; i < n; i++ {
		k++
		how := int64(encLib)
		switch r.Intn(10) {
		case 0, 1:
			how = encRef
		case 2:
			how = int64(2 + r.Intn(nEnc-2))
			if how == encZeroKey && r.Intn(8) > 0 { // costly to craft
				how = encHybrid
			}
		}
		sz := 1 + r.Intn(100)
		switch r.Intn(12) {
		case 0:
			sz = 1 + r.Intn(3)
		case 1:
			sz = 32*(1+r.Intn(4)) + r.Intn(3) - 1
		case 2:
			sz = engine.LogUniform(r, 3000)
		case 3:
			if plain {
				sz = 8160 + r.Intn(66) // the block counter reaches its second byte
			}
		case 4:
			if plain && r.Intn(24) == 0 {
				big = true
				sz = 32*65536 + r.Intn(66) - 32
			}
		}
		var m []byte
		switch r.Intn(6) {
		case 0:
			m = make([]byte, sz)
		case 1:
			m = bytes.Repeat([]byte{0xff}, sz)
		default:
			m = r.Bytes(sz)
		}
		key, eph := keys[r.Intn(len(keys))], genKey(r, cSM2)
		if r.Intn(6) == 0 { // the shared point is short
			eph = ref.B32(quotient(cSM2, genShort(r, cSM2), scalar(cSM2, key)))
		}
		p.Ops = append(p.Ops, engine.Op{N: "enc", K: k, I: []int64{how, label(), int64(r.Intn(8))}, B: h3(key, m, eph)})
		if how == encLib && r.Intn(8) == 0 { // the device makes the library use this one
			p.Faults = append(p.Faults, forcedNonce(k, eph))
		}
		if r.Intn(6) == 0 {
			f := genWire(r, k, 2, cSM2)
			if r.Intn(3) == 0 {
				f = engine.Fault{Kind: "wire-set", At: k, N: 2, A: int64(32 * r.Intn(2)), D: special(r, cSM2)}
			}
			p.Faults = append(p.Faults, f)
		}
		if r.Intn(4) == 0 {
			p.Faults = append(p.Faults, genRng(r, k)...)
		}
	}
	m := n * (2 + r.Intn(6))
	if big {
		m = 2
	}
	for ; m > 0 && !(l > 0 && m > n+20); m-- {
		k++
		a := int64(1 + r.Intn(n))
		if l > 0 && m > 20 {
			a = int64(1 + m%n)
		}
		kr := a
		if r.Intn(8) == 0 {
			kr = int64(1 + r.Intn(n))
		}
		p.Ops = append(p.Ops, engine.Op{N: "dec", K: k, I: []int64{a, int64(1 + r.Intn(n)), kr}})
		if r.Intn(5) == 0 {
			continue
		}
		for q := 1 + r.Intn(5)/4; q > 0; q-- {
			f := genWire(r, k, 0, cSM2)
			switch r.Intn(8) {
			case 0:
				f.N = 1
			case 1: // the format byte
				f = engine.Fault{Kind: "wire-set", At: k, D: []byte{byte(engine.PickInt(r, 0, 1, 2, 3, 5, 6, 7, 0x30, 255))}}
			case 2: // a coordinate of C1
				f = engine.Fault{Kind: "wire-set", At: k, A: int64(1 + 32*r.Intn(2)), D: special(r, cSM2)}
			case 3: // torn at a field boundary
				f = engine.Fault{Kind: "wire-mix", At: k, A: int64(engine.PickInt(r, 1, 33, 65, 97, 98)), B: 1}
			case 4: // truncated close to the minimum
				f = engine.Fault{Kind: "wire-keep", At: k, A: int64(engine.PickInt(r, 0, 1, 33, 64, 65, 96, 97, 98, 99))}
			}
			p.Faults = append(p.Faults, f)
		}
	}
	return p
}

type encRec struct {
	p     *party
	plain []byte
	ct    []byte
}

// craftCT builds a ciphertext no honest sender makes.
func craftCT(how, salt int64, p *party, m []byte, k *big.Int) []byte {
	cv := ref.SM2
	if k == nil {
		return nil
	}
	seal := func(c1 []byte, x, y *big.Int) []byte {
		t := ref.SM2KDF(len(m), ref.B32(x), ref.B32(y))
		for i := range t {
			t[i] ^= m[i]
		}
		return append(append(append([]byte{4}, c1...), ref.SM3(ref.B32(x), m, ref.B32(y))...), t...)
	}
	switch how {
	case encOffCurve:
		x, y := new(big.Int).Mod(new(big.Int).SetBytes(ref.SM3([]byte{byte(salt)}, ref.B32(k))), cv.P), new(big.Int).Mod(new(big.Int).SetBytes(ref.SM3([]byte{byte(salt), 1}, ref.B32(k))), cv.P)
		if salt == 0 {
			y.SetInt64(0) // a point of order two on its own curve
		}
		s := cv.RawMul(x, y, p.d)
		if s == nil || s.Inf {
			return nil
		}
		return seal(append(ref.B32(x), ref.B32(y)...), s.X, s.Y)
	case encInfinity:
		c1 := make([]byte, 64)
		if salt&1 == 1 {
			c1 = cv.Base(k).Bytes()
		}
		return seal(c1, new(big.Int), new(big.Int))
	case encUnreduc:
		// x below 2^256 - P so that x + P still fits
		lim := new(big.Int).Sub(new(big.Int).Lsh(one, 256), cv.P)
		x := new(big.Int).Mod(k, lim)
		for i := 0; i < 200; i++ {
			if q := cv.Lift(x, uint(salt&1)); q != nil {
				s := cv.Mul(q, p.d)
				return seal(append(ref.B32(new(big.Int).Add(x, cv.P)), ref.B32(q.Y)...), s.X, s.Y)
			}
			x.Add(x, one)
		}
		return nil
	case encZeroKey:
		m = m[:1]
		for i := 0; i < 3000; i++ {
			s := cv.Mul(cv.Parse64(p.pub), k)
			if ref.SM2KDF(1, ref.B32(s.X), ref.B32(s.Y))[0] == 0 {
				return seal(cv.Base(k).Bytes(), s.X, s.Y)
			}
			k = new(big.Int).Mod(new(big.Int).Add(k, one), cv.N)
			if k.Sign() == 0 {
				k.SetInt64(1)
			}
		}
		return nil
	case encTagOnly:
		s := cv.Mul(cv.Parse64(p.pub), k)
		ct := seal(cv.Base(k).Bytes(), s.X, s.Y)
		var h []byte
		switch salt & 3 {
		case 0:
			h = ref.SM3(m)
		case 1:
			h = ref.SM3(ref.B32(s.X), m)
		case 2:
			h = ref.SM3(m, ref.B32(s.Y))
		case 3:
			h = ref.SM3(ref.B32(s.X), ref.B32(s.Y), m)
		}
		copy(ct[65:97], h)
		return ct
	case encTruncTag:
		m = nil
		s := cv.Mul(cv.Parse64(p.pub), k)
		return seal(cv.Base(k).Bytes(), s.X, s.Y)
	case encHybrid:
		s := cv.Mul(cv.Parse64(p.pub), k)
		ct := seal(cv.Base(k).Bytes(), s.X, s.Y)
		ct[0] = byte(6 + ct[64]&1)
		return ct
	}
	return nil
}

func (cryptProp) Exec(e *engine.Env) {
	recs := map[int64]*encRec{}
	c1 := map[string]int64{}
	n := int64(0)
	s := e.Solo(8_000_000_000, func() {
		for _, o := range e.Plan.Ops {
			if o.N == "enc" {
				if r := encryptOp(e, o, c1); r != nil {
					recs[int64(o.K)] = r
				}
				continue
			}
			r, other, kr := recs[in(o.I, 0)], recs[in(o.I, 1)], recs[in(o.I, 2)]
			if r == nil {
				continue
			}
			if other == nil {
				other = r
			}
			if kr == nil {
				kr = r
			}
			n++
			ct, priv := r.ct, kr.p.priv
			for _, f := range e.FaultsAt(o.K) {
				switch {
				case f.N == 1:
					priv = applyWire(e, cSM2, priv, other.p.priv, f)
				case f.Kind == "wire-keep":
					if int(f.A) < len(ct) {
						ct = append([]byte{}, ct[:f.A]...)
						e.Count("fault:wire-keep")
					}
				default:
					ct = applyWire(e, cSM2, ct, other.ct, f)
				}
			}
			catch(e, "crypt", o, func() { decryptOp(e, recs, r, kr, ct, priv) })
		}
	})
	settle(e, "crypt", s)
	e.Add("decryptions", n)
	e.Out.Trivial = n == 0
}

func encryptOp(e *engine.Env, o engine.Op, c1 map[string]int64) (rec *encRec) {
	for len(o.B) < 3 {
		o.B = append(o.B, nil)
	}
	p := newParty(cSM2, o.B[0])
	m := []byte(o.B[1])
	if p.d == nil || len(m) == 0 {
		return nil
	}
	k := scalar(cSM2, o.B[2])
	how := in(o.I, 0)
	switch {
	case how == encRef:
		if k == nil {
			return nil
		}
		ct := ref.SM2Encrypt(p.pub, m, k)
		if ct == nil {
			return nil
		}
		e.Count("by_peer")
		return &encRec{p, m, ct}
	case how != encLib:
		ct := craftCT(how, in(o.I, 2), p, m, k)
		if ct == nil {
			return nil
		}
		e.Count("crafted")
		return &encRec{p, m, ct} // a repaired prefix makes it a genuine one
	}
	pub := p.pub
	var rng []engine.Fault
	for _, f := range e.FaultsAt(o.K) {
		if f.N == 2 && len(f.Kind) > 5 && f.Kind[:5] == "wire-" {
			pub = applyWire(e, cSM2, pub, refPub(cSM2, o.B[2]), f)
		} else {
			rng = append(rng, f)
		}
	}
	catch(e, "crypt", o, func() {
		d := e.NewEntropy(fmt.Sprint("l", in(o.I, 1)), rng)
		d.Install()
		res := do("Encryption", []int64{cSM2}, [][]byte{dup(pub), dup(m)})
		e.Count("encryptions")
		ct := at(res.Outs, 0)
		e.Log("enc %s %s", res.Ret, engine.Short(ct))
		q := ref.SM2.Parse64(pub)
		failed := d.Fired["rng-error"]+d.Fired["rng-eof"] > 0
		switch {
		case !res.OK && len(ct) != 0:
			e.Fail("crypt-failed-with-data", "Encryption reported failure %s and returned %d bytes", res.Ret, len(ct))
		case res.OK && q == nil:
			e.Fail("crypt-bad-key", "Encryption for an invalid public key %s succeeded", engine.Short(pub))
		case res.OK && failed:
			e.Fail("crypt-no-entropy", "Encryption succeeded although the entropy source failed (%v)", engine.SortedFired(d))
		case !res.OK && q != nil && !d.AnyFired():
			e.Fail("crypt-refused", "Encryption of %d bytes for a valid key with a working entropy source failed with %s", len(m), res.Ret)
		case !res.OK:
			e.Count("clean_failures")
		}
		if !res.OK || q == nil {
			return
		}
		var owner *party
		if bytes.Equal(pub, p.pub) {
			owner = p
		} else if b := newParty(cSM2, o.B[2]); bytes.Equal(pub, b.pub) {
			owner = b
		} else {
			return
		}
		if len(ct) != 97+len(m) {
			e.Fail("crypt-format", "Encryption of %d bytes returned %d bytes", len(m), len(ct))
			return
		}
		got, err := ref.SM2Decrypt(owner.d, ct)
		if err != nil || !bytes.Equal(got, m) {
			e.Fail("crypt-wrong", "Encryption of %d bytes returned a ciphertext that an independent implementation does not decrypt to it (%v)", len(m), err)
			return
		}
		if !d.AnyFired() {
			l := in(o.I, 1)
			if prev, ok := c1[string(ct[1:65])]; ok && prev != l {
				e.Fail("crypt-nonce", "two encryptions that drew different entropy share their ephemeral key")
			}
			c1[string(ct[1:65])] = l
		} else {
			e.Count("success_under_fault")
		}
		rec = &encRec{owner, m, ct}
	})
	return rec
}

func decryptOp(e *engine.Env, recs map[int64]*encRec, r, kr *encRec, ct, priv []byte) {
	var want []byte
	d := new(big.Int).SetBytes(priv)
	valid := len(priv) == 32 && d.Sign() > 0 && d.Cmp(ref.SM2.N) < 0
	if valid {
		want, _ = ref.SM2Decrypt(d, ct)
	}
	res := do("Decryption", []int64{cSM2}, [][]byte{dup(priv), dup(ct)})
	got := at(res.Outs, 0)
	e.Log("dec %s %s", res.Ret, engine.Short(got))
	if want != nil {
		e.Count("expected_plain")
	} else {
		e.Count("expected_failure")
	}
	switch {
	case want == nil && (res.OK || len(got) != 0):
		e.Fail("crypt-accepts", "Decryption of %s with key %s answered %s %s where the standard has no plaintext", engine.Short(ct), engine.Short(priv), res.Ret, engine.Short(got))
	case want != nil && !res.OK && d.Cmp(new(big.Int).Sub(ref.SM2.N, one)) == 0:
		// d = N-1 is no SM2 private key; decrypting with it may be refused
	case want != nil && (!res.OK || !bytes.Equal(got, want)):
		e.Fail("crypt-plain", "Decryption of %s answered %s %s instead of %s", engine.Short(ct), res.Ret, engine.Short(got), engine.Short(want))
	}
	if res.OK {
		// the plaintext is one that was encrypted for this key
		for _, x := range recs {
			if bytes.Equal(x.p.priv, priv) && bytes.Equal(x.plain, got) {
				return
			}
		}
		e.Fail("crypt-forged", "Decryption of %s returned %s, which nobody encrypted", engine.Short(ct), engine.Short(got))
	}
}

func (cryptProp) Info() engine.Info {
	return engine.Info{Quick: 320, Thorough: 10000, Chunk: 10, PlainQuick: 9000, PlainThorough: 300000, PlainChunk: 50, QuickSecs: 60, ThoroughSecs: 700, Timeout: 120,
		Rule:        "an episode counts when at least one ciphertext came back and was decrypted; distinct = distinct event logs",
		Real:        []string{"Encryption, Decryption and everything below them (SM2 curve, SM3, KDF)"},
		Stubs:       []string{"entropy device", "ciphertext store and transport", "peer implementation (reference)"},
		Assumptions: []string{"the reference SM2 encryption (math/big) is correct", "ciphertexts are 04||C1||C3||C2"},
		MinProbes:   map[string]int64{"encryptions": 500, "by_peer": 100, "crafted": 50, "expected_plain": 300, "expected_failure": 1000, "fault:rng-error": 20, "clean_failures": 50},
	}
}
