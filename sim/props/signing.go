package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"

	"verifsim/engine"
	"verifsim/ref"
	"verifsim/simrt"
)

// C04: signing is correct or fails cleanly under any entropy fault.
// C05: nonces never repeat, leak or lose bits.
//
// Operation "sign": I=[curve, entropy label], B=[priv, id, msg].  Each
// operation reads its own entropy device; two operations with one label see the
// same bytes (a replayed or restored device).

type signProp struct{}
type nonceProp struct{}

func init() { engine.Register(signProp{}); engine.Register(nonceProp{}) }

func (signProp) ID() string  { return "C04" }
func (nonceProp) ID() string { return "C05" }

func h3(b ...[]byte) []engine.Hex {
	var o []engine.Hex
	for _, x := range b {
		o = append(o, engine.Hex(x))
	}
	return o
}

// pickCurve draws a scheme; entropy-using ones more often.
func pickCurve(r *engine.Rand) int64 {
	if r.Intn(5) == 0 {
		return int64(r.Intn(nCurves))
	}
	return int64(engine.PickInt(r, cK1, cR1, cSM2, cEd, cX, cPasta))
}

func (signProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C04", seed, idx)
	p := &engine.Plan{Prop: "C04", Seed: seed, Idx: idx, Kind: "sign"}
	c := pickCurve(r)
	if idx < 4*nCurves {
		c = int64(idx % nCurves)
	}
	k := 0
	priv := genKey(r, c)
	for n := 1 + r.Intn(5) + longLife(r, idx, 40); n > 0; n-- {
		k++
		if r.Intn(16) == 0 {
			o, f := genShortSig(r, k, -1)
			p.Ops, p.Faults = append(p.Ops, o), append(p.Faults, f...)
			continue
		}
		if r.Intn(4) == 0 {
			c = pickCurve(r)
			priv = genKey(r, c)
		}
		p.Ops = append(p.Ops, engine.Op{N: "sign", K: k, I: []int64{c, int64(r.Intn(6) * k)}, B: h3(priv, genID(r, c), genMsg(r, c))})
		if r.Intn(3) > 0 {
			p.Faults = append(p.Faults, genRng(r, k)...)
		}
	}
	return p
}

// signOp runs one signing operation.
func signOp(e *engine.Env, o engine.Op) (Res, *engine.Entropy) {
	for len(o.B) < 3 {
		o.B = append(o.B, nil)
	}
	d := e.NewEntropy(fmt.Sprint("l", in(o.I, 1)), e.FaultsAt(o.K))
	d.Install()
	res := do("Signature", o.I[:1], [][]byte{dup(o.B[0]), dup(o.B[1]), dup(o.B[2])})
	return res, d
}

func dup(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append(make([]byte, 0, len(b)), b...)
}

func (signProp) Exec(e *engine.Env) {
	parties := map[string]*party{}
	s := e.Solo(1_000_000_000, func() {
		for _, o := range e.Plan.Ops {
			c := o.I[0]
			key := fmt.Sprint(c, o.B[0])
			p := parties[key]
			if p == nil {
				p = newParty(c, o.B[0])
				parties[key] = p
			}
			if p.d == nil {
				continue
			}
			var res Res
			var dev *engine.Entropy
			bad := false
			func() {
				defer func() {
					if v := recover(); v != nil {
						bad = true
						if a, ok := v.(simrt.Abort); ok {
							e.Fail("sign-hang", "%s signing does not return: %s", curveName(c), a.Why)
							return
						}
						e.Fail("sign-panic", "%s signing panicked: %v", curveName(c), engine.PanicSig(fmt.Sprint(v)))
					}
				}()
				res, dev = signOp(e, o)
			}()
			if bad {
				return
			}
			e.Count("signings")
			e.Log("sign %s %s", curveName(c), res)
			sig := at(res.Outs, 0)
			if !res.OK {
				if len(sig) != 0 {
					e.Fail("sign-failed-with-data", "%s signing reported failure %s and returned %d bytes", curveName(c), res.Ret, len(sig))
				}
				if !dev.AnyFired() {
					e.Fail("sign-refused", "%s signing with a valid key, a valid message and a working entropy source failed with %s", curveName(c), res.Ret)
				} else {
					e.Count("clean_failures")
				}
				continue
			}
			if dev.AnyFired() {
				e.Count("success_under_fault")
			}
			if !refVerify(c, p.pub, o.B[1], o.B[2], sig, []*party{p}) {
				e.Fail("sign-invalid", "%s signing reported success with a signature no verifier accepts (faults %v): %s", curveName(c), engine.SortedFired(dev), engine.Short(sig))
				continue
			}
			e.Count("verified:" + curveName(c))
			for i := 0; i+32 <= len(sig); i += 32 {
				if x := sig[i:]; x[0]|x[1] == 0 || x[30]|x[31] == 0 {
					e.Count("short_components")
				}
			}
			if c == cK1 || c == cR1 {
				cv := curveOf(c)
				sv := new(big.Int).SetBytes(sig[32:])
				if sv.Cmp(new(big.Int).Rsh(cv.N, 1)) > 0 {
					e.Fail("sign-high-s", "%s signature has a high s", curveName(c))
				}
				for _, x := range [][]byte{sig[:32], sig[32:]} {
					if x[0]&0x80 != 0 || x[0] == 0 && x[1]&0x80 == 0 {
						e.Fail("sign-range", "%s signature component %x is outside the canonical range", curveName(c), x)
					}
				}
				q := ref.ECDSARecover(cv, sig, byte(res.V), o.B[2])
				if res.V < 0 || res.V > 3 || q == nil || q.Inf || !bytes.Equal(q.Bytes(), p.pub) {
					e.Fail("sign-recovery-flag", "%s recovery flag %d does not recover the signer", curveName(c), res.V)
				}
			}
		}
	})
	settle(e, "sign", s)
	e.Out.Trivial = e.Out.Stats["signings"] == 0
}

func (signProp) Info() engine.Info {
	return engine.Info{Quick: 1600, Thorough: 40000, Chunk: 20, PlainQuick: 6000, PlainThorough: 300000, PlainChunk: 50, QuickSecs: 75, ThoroughSecs: 700, Timeout: 60,
		Rule:        "an episode counts when at least one signing call ran; distinct = distinct event logs (results of all calls)",
		Real:        []string{"Signature of all ten schemes and everything below it"},
		Stubs:       []string{"entropy device", "thread scheduler (one thread)"},
		Assumptions: []string{"crypto/ed25519 of the Go standard library verifies correctly; the other verifiers are written for this check in math/big"},
		MinProbes:   map[string]int64{"signings": 500, "fault:rng-error": 50, "fault:rng-const": 50, "success_under_fault": 50, "short_components": 50},
	}
}

// ---- C05 ----

func flipOne(r *engine.Rand, b []byte) []byte {
	o := dup(b)
	if len(o) > 0 {
		o[r.Intn(len(o))] ^= 1 << uint(r.Intn(8))
	}
	return o
}

func (nonceProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C05", seed, idx)
	p := &engine.Plan{Prop: "C05", Seed: seed, Idx: idx, Kind: "repeat", P: map[string]int64{}}
	if idx >= engine.PlainBase && (idx-engine.PlainBase)%60 < 6 {
		p.Kind = "bias"
		c := []int64{cK1, cR1, cSM2, cEd, cX, cPasta}[(idx-engine.PlainBase)%60]
		p.P["n"] = 170
		p.Ops = []engine.Op{{N: "sign", K: 1, I: []int64{c, 0}, B: h3(genKey(r, c), genID(r, c), genMsg(r, c))}}
		if r.Intn(2) == 0 {
			p.P["fixmsg"] = 1
		}
		return p
	}
	c := int64(engine.PickInt(r, cK1, cR1, cSM2, cSM2, cEd, cX, cPasta, cKCDSA, cEdN))
	keys := [][]byte{genKey(r, c)}
	for len(keys) < 2+r.Intn(2) {
		k := genKey(r, c)
		if r.Intn(2) == 0 {
			k = flipOne(r, keys[0])
		}
		if scalar(c, k) != nil {
			keys = append(keys, k)
		}
	}
	msgs := [][]byte{genMsg(r, c)}
	for len(msgs) < 2+r.Intn(2) {
		m := genMsg(r, c)
		if c != cPasta {
			switch r.Intn(4) {
			case 0, 1:
				m = flipOne(r, msgs[0])
			case 2:
				if c != cK1 && c != cR1 {
					m = append(dup(msgs[0]), byte(r.Intn(3)))
				}
			}
		}
		msgs = append(msgs, m)
	}
	ids := [][]byte{genID(r, c)}
	if c == cSM2 {
		ids = append(ids, flipOne(r, ids[0]), append(dup(ids[0]), 0))
	}
	// one condition of the device for a group of signatures
	var fs []engine.Fault
	cond := r.Intn(4)
	if cond == 1 || cond == 2 {
		fs = genRng(r, 0)
		if cond == 1 { // a permanent condition
			for i := range fs {
				fs[i].N = -1
			}
		}
	}
	k := 0
	for n := 3 + r.Intn(6); n > 0; n-- {
		k++
		lbl := int64(1)
		if r.Intn(5) == 0 {
			lbl = int64(k)
		}
		p.Ops = append(p.Ops, engine.Op{N: "sign", K: k, I: []int64{c, lbl}, B: h3(keys[r.Intn(len(keys))], ids[r.Intn(len(ids))], msgs[r.Intn(len(msgs))])})
		for _, f := range fs {
			f.At = k
			p.Faults = append(p.Faults, f)
		}
		if r.Intn(12) == 0 {
			p.Faults = append(p.Faults, genRng(r, k)...)
		}
	}
	return p
}

type signed struct {
	p       *party
	id, msg []byte
	lbl     int64
	k       *big.Int // folded
	fired   bool
	op      int
}

func sameKey(a, b *party) bool {
	n := orderOf(a.c)
	x, y := new(big.Int).Mod(a.d, n), new(big.Int).Mod(b.d, n)
	return x.Cmp(y) == 0
}

func sameMsg(c int64, a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	switch c {
	case cK1, cR1: // the same number modulo the group order
		n := orderOf(c)
		x, y := new(big.Int).SetBytes(a), new(big.Int).SetBytes(b)
		return new(big.Int).Mod(x.Sub(x, y), n).Sign() == 0
	case cPasta:
		x, ok := ref.MinaParse(a)
		y, ok2 := ref.MinaParse(b)
		if ok && ok2 {
			xa, _ := json.Marshal(x)
			ya, _ := json.Marshal(y)
			return bytes.Equal(xa, ya)
		}
	}
	return false
}

func (nonceProp) Exec(e *engine.Env) {
	var all []signed
	parties := map[string]*party{}
	sign := func(o engine.Op) {
		c := o.I[0]
		key := string(o.B[0])
		p := parties[key]
		if p == nil {
			p = newParty(c, o.B[0])
			parties[key] = p
		}
		if p.d == nil || !usesEntropy(c) && c != cEdN && c != cKCDSA {
			return
		}
		res, dev := signOp(e, o)
		e.Log("%s", res)
		e.Count("signings")
		sig := at(res.Outs, 0)
		if !res.OK || len(sig) != 64 {
			return
		}
		k := nonceOf(p, o.B[1], o.B[2], sig)
		if k == nil {
			return
		}
		all = append(all, signed{p, o.B[1], o.B[2], in(o.I, 1), foldNonce(c, k), dev.AnyFired(), o.K})
		e.Count("nonces")
		if dev.AnyFired() {
			e.Count("nonces_under_fault")
		}
		if c == cPasta && dev.AnyFired() {
			return
		}
		if c != cKCDSA && foldNonce(c, k).BitLen() < orderOf(c).BitLen()-58 {
			e.Fail("nonce-short", "%s nonce has only %d bits", curveName(c), foldNonce(c, k).BitLen())
		}
	}
	s := e.Solo(4_000_000_000, func() {
		if e.Plan.Kind == "bias" {
			if len(e.Plan.Ops) == 0 {
				return
			}
			o := e.Plan.Ops[0]
			r := engine.NewRand("bias", e.Plan.Seed, e.Plan.Idx)
			for i := 0; i < int(e.Plan.P["n"]); i++ {
				o.I = []int64{o.I[0], int64(i)}
				if e.Plan.P["fixmsg"] == 0 && i > 0 {
					o.B = h3(o.B[0], o.B[1], genMsg(r, o.I[0]))
				}
				sign(o)
			}
			return
		}
		for _, o := range e.Plan.Ops {
			sign(o)
		}
	})
	// panics and hangs while signing are C04's business
	if len(s.Panics) > 0 {
		e.Count("signing_aborted")
	}
	for i := range all {
		for j := i + 1; j < len(all); j++ {
			a, b := all[i], all[j]
			if a.p.c != b.p.c || a.k.Cmp(b.k) != 0 {
				continue
			}
			c := a.p.c
			if c == cPasta && (a.lbl == b.lbl || a.fired || b.fired) {
				continue
			}
			sk, sm := sameKey(a.p, b.p), sameMsg(c, a.msg, b.msg)
			si := c != cSM2 || bytes.Equal(a.id, b.id)
			switch {
			case !sk:
				e.Fail("nonce-two-keys", "%s: two different keys used one nonce (operations %d and %d)", curveName(c), a.op, b.op)
			case !sm:
				e.Fail("nonce-two-messages", "%s: one key used one nonce for two messages (operations %d and %d)", curveName(c), a.op, b.op)
			case !si:
				e.Fail("nonce-two-identities", "%s: one key used one nonce for two identities (operations %d and %d)", curveName(c), a.op, b.op)
			}
		}
	}
	if e.Plan.Kind == "bias" && len(all) > 0 {
		checkBias(e, all)
	}
	e.Out.Trivial = e.Out.Stats["nonces"] == 0
}

func checkBias(e *engine.Env, all []signed) {
	c := all[0].p.c
	if len(all) < 120 {
		e.Count("bias_skipped")
		return
	}
	e.Count("bias_runs:" + curveName(c))
	n := float64(len(all))
	lim := 6.5 * math.Sqrt(n) / 2
	top := orderOf(c).BitLen() - 2
	test := func(what string, bit func(k *big.Int) uint) {
		ones := 0.0
		for _, s := range all {
			ones += float64(bit(s.k))
		}
		if math.Abs(ones-n/2) > lim {
			e.Fail("nonce-biased", "%s: %s of the nonce is one in %.0f of %.0f signatures", curveName(c), what, ones, n)
		}
	}
	for j := 0; j < top; j++ {
		j := j
		// folding k with -k leaves these bits unbiased for an unbiased nonce
		if j >= top-2 {
			continue
		}
		test(fmt.Sprintf("bit %d", j), func(k *big.Int) uint { return k.Bit(j) })
		test(fmt.Sprintf("bit %d xor bit %d", j, j+1), func(k *big.Int) uint { return k.Bit(j) ^ k.Bit(j+1) })
	}
	// the top bits: how many nonces lie in the lower half of the folded range
	half := new(big.Int).Rsh(orderOf(c), 2)
	test("upper/lower half", func(k *big.Int) uint {
		if k.Cmp(half) < 0 {
			return 1
		}
		return 0
	})
}

func (nonceProp) Info() engine.Info {
	return engine.Info{Quick: 500, Thorough: 10000, Chunk: 10, PlainQuick: 4800, PlainThorough: 150000, PlainChunk: 20, QuickSecs: 75, ThoroughSecs: 700, Timeout: 120,
		Rule:        "an episode counts when at least one nonce was recomputed; distinct = distinct event logs",
		Real:        []string{"Signature of the schemes with a per-signature nonce"},
		Stubs:       []string{"entropy device with snapshots, replays and faults"},
		Assumptions: []string{"the nonce is recomputed exactly from the signature and the private key (up to sign)", "bias threshold 6.5 standard deviations"},
		MinProbes:   map[string]int64{"nonces": 1000, "nonces_under_fault": 200},
	}
}
