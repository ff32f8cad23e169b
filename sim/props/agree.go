package props

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verifsim/engine"
	"verifsim/ref"
)

// C06: SM2 key agreement over a faulty network.
//
// Each "sess" operation is one exchange between an initiator and a responder,
// driven by a discrete-event network: I=[entropy label, key length, explicit
// random (ElGamal form), other session], B=[privA, privB, idA, idB, random].
// A session that is not confirmed in time is retried once, after its faults.
//
// Faults of session K: net-drop/-dup/-delay/-mix with N = message 1..3;
// wire-* with N = 1 RA, 2 RB, 3 SB, 4 SA, 10..13 the initiator's and 20..23 the
// responder's idea of idA, idB, PA, PB; restart with N = party, A = time.
// Entropy faults: At = 100000 + 10 K + party.

type kaProp struct{}

func init() { engine.Register(kaProp{}) }

func (kaProp) ID() string { return "C06" }

func kaRng(k, side int) int { return 100000 + 10*k + side }

func (kaProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C06", seed, idx)
	p := &engine.Plan{Prop: "C06", Seed: seed, Idx: idx, Kind: "net"}
	keys := [][]byte{genKey(r, cSM2), genKey(r, cSM2), genKey(r, cSM2)}
	ids := [][]byte{}
	for len(ids) < 3 {
		if id := genID(r, cSM2); id != nil {
			ids = append(ids, id)
		}
	}
	n := 1 + r.Intn(4)
	if l := longLife(r, idx, 40); l > 0 {
		n = min(l, 40)
	}
	for k := 1; k <= n; k++ {
		i, j := r.Intn(3), r.Intn(3)
		kl := 1 + r.Intn(64)
		switch r.Intn(10) {
		case 0:
			kl = 16 * (1 + r.Intn(4))
		case 1:
			kl = engine.LogUniform(r, 2000)
		case 2:
			kl = 8160 + r.Intn(66)
		case 3:
			kl = engine.PickInt(r, 8191, 8192, 8193, 65535, 65504, 1, 31, 32, 33)
		case 4:
			if r.Intn(4) == 0 {
				kl = 0
			}
		}
		var rnd []byte
		el := int64(0)
		if r.Intn(4) == 0 {
			el, rnd = 1, genKey(r, cSM2)
			switch r.Intn(12) {
			case 0:
				rnd = special(r, cSM2)
			case 1:
				rnd = r.Bytes(r.Intn(40))
			}
		}
		lab := int64(k)
		if r.Intn(4) == 0 {
			lab = 0
		}
		ka, kb := keys[i], keys[j]
		if r.Intn(8) == 0 { // the shared point is short
			ra, rb := genScalar(r, cSM2), genScalar(r, cSM2)
			q, a := []byte(nil), false
			switch v := r.Intn(6); v {
			case 0, 1: // a party whose static and ephemeral keys cancel: the shared point vanishes
				a, q = v == 0, kaDegenerate([]*big.Int{rb, ra}[b2i(v == 0)], -1)
			case 2, 3: // static and weighted ephemeral key are the same point
				a, q = v == 2, kaDegenerate([]*big.Int{rb, ra}[b2i(v == 2)], 1)
			default:
				q = kaKeyFor(scalar(cSM2, ka), ra, rb, genShort(r, cSM2))
			}
			if scalar(cSM2, q) != nil {
				if a {
					ka = q
				} else {
					kb = q
				}
				p.Faults = append(p.Faults, engine.Fault{Kind: "rng-bytes", At: kaRng(k, 0), N: -1, D: ref.B32(ra)}, engine.Fault{Kind: "rng-bytes", At: kaRng(k, 1), N: -1, D: ref.B32(rb)})
				if el == 1 {
					rnd = ref.B32(rb)
				}
			}
		}
		p.Ops = append(p.Ops, engine.Op{N: "sess", K: k, I: []int64{lab, int64(kl), el, int64(1 + r.Intn(n))}, B: h3(ka, kb, ids[i], ids[j], rnd)})
		if r.Intn(4) == 0 {
			continue
		}
		for q := 1 + r.Intn(3)/2; q > 0; q-- {
			var f engine.Fault
			switch r.Intn(12) {
			case 0:
				f = engine.Fault{Kind: "net-drop", N: 1 + r.Intn(3)}
			case 1:
				f = engine.Fault{Kind: "net-dup", N: 1 + r.Intn(3), A: int64(r.Intn(60))}
			case 2:
				f = engine.Fault{Kind: "net-delay", N: 1 + r.Intn(3), A: int64(r.Intn(300))}
			case 3:
				f = engine.Fault{Kind: "net-mix", N: 1 + r.Intn(3), A: int64(1 + r.Intn(n))}
			case 4:
				f = engine.Fault{Kind: "restart", N: r.Intn(2), A: int64(r.Intn(60))}
			case 5:
				p.Faults = append(p.Faults, genRng(r, kaRng(k, r.Intn(2)))...)
				continue
			case 6: // a party has a wrong idea of who takes part
				c := 10*(1+r.Intn(2)) + r.Intn(4)
				f = genWire(r, k, c, cSM2)
			case 7: // a coordinate with meaning
				f = engine.Fault{Kind: "wire-set", N: 1 + r.Intn(2), A: int64(32 * r.Intn(2)), D: special(r, cSM2)}
			case 8: // the negated ephemeral point
				f = engine.Fault{Kind: "wire-negy", N: 1 + r.Intn(2)}
			default:
				f = genWire(r, k, 1+r.Intn(4), cSM2)
			}
			f.At = k
			p.Faults = append(p.Faults, f)
		}
	}
	return p
}

type kaState struct {
	view       [4][]byte // idA, idB, PA, PB
	priv       []byte
	r, R       []byte // ephemeral (initiator: both; responder: R)
	peerR      []byte
	finR       []byte // own ephemeral key of the completed exchange
	sIn        []byte
	key        []byte
	have, done bool
}

type kaSess struct {
	o       engine.Op
	k, att  int
	a, b    kaState
	sent    [4][][]byte // last message of each type
	touched bool
}

type kaMsg struct {
	at  int64
	seq int
	s   *kaSess
	typ int // 0 = start, 1..3 messages, 4 = timeout, 5/6 = restart of A/B
	b   [][]byte
}

type kaNet struct {
	e     *engine.Env
	q     []kaMsg
	seq   int
	now   int64
	byKey map[[2]int]*kaSess
	all   []*kaSess
	known map[string]*big.Int
	eph   map[string]string // RA/RB -> entropy label that made it
}

func (n *kaNet) push(m kaMsg) {
	n.seq++
	m.seq = n.seq
	n.q = append(n.q, m)
}

func (n *kaNet) faults(s *kaSess) []engine.Fault {
	if s.att > 0 {
		return nil
	}
	return n.e.FaultsAt(s.k)
}

// delay is the network's own choice for a message.
func (n *kaNet) delay(s *kaSess, typ int) int64 {
	r := engine.NewRand("C06-net", n.e.Plan.Seed, n.e.Plan.Idx, s.k, s.att, typ)
	return int64(1 + r.Intn(20))
}

func (n *kaNet) send(s *kaSess, typ int, b ...[]byte) {
	s.sent[typ] = b
	d := n.delay(s, typ)
	to := s
	dup, drop := int64(-1), false
	for _, f := range n.faults(s) {
		var other *kaSess
		if f.Kind == "net-mix" {
			other = n.byKey[[2]int{int(f.A), 0}]
		}
		if strings.HasPrefix(f.Kind, "wire-") {
			c := -1
			switch {
			case typ == 1 && f.N == 1, typ == 2 && f.N == 2, typ == 3 && f.N == 4:
				c = 0
			case typ == 2 && f.N == 3:
				c = 1
			}
			if c >= 0 {
				var peer []byte
				if p := n.byKey[[2]int{int(in(s.o.I, 3)), 0}]; p != nil && p != s && len(p.sent[typ]) > c {
					peer = p.sent[typ][c]
				}
				nb := applyKA(n.e, b[c], peer, f)
				if !bytes.Equal(nb, b[c]) {
					s.touched = true
				}
				b = append([][]byte{}, b...)
				b[c] = nb
			}
			continue
		}
		if f.N != typ {
			continue
		}
		switch f.Kind {
		case "net-drop":
			drop = true
		case "net-dup":
			dup = f.A + 1
		case "net-delay":
			d += f.A
		case "net-mix":
			if other == nil || other == s {
				continue
			}
			to = other
			other.touched = true
		default:
			continue
		}
		n.e.Count("fault:" + f.Kind)
		s.touched = true
	}
	if drop {
		return
	}
	n.push(kaMsg{at: n.now + d, s: to, typ: typ, b: b})
	if dup >= 0 {
		n.push(kaMsg{at: n.now + d + dup, s: to, typ: typ, b: b})
	}
}

func applyKA(e *engine.Env, b, peer []byte, f engine.Fault) []byte {
	if f.Kind == "wire-negy" {
		if p := ref.SM2.Parse64(b); p != nil {
			e.Count("fault:wire-negy")
			return ref.SM2.Neg(p).Bytes()
		}
		return b
	}
	return applyWire(e, cSM2, b, peer, f)
}

func (n *kaNet) device(s *kaSess, side int) *engine.Entropy {
	var fs []engine.Fault
	if s.att == 0 {
		fs = n.e.FaultsAt(kaRng(s.k, side))
	}
	lab := in(s.o.I, 0)
	d := n.e.NewEntropy(fmt.Sprintf("p%d l%d a%d", side, lab, s.att), fs)
	d.Install()
	return d
}

func (n *kaNet) entropyRule(what string, s *kaSess, d *engine.Entropy, ok bool, R []byte, side int) {
	failed := d.Fired["rng-error"]+d.Fired["rng-eof"] > 0
	if d.AnyFired() {
		s.touched = true
	}
	if ok && failed {
		n.e.Fail("ka-no-entropy", "%s succeeded although the entropy source failed (%v)", what, engine.SortedFired(d))
	}
	if !ok && failed {
		n.e.Count("clean_failures")
	}
	if ok && !d.AnyFired() {
		lab := fmt.Sprintf("p%d l%d a%d", side, in(s.o.I, 0), s.att)
		if o, seen := n.eph[string(R)]; seen && o != lab {
			n.e.Fail("ka-ephemeral-repeats", "%s: sessions that drew different entropy share an ephemeral key", what)
		}
		n.eph[string(R)] = lab
	}
}

func (n *kaNet) start(s *kaSess) {
	e := n.e
	s.a.view, s.b.view = n.view(s, 0), n.view(s, 1)
	s.a.priv, s.b.priv = s.o.B[0], s.o.B[1]
	d := n.device(s, 0)
	res := do("KeyAgreement_initiator_step1", []int64{cSM2}, nil)
	r, R := at(res.Outs, 0), at(res.Outs, 1)
	e.Log("s%d.%d start %s %s", s.k, s.att, res.Ret, engine.Short(R))
	n.entropyRule("KeyAgreement_initiator_step1", s, d, res.OK, R, 0)
	if !res.OK {
		if len(r)+len(R) != 0 {
			e.Fail("ka-failed-with-data", "KeyAgreement_initiator_step1 failed and returned data")
		}
		if !d.AnyFired() {
			e.Fail("ka-refused", "KeyAgreement_initiator_step1 failed with a working entropy source")
		}
		return
	}
	x := new(big.Int).SetBytes(r)
	if len(r) != 32 || x.Sign() == 0 || x.Cmp(ref.SM2.N) >= 0 || !bytes.Equal(ref.SM2.Base(x).Bytes(), R) {
		e.Fail("ka-ephemeral", "KeyAgreement_initiator_step1 returned %x, %x, which is no key pair", r, R)
		return
	}
	n.know(x, R)
	s.a.r, s.a.R, s.a.have = dup(r), dup(R), true
	n.send(s, 1, dup(R))
}

func (n *kaNet) know(x *big.Int, R []byte) {
	n.known[string(R)] = x
	if p := ref.SM2.Parse64(R); p != nil {
		n.known[string(ref.SM2.Neg(p).Bytes())] = new(big.Int).Sub(ref.SM2.N, x)
	}
}

// view is what a party believes about the session.
func (n *kaNet) view(s *kaSess, side int) (v [4][]byte) {
	pa, pb := refPub(cSM2, s.o.B[0]), refPub(cSM2, s.o.B[1])
	v = [4][]byte{s.o.B[2], s.o.B[3], pa, pb}
	for _, f := range n.faults(s) {
		i := f.N - 10*(side+1)
		if i < 0 || i > 3 || f.N < 10 || !strings.HasPrefix(f.Kind, "wire-") {
			continue
		}
		peer := v[i^1]
		w := applyWire(n.e, cSM2, v[i], peer, f)
		if !bytes.Equal(w, v[i]) {
			s.touched = true
		}
		v[i] = w
	}
	return v
}

func kaIDok(id []byte) bool { return len(id) > 0 && len(id) < 8192 }

func kaViewOK(v [4][]byte) bool {
	return kaIDok(v[0]) && kaIDok(v[1]) && ref.SM2.Parse64(v[2]) != nil && ref.SM2.Parse64(v[3]) != nil
}

// respond is the responder receiving RA.
func (n *kaNet) respond(s *kaSess, RA []byte) {
	e := n.e
	b := &s.b
	kl := int(in(s.o.I, 1))
	v := b.view
	d := n.device(s, 1)
	var rnd []byte
	name := "KeyAgreement_responder_step1"
	args := [][]byte{dup(v[0]), dup(v[1]), dup(b.priv), dup(v[3]), dup(v[2]), dup(RA)}
	if in(s.o.I, 2) == 1 {
		rnd = s.o.B[4]
		name = "KeyAgreement_responder_ElGamal_step1"
		args = append(args, dup(rnd))
	}
	res := do(name, []int64{cSM2, int64(kl)}, args)
	key, RB, sIn, sOut := at(res.Outs, 0), at(res.Outs, 1), at(res.Outs, 2), at(res.Outs, 3)
	e.Log("s%d.%d respond %s %s %s %s %s", s.k, s.att, res.Ret, engine.Short(key), engine.Short(RB), engine.Short(sIn), engine.Short(sOut))
	explicit := rnd != nil
	if !explicit {
		n.entropyRule(name, s, d, res.OK, RB, 1)
	}
	rx := new(big.Int).SetBytes(rnd)
	rndOK := !explicit || len(rnd) == 32 && rx.Sign() > 0 && rx.Cmp(ref.SM2.N) < 0
	pr := ref.SM2.Parse64(RA)
	valid := pr != nil && kaViewOK(v) && rndOK
	b.have = false
	if !res.OK {
		if len(key)+len(RB)+len(sIn)+len(sOut) != 0 {
			e.Fail("ka-failed-with-data", "%s reported failure and returned data", name)
		}
		if valid && (explicit || !d.AnyFired()) && !n.mayBeInfinity(s, RA) {
			e.Fail("ka-refused", "%s refused a well-formed message in a well-formed session (%s)", name, res.Ret)
		}
		e.Count("responder_refused")
		if valid {
			n.forge(s, RA)
		}
		return
	}
	if !valid {
		e.Fail("ka-accepts", "%s accepted RA=%s, idA %d bytes, idB %d bytes, PA=%s, PB=%s, random=%s", name, engine.Short(RA), len(v[0]), len(v[1]), engine.Short(v[2]), engine.Short(v[3]), engine.Short(rnd))
		return
	}
	if len(key) != kl || len(sIn) != 32 || len(sOut) != 32 || ref.SM2.Parse64(RB) == nil {
		e.Fail("ka-shape", "%s returned a key of %d bytes (asked: %d), RB=%s, %d and %d bytes of confirmation", name, len(key), kl, engine.Short(RB), len(sIn), len(sOut))
		return
	}
	// what the standard defines, from whichever side's secret is known
	var wk, w2, w3 []byte
	var err error
	switch x := n.known[string(RA)]; {
	case explicit:
		if !bytes.Equal(ref.SM2.Base(rx).Bytes(), RB) {
			e.Fail("ka-ephemeral", "%s does not use the random value it was given", name)
			return
		}
		n.know(rx, RB)
		wk, w2, w3, err = ref.SM2KA(false, v[0], v[1], v[2], v[3], new(big.Int).SetBytes(b.priv), rx, RA, RB, kl)
	case x != nil && bytes.Equal(v[2], refPub(cSM2, s.o.B[0])) && bytes.Equal(v[3], refPub(cSM2, s.o.B[1])):
		wk, w2, w3, err = ref.SM2KA(true, v[0], v[1], v[2], v[3], new(big.Int).SetBytes(s.o.B[0]), x, RA, RB, kl)
	default:
		e.Count("responder_unchecked")
		goto accepted
	}
	if err != nil || !bytes.Equal(wk, key) || !bytes.Equal(w2, sOut) || !bytes.Equal(w3, sIn) {
		e.Fail("ka-standard", "%s (key length %d) disagrees with the standard: key %s instead of %s, S %s/%s instead of %s/%s", name, kl, engine.Short(key), engine.Short(wk), engine.Short(sIn), engine.Short(sOut), engine.Short(w3), engine.Short(w2))
		return
	}
	e.Count("responder_checked")
accepted:
	b.have, b.key, b.R, b.sIn, b.peerR = true, dup(key), dup(RB), dup(sIn), dup(RA)
	n.send(s, 2, dup(RB), dup(sOut))
}

// mayBeInfinity: the shared point vanishes, where failing is the only answer.
func (n *kaNet) mayBeInfinity(s *kaSess, RA []byte) bool {
	x := n.known[string(RA)]
	return x == nil || kaVanishes(s.o.B[0], RA, x) || n.ownVanishes(s)
}

// ownVanishes: the responder's explicit ephemeral key cancels its static key.
func (n *kaNet) ownVanishes(s *kaSess) bool {
	rx := new(big.Int).SetBytes(s.o.B[4])
	if in(s.o.I, 2) != 1 || rx.Sign() == 0 || rx.Cmp(ref.SM2.N) >= 0 {
		return false
	}
	return kaVanishes(s.o.B[1], ref.SM2.Base(rx).Bytes(), rx)
}

func kaVanishes(priv, R []byte, x *big.Int) bool {
	t := new(big.Int).Mul(kaBar(R), x)
	t.Add(t, new(big.Int).SetBytes(priv))
	return t.Mod(t, ref.SM2.N).Sign() == 0
}

// forge is a dishonest responder whose static and ephemeral keys cancel: the shared
// point vanishes whatever the initiator's keys are, so that anyone can compute what an
// initiator that does not look would derive.
func (n *kaNet) forge(s *kaSess, RA []byte) {
	if !n.ownVanishes(s) {
		return
	}
	n.e.Count("fault:forged-infinity")
	s.touched = true
	v, z := s.b.view, make([]byte, 32)
	RB := ref.SM2.Base(new(big.Int).SetBytes(s.o.B[4])).Bytes()
	in := ref.SM3(z, ref.SM2ZA(v[2], v[0]), ref.SM2ZA(v[3], v[1]), RA, RB)
	n.send(s, 2, RB, ref.SM3([]byte{2}, z, in))
}

// finish is the initiator receiving RB and SB.
func (n *kaNet) finish(s *kaSess, RB, SB []byte) {
	e := n.e
	a := &s.a
	v := a.view
	kl := int(in(s.o.I, 1))
	res := do("KeyAgreement_initiator_step2", []int64{cSM2, int64(kl)}, [][]byte{dup(v[0]), dup(v[1]), dup(a.priv), dup(v[2]), dup(v[3]), dup(a.r), dup(a.R), dup(RB), dup(SB)})
	key, sOut := at(res.Outs, 0), at(res.Outs, 1)
	e.Log("s%d.%d finish %s %s %s", s.k, s.att, res.Ret, engine.Short(key), engine.Short(sOut))
	var wk, w2, w3 []byte
	err := fmt.Errorf("invalid")
	if kaViewOK(v) && a.have && len(RB) == 64 {
		wk, w2, w3, err = ref.SM2KA(true, v[0], v[1], v[2], v[3], new(big.Int).SetBytes(a.priv), new(big.Int).SetBytes(a.r), a.R, RB, kl)
	}
	want := err == nil && bytes.Equal(w2, SB)
	if !res.OK {
		if len(key)+len(sOut) != 0 {
			e.Fail("ka-failed-with-data", "KeyAgreement_initiator_step2 reported failure and returned a key or confirmation")
		}
		if want {
			e.Fail("ka-refused", "KeyAgreement_initiator_step2 refused the genuine answer of the responder (key length %d): %s", kl, res.Ret)
		}
		e.Count("initiator_refused")
		return
	}
	if !want {
		e.Fail("ka-accepts", "KeyAgreement_initiator_step2 accepted RB=%s SB=%s, which is not the responder's answer", engine.Short(RB), engine.Short(SB))
		return
	}
	if !bytes.Equal(key, wk) || !bytes.Equal(sOut, w3) {
		e.Fail("ka-standard", "KeyAgreement_initiator_step2 (key length %d) returned key %s (%d bytes) and SA %s instead of %s and %s", kl, engine.Short(key), len(key), engine.Short(sOut), engine.Short(wk), engine.Short(w3))
		return
	}
	e.Count("initiator_accepted")
	a.done, a.key, a.peerR, a.finR = true, dup(key), dup(RB), a.R
	n.send(s, 3, dup(sOut))
}

// confirm is the responder receiving SA.
func (n *kaNet) confirm(s *kaSess, SA []byte) {
	e := n.e
	b := &s.b
	var own []byte
	if b.have {
		own = b.sIn
	}
	res := do("KeyAgreement_responder_step2", []int64{cSM2}, [][]byte{dup(SA), dup(own)})
	e.Log("s%d.%d confirm %s", s.k, s.att, res.Ret)
	want := len(own) == 32 && bytes.Equal(own, SA)
	if res.OK != want {
		e.Fail("ka-confirm", "KeyAgreement_responder_step2(%s, %s) = %s", engine.Short(SA), engine.Short(own), res.Ret)
		return
	}
	if !want {
		return
	}
	b.done = true
	e.Count("confirmed")
	// somewhere an initiator completed with exactly this key
	var other []byte
	for _, o := range n.all {
		if o.a.done && bytes.Equal(o.a.finR, b.peerR) && bytes.Equal(o.a.peerR, b.R) {
			// the confirmation does not bind the length the parties asked for
			l := len(b.key)
			if len(o.a.key) < l {
				l = len(o.a.key)
			}
			if bytes.Equal(o.a.key[:l], b.key[:l]) {
				return
			}
			other = o.a.key
		}
	}
	if other != nil {
		e.Fail("ka-different-keys", "both sides completed with different keys: %s and %s", engine.Short(other), engine.Short(b.key))
		return
	}
	e.Fail("ka-one-sided", "the responder confirmed a session no initiator completed")
}

func (kaProp) Exec(e *engine.Env) {
	n := &kaNet{e: e, byKey: map[[2]int]*kaSess{}, known: map[string]*big.Int{}, eph: map[string]string{}}
	s := e.Solo(8_000_000_000, func() {
		for i, o := range e.Plan.Ops {
			for len(o.B) < 5 {
				o.B = append(o.B, nil)
			}
			if o.N != "sess" || scalar(cSM2, o.B[0]) == nil || scalar(cSM2, o.B[1]) == nil {
				continue
			}
			x := &kaSess{o: o, k: o.K}
			n.byKey[[2]int{o.K, 0}] = x
			n.all = append(n.all, x)
			n.push(kaMsg{at: int64(3 * i), s: x, typ: 0})
			n.push(kaMsg{at: int64(3*i) + 500, s: x, typ: 4})
			for _, f := range e.FaultsAt(o.K) {
				if f.Kind == "restart" {
					n.push(kaMsg{at: int64(3*i) + f.A, s: x, typ: 5 + f.N&1})
				}
			}
		}
		for len(n.q) > 0 {
			sort.SliceStable(n.q, func(i, j int) bool {
				if n.q[i].at != n.q[j].at {
					return n.q[i].at < n.q[j].at
				}
				return n.q[i].seq < n.q[j].seq
			})
			m := n.q[0]
			n.q = n.q[1:]
			n.now = m.at
			catch(e, "ka", m.s.o, func() { n.step(m) })
		}
		for _, x := range n.all {
			ok := x.a.done && x.b.done && bytes.Equal(x.a.key, x.b.key)
			if !x.touched && !ok && !n.badRandom(x) {
				e.Fail("ka-incomplete", "session %d.%d (key length %d) without a fault did not complete", x.k, x.att, in(x.o.I, 1))
			}
			if ok {
				e.Count("completed")
			}
			if x.att > 0 {
				e.Count("retries")
			}
		}
	})
	settle(e, "ka", s)
	e.Add("sim_ticks", n.now)
	e.Add("sessions", int64(len(n.all)))
	e.Out.Trivial = len(n.all) == 0
}

// badRandom: the caller gave the responder an unusable explicit random value.
func (n *kaNet) badRandom(s *kaSess) bool {
	if in(s.o.I, 2) != 1 || s.o.B[4] == nil {
		return false
	}
	x := new(big.Int).SetBytes(s.o.B[4])
	return len(s.o.B[4]) != 32 || x.Sign() == 0 || x.Cmp(ref.SM2.N) >= 0
}

func (n *kaNet) step(m kaMsg) {
	s := m.s
	switch m.typ {
	case 0:
		n.start(s)
	case 1:
		n.respond(s, at(m.b, 0))
	case 2:
		n.finish(s, at(m.b, 0), at(m.b, 1))
	case 3:
		n.confirm(s, at(m.b, 0))
	case 4: // timeout: one retry, untouched by faults
		if s.att == 0 && !(s.a.done && s.b.done) {
			x := &kaSess{o: s.o, k: s.k, att: 1}
			n.byKey[[2]int{s.k, 1}] = x
			n.all = append(n.all, x)
			n.push(kaMsg{at: n.now + 1, s: x, typ: 0})
		}
	case 5: // the initiator restarts: its static keys survive, the session does not
		n.e.Count("fault:restart")
		s.touched = true
		s.a.r, s.a.R, s.a.have = nil, nil, false
	case 6:
		n.e.Count("fault:restart")
		s.touched = true
		s.b.have = false
		s.b.sIn = nil
	}
}

func (kaProp) Info() engine.Info {
	return engine.Info{Quick: 240, Thorough: 8000, Chunk: 10, PlainQuick: 6000, PlainThorough: 250000, PlainChunk: 50, QuickSecs: 60, ThoroughSecs: 700, Timeout: 120,
		Rule:        "an episode counts when at least one session started; distinct = distinct event logs",
		Real:        []string{"KeyAgreement_* (all five functions) and everything below them"},
		Stubs:       []string{"network with delivery times", "entropy devices of both parties", "party restarts", "simulated clock"},
		Assumptions: []string{"the reference SM2 key agreement (math/big) is correct", "each party keeps its session state apart by session number; the library has none"},
		MinProbes:   map[string]int64{"completed": 500, "responder_checked": 500, "initiator_refused": 200, "responder_refused": 100, "fault:net-dup": 30, "fault:restart": 30, "fault:net-mix": 20, "retries": 100, "fault:forged-infinity": 10},
	}
}
