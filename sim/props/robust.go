package props

import (
	"bytes"
	"encoding/json"
	"fmt"

	"verifsim/engine"
)

// C10: a process serves calls whose arguments crossed a faulty network or came
// from faulty storage, with a faulty entropy device.  It must answer every one
// of them, and an answer that says "failed" must come without data.
//
// Each operation is one call; faults at it: wire-* and "len" (N = operand, A =
// length, B = filling), "json" (N = operand, A = shape), "int" (N = integer
// operand, D ignored, A = value), "missing" (operand count), rng-*.

type robustProp struct{}

func init() { engine.Register(robustProp{}) }

func (robustProp) ID() string { return "C10" }

var oddLens = []int{0, 1, 2, 15, 16, 17, 20, 24, 31, 32, 33, 34, 47, 48, 49, 55, 56, 63, 64, 65, 66, 67, 80, 95, 96, 97, 98, 127, 128, 129, 143, 144, 192, 193, 255, 256, 257, 1000, 4096, 8191, 8192, 8193, 65535, 65536}

func (robustProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C10", seed, idx)
	p := &engine.Plan{Prop: "C10", Seed: seed, Idx: idx, Kind: "calls"}
	n := 1 + r.Intn(6)
	if idx < engine.PlainBase {
		n = 1 + r.Intn(2)
	}
	var prev engine.Op
	for k := 1; k <= n; k++ {
		name := callKinds[r.Intn(len(callKinds))]
		o := genCall(r, name)
		if idx < engine.PlainBase && isSlow(o) && r.Intn(5) > 0 {
			k--
			continue
		}
		o.K = k
		c := int64(cK1)
		if len(o.I) > 0 && o.I[0] >= 0 && o.I[0] < nCurves {
			c = o.I[0]
		}
		nf := 1 + r.Intn(5)/3
		if r.Intn(12) == 0 {
			nf = 0
		}
		for ; nf > 0; nf-- {
			if len(o.B) == 0 || r.Intn(9) == 0 {
				f := engine.Fault{Kind: "int", At: k, N: r.Intn(max(1, len(o.I))), A: int64(engine.PickInt(r, 0, 1, 2, 9, 10, 11, 31, 32, 33, 64, 65, 255, 256, 65535, 0x50505050, 0xA0000003, 0xA0000007, 0xA0000008, 0xA0000013, int(curves[r.Intn(nCurves)].id), int(curves[r.Intn(nCurves)].id)+16, 1<<32-1))}
				if r.Intn(2) == 0 {
					f.A = int64(r.Intn(nCurves))
				}
				p.Faults = append(p.Faults, f)
				continue
			}
			i := r.Intn(len(o.B))
			switch r.Intn(8) {
			case 0, 1:
				p.Faults = append(p.Faults, engine.Fault{Kind: "len", At: k, N: i, A: int64(oddLens[r.Intn(len(oddLens)-r.Intn(3)*5)]), B: int64(r.Intn(1000))})
				continue
			case 2:
				if bytes.HasPrefix(o.B[i], []byte("{")) || r.Intn(10) == 0 {
					p.Faults = append(p.Faults, engine.Fault{Kind: "json", At: k, N: i, A: int64(r.Intn(nJSON)), B: int64(r.Intn(1000))})
					continue
				}
			case 3:
				p.Faults = append(p.Faults, engine.Fault{Kind: "point", At: k, N: i, A: int64(r.Intn(nBadPoint)), B: int64(r.Intn(1000))})
				continue
			case 4: // an operand of another call
				if len(prev.B) > 0 {
					p.Faults = append(p.Faults, engine.Fault{Kind: "wire-random", At: k, N: i, D: dup(prev.B[r.Intn(len(prev.B))])})
					continue
				}
			}
			p.Faults = append(p.Faults, genWire(r, k, i, c))
		}
		if r.Intn(6) == 0 {
			p.Faults = append(p.Faults, genRng(r, k)...)
		}
		prev = o
		p.Ops = append(p.Ops, o)
	}
	return p
}

// isSlow reports calls that take very long with yield points.
func isSlow(o engine.Op) bool {
	switch o.N {
	case "GetCurveOrder", "Hash", "Hmac", "Sm3Sum", "Sha3Sum", "Stream", "ShakeSum", "PointCompress", "KeyAgreement_responder_step2", "eddsa.IsPoint", "eddsa.convert",
		"CURVE25519_convert_X_to_Ed", "CURVE25519_convert_Ed_to_X", "PointDecompress", "pasta.PointDecompress", "pasta.PointAdd", "Point_add", "Add", "pasta.NewMinaMessage", "pasta.Negate":
		return false
	}
	return true
}

const nJSON = 14

// badJSON is a malformed or extreme message for the Mina scheme.
func badJSON(good []byte, how, salt int64) []byte {
	var m map[string]json.RawMessage
	json.Unmarshal(good, &m)
	if m == nil {
		m = map[string]json.RawMessage{}
	}
	keys := []string{"transactionPrefix", "transactionSuffix", "spongeIV"}
	k := keys[salt%3]
	enc := func() []byte { b, _ := json.Marshal(m); return b }
	switch how {
	case 0:
		delete(m, k)
		return enc()
	case 1:
		m[k] = json.RawMessage("null")
		return enc()
	case 2:
		m[k] = json.RawMessage([]string{"[]", "{}", "7", `"x"`, "true", "[[]]", "[[1,2,3]]", "[[1,2,3,4,5]]", "[[1,2,3,-4]]", "[[1,2,3,18446744073709551616]]", "[[1,2,3,1e3]]", "[[0.5,0,0,0]]", "[null]", "[[null,1,2,3]]"}[salt%14])
		return enc()
	case 3: // spongeIV of another length
		m["spongeIV"] = json.RawMessage([]string{"[]", "[[1,2,3,4]]", "[[1,2,3,4],[1,2,3,4],[1,2,3,4],[1,2,3,4]]"}[salt%3])
		return enc()
	case 4: // largest limbs
		m[k] = json.RawMessage("[[18446744073709551615,18446744073709551615,18446744073709551615,18446744073709551615]]")
		return enc()
	case 5: // the modulus itself
		m[k] = json.RawMessage("[[11037532056220336129,2469829653914515739,0,4611686018427387904]]")
		return enc()
	case 6:
		return []byte("null")
	case 7:
		return []byte("[]")
	case 8:
		return []byte("{}")
	case 9:
		return append(good, good...)
	case 10: // deep nesting
		n := int(salt)*30 + 1
		return append(append([]byte(`{"transactionPrefix":`), bytes.Repeat([]byte("["), n)...), append(bytes.Repeat([]byte("]"), n), '}')...)
	case 11: // many elements
		n := int(salt)%60 + 1
		m[k] = json.RawMessage("[" + string(bytes.TrimSuffix(bytes.Repeat([]byte("[1,2,3,4],"), n), []byte(","))) + "]")
		return enc()
	case 12: // the same key twice, and unknown keys
		b := enc()
		if len(b) < 2 {
			return b
		}
		return append(append(dup(b[:len(b)-1]), `,"transactionPrefix":[],"extra":[1],"SPONGEIV":[[0,0,0,0]]`...), '}')
	}
	return good[:len(good)-int(salt)%(len(good)+1)]
}

const nBadPoint = 9

// badPoint turns an operand into something that parses further than it should.
func badPoint(b []byte, how, salt int64) []byte {
	o := dup(b)
	if len(o) == 0 {
		return o
	}
	switch how {
	case 0: // BLS infinity encodings
		for i := range o {
			o[i] = 0
		}
		o[0] = 0xc0
	case 1:
		for i := range o {
			o[i] = 0
		}
		o[0] = 0x40
	case 2: // flags
		o[0] ^= []byte{0x20, 0x40, 0x80, 0xe0, 0xc0}[salt%5]
	case 3: // SEC1 prefixes
		o = append([]byte{[]byte{0, 2, 3, 4, 5, 6, 7, 255}[salt%8]}, o...)
	case 4:
		o[0] = []byte{0, 2, 3, 4, 5, 6, 7, 255}[salt%8]
	case 5: // x only
		if len(o) >= 64 {
			o = append([]byte{byte(2 + salt%2)}, o[:32]...)
		}
	case 6: // the same point twice
		o = append(o, o...)
	case 7: // y = x
		if len(o) >= 64 {
			copy(o[32:64], o[:32])
		}
	case 8: // short point
		if len(o) > 1 {
			o = o[1:]
		}
	}
	return o
}

// operands applies the faults of one call.
func operands(e *engine.Env, o engine.Op) (I []int64, B [][]byte) {
	I = append([]int64{}, o.I...)
	for _, b := range o.B {
		B = append(B, dup(b))
	}
	c := int64(cK1)
	if len(I) > 0 && I[0] >= 0 && I[0] < nCurves {
		c = I[0]
	}
	for _, f := range e.FaultsAt(o.K) {
		switch f.Kind {
		case "int":
			if f.N >= len(I) {
				continue
			}
			I[f.N] = f.A
			if o.N == "Stream" || o.N == "ShakeSum" { // parameters, not data
				I = append([]int64{}, o.I...)
				continue
			}
			e.Count("fault:int")
			continue
		}
		if f.N < 0 || f.N >= len(B) || o.N == "Stream" && f.N < 3 {
			continue
		}
		switch f.Kind {
		case "len":
			b := make([]byte, f.A)
			r := engine.NewRand("len", f.A, f.B, e.Plan.Idx)
			switch f.B % 4 {
			case 0:
			case 1:
				for i := range b {
					b[i] = 0xff
				}
			case 2: // keeps what there is
				copy(b, r.Bytes(len(b)))
				copy(b, B[f.N])
			default:
				copy(b, r.Bytes(len(b)))
			}
			B[f.N] = b
			e.Count("fault:len")
		case "json":
			B[f.N] = badJSON(B[f.N], f.A, f.B)
			e.Count("fault:json")
		case "point":
			B[f.N] = badPoint(B[f.N], f.A, f.B)
			e.Count("fault:point")
		default:
			var peer []byte
			if len(B) > 1 {
				peer = B[(f.N+1)%len(B)]
			}
			B[f.N] = applyWire(e, c, B[f.N], peer, f)
		}
	}
	return
}

// curveTyped are the services whose first integer says which curve they work on.
var curveTyped = func() map[string]bool {
	m := map[string]bool{}
	for _, n := range []string{"GenPubkey", "Signature", "Verify", "AggregateSignatures", "Encryption", "Decryption", "KeyAgreement_initiator_step1", "KeyAgreement_initiator_step2",
		"KeyAgreement_responder_step1", "KeyAgreement_responder_ElGamal_step1", "KeyAgreement_responder_step2", "Point_mulBaseG", "Point_mulBaseG_add", "Point_add", "Point_mul",
		"PointCompress", "PointDecompress", "RecoverPubkey", "GetCurveOrder", "MulBaseG_Add", "Add", "Mul"} {
		m[n] = true
	}
	return m
}()

func knownCurve(I []int64) bool {
	if len(I) == 0 {
		return false
	}
	for _, c := range curves {
		if c.id == curveID(I[0]) {
			return true
		}
	}
	return false
}

func (robustProp) Exec(e *engine.Env) {
	n := int64(0)
	s := e.Solo(20_000_000_000, func() {
		for _, o := range e.Plan.Ops {
			if serviceByName[o.N] == nil {
				continue
			}
			I, B := operands(e, o)
			dev := e.NewEntropy(fmt.Sprint("c", o.K), e.FaultsAt(o.K))
			dev.Install()
			var res Res
			done := false
			o2 := o
			o2.I = I
			catch(e, "robust", o2, func() {
				res = do(o.N, I, B)
				done = true
			})
			if !done {
				return
			}
			n++
			e.Log("%s %v %s", o.N, I, res)
			if res.OK {
				if curveTyped[o.N] && !knownCurve(I) {
					e.Fail("robust-unknown-type", "%s reported success (%s) for the unknown curve type %x", o.N, res.Ret, I[0])
				}
				e.Count("succeeded")
				continue
			}
			if curveTyped[o.N] && !knownCurve(I) {
				e.Count("unknown_type")
			}
			e.Count("refused")
			if res.Ret == "infinity" || res.Ret == "false" {
				continue
			}
			for i, b := range res.Outs {
				if len(b) != 0 {
					e.Fail("robust-failed-with-data", "%s %v reported failure (%s) and returned %d bytes as result %d: %s", o.N, I, res.Ret, len(b), i, engine.Short(b))
				}
			}
		}
	})
	settle(e, "robust", s)
	e.Add("calls", n)
	e.Out.Trivial = n == 0
}

func (robustProp) Info() engine.Info {
	return engine.Info{Quick: 400, Thorough: 8000, Chunk: 25, PlainQuick: 16000, PlainThorough: 600000, PlainChunk: 100, QuickSecs: 75, ThoroughSecs: 700, Timeout: 60,
		Rule:        "an episode counts when at least one call ran; distinct = distinct event logs (results of all calls)",
		Real:        []string{"all services of the root package, the exported entry points of eddsa, pasta and bls12_381, the hash packages"},
		Stubs:       []string{"network and storage the operands come from", "entropy device", "thread scheduler (one thread)"},
		Assumptions: []string{"constructors that document a panic for unusable parameters (blake2s.NewMAC, NewSalt) are not called with such parameters", "a call that needs more than the step limit, or one minute, hangs"},
		MinProbes:   map[string]int64{"calls": 5000, "refused": 1000, "succeeded": 1000, "fault:len": 300, "fault:json": 20, "fault:point": 300, "fault:int": 100, "unknown_type": 50},
	}
}
