package props

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	"verifsim/engine"
	"verifsim/ref"
)

// C08: signers send BLS signatures over a faulty network to aggregators, which
// may aggregate aggregates; a verifier checks the result under the sum of the
// public keys.
//
// "sign" I=[scheme] B=[priv, msg]; "agg" I=[record ...]; "verify" I=[record]
// B=[msg].  Faults at an "agg": net-drop/net-dup (N = which contribution),
// net-reorder (A = seed), replace (N, A = kind), wire-* (N).

type aggProp struct{}

func init() { engine.Register(aggProp{}) }

func (aggProp) ID() string { return "C08" }

const (
	repInfinity = iota
	repTorsion  // the contribution plus a point outside the group
	repNegated
	repDoubled // twice the contribution
	repOther   // another signer's contribution
	repRandom  // a random member of the group
	repG1      // a public key sent in place of a signature
	nRep
)

func (aggProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C08", seed, idx)
	p := &engine.Plan{Prop: "C08", Seed: seed, Idx: idx, Kind: "aggregate"}
	c := int64(cNul)
	if r.Intn(5) == 0 {
		c = cAug
	}
	n := 1 + r.Intn(5)
	if r.Intn(8) == 0 {
		n = 1 + r.Intn(16)
	}
	if r.Intn(40) == 0 {
		n = 16 + r.Intn(25)
	}
	msg := genMsg(r, c)
	k := 0
	var recs []int64
	var privs [][]byte
	for i := 0; i < n; i++ {
		k++
		priv := genKey(r, c)
		if i > 0 {
			switch r.Intn(16) {
			case 0: // the same signer twice
				priv = privs[r.Intn(len(privs))]
			case 1: // keys that cancel
				d := new(big.Int).SetBytes(privs[r.Intn(len(privs))])
				priv = ref.B32(new(big.Int).Sub(ref.BlsR, d))
			}
		}
		privs = append(privs, priv)
		m := msg
		if r.Intn(16) == 0 {
			m = flipOne(r, msg)
		}
		p.Ops = append(p.Ops, engine.Op{N: "sign", K: k, I: []int64{c}, B: h3(priv, m)})
		recs = append(recs, int64(k))
	}
	faulty := func(k, n int) {
		if r.Intn(3) > 0 {
			return
		}
		i := r.Intn(n)
		f := engine.Fault{Kind: "replace", N: i, A: int64(r.Intn(nRep)), B: int64(r.Intn(16))}
		switch r.Intn(5) {
		case 0:
			f.Kind = "net-drop"
		case 1:
			f.Kind = "net-dup"
		case 2, 3:
			f = genWire(r, k, i, c)
		}
		f.At = k
		p.Faults = append(p.Faults, f)
	}
	group := func(pool []int64) int64 {
		for len(pool) > 1 || r.Intn(6) == 0 {
			m := 1 + r.Intn(len(pool))
			if len(pool) > 1 && m == 1 && r.Intn(2) == 0 {
				m = 2
			}
			perm := append([]int64{}, pool...)
			for i := range perm {
				j := i + r.Intn(len(perm)-i)
				perm[i], perm[j] = perm[j], perm[i]
			}
			k++
			p.Ops = append(p.Ops, engine.Op{N: "agg", K: k, I: append([]int64{}, perm[:m]...)})
			faulty(k, m)
			if r.Intn(3) == 0 {
				p.Faults = append(p.Faults, engine.Fault{Kind: "net-reorder", At: k, A: int64(r.Intn(1000))})
			}
			pool = append(perm[m:], int64(k))
		}
		return pool[0]
	}
	for t := 1 + r.Intn(2); t > 0; t-- {
		g := group(recs)
		k++
		p.Ops = append(p.Ops, engine.Op{N: "verify", K: k, I: []int64{g}, B: h3(msg)})
	}
	if r.Intn(20) == 0 {
		k++
		p.Ops = append(p.Ops, engine.Op{N: "agg", K: k, I: nil})
	}
	return p
}

type aggRec struct {
	b       []byte
	c       int64
	count   map[int64]int // signer record -> how often it is in
	tainted bool          // some byte of some contribution was changed
}

func (aggProp) Exec(e *engine.Env) {
	recs := map[int64]*aggRec{}
	type signer struct {
		p   *party
		msg []byte
	}
	signers := map[int64]*signer{}
	var order []int64
	checks := int64(0)
	s := e.Solo(40_000_000_000, func() {
		for _, o := range e.Plan.Ops {
			o := o
			catch(e, "agg", o, func() {
				switch o.N {
				case "sign":
					c := in(o.I, 0)
					p := newParty(c, o.B[0])
					if p.d == nil || len(o.B) < 2 {
						return
					}
					res := do("Signature", []int64{c}, [][]byte{dup(o.B[0]), nil, dup(o.B[1])})
					e.Log("sign %v", res)
					if !res.OK {
						e.Fail("agg-sign", "BLS signing of a valid message failed: %s", res.Ret)
						return
					}
					recs[int64(o.K)] = &aggRec{at(res.Outs, 0), c, map[int64]int{int64(o.K): 1}, false}
					signers[int64(o.K)] = &signer{p, o.B[1]}
					order = append(order, int64(o.K))
				case "agg":
					aggregateOp(e, o, recs)
				case "verify":
					r := recs[in(o.I, 0)]
					if r == nil || len(o.B) < 1 {
						return
					}
					// the sum of the keys of everyone who was to sign
					d := new(big.Int)
					all, exact := true, true
					for _, k := range order {
						d.Add(d, signers[k].p.d)
						all = all && bytes.Equal(signers[k].msg, o.B[0])
						exact = exact && r.count[k] == 1
					}
					d.Mod(d, ref.BlsR)
					pub := ref.BlsPub(d)
					want := []byte(nil)
					if d.Sign() != 0 {
						want = ref.BlsSign(r.c == cAug, d, o.B[0])
					}
					res := do("Verify", []int64{r.c}, [][]byte{pub, nil, dup(o.B[0]), dup(r.b)})
					e.Log("verify %s %s", res.Ret, engine.Short(r.b))
					checks++
					if ok := want != nil && bytes.Equal(want, r.b); ok != res.OK {
						e.Fail("agg-verdict", "an aggregate of %d signers (contributions %s, altered %v) is answered %s under the sum of the keys", len(order), counts(r.count, order), r.tainted, res.Ret)
					} else if ok {
						e.Count("accepted")
					} else {
						e.Count("rejected")
					}
					// the same by what happened to the contributions
					if r.c == cNul && all && exact && !r.tainted && d.Sign() != 0 && !res.OK {
						e.Fail("agg-complete", "the complete aggregate of %d signers is not accepted under the sum of their keys", len(order))
					}
				}
			})
		}
	})
	settle(e, "agg", s)
	e.Add("verifications", checks)
	e.Out.Trivial = len(recs) == 0
}

func counts(m map[int64]int, order []int64) string {
	var o []int
	for _, k := range order {
		o = append(o, m[k])
	}
	return fmt.Sprint(o)
}

func aggregateOp(e *engine.Env, o engine.Op, recs map[int64]*aggRec) {
	type part struct {
		b []byte
		r *aggRec
	}
	var parts []part
	c := int64(cNul)
	tainted := false
	var keys []int
	for k := range recs {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	reorder := int64(-1)
	for i, k := range o.I {
		r := recs[k]
		if r == nil {
			continue
		}
		c = r.c
		b := r.b
		copies := 1
		for _, f := range e.FaultsAt(o.K) {
			if f.Kind == "net-reorder" {
				reorder = f.A
				continue
			}
			if f.N != i {
				continue
			}
			before := b
			other := recs[int64(keys[int(f.B)%len(keys)])]
			switch f.Kind {
			case "net-drop":
				copies = 0
				e.Count("fault:net-drop")
			case "net-dup":
				copies = 2
				e.Count("fault:net-dup")
			case "replace":
				e.Count("fault:replace")
				p, ok := ref.G2Parse(b, false)
				if !ok {
					continue
				}
				switch f.A {
				case repInfinity:
					b = (*ref.G2)(nil).Bytes()
				case repTorsion:
					b = p.Add(ref.BlsTorsionG2([]byte{byte(f.B)})).Bytes()
				case repNegated:
					b = p.Neg().Bytes()
				case repDoubled:
					b = p.Add(p).Bytes()
				case repOther:
					b = other.b
				case repRandom:
					b = ref.BlsSign(false, big.NewInt(f.B+2), []byte("elsewhere"))
				case repG1:
					b = append(ref.BlsPub(big.NewInt(f.B+2)), ref.BlsPub(big.NewInt(f.B+3))...)
				}
			default:
				b = applyWire(e, c, b, other.b, f)
			}
			if !bytes.Equal(b, before) {
				tainted = true
			}
		}
		for ; copies > 0; copies-- {
			parts = append(parts, part{b, r})
		}
	}
	if reorder >= 0 {
		r := engine.NewRand("C08-order", e.Plan.Seed, e.Plan.Idx, o.K, reorder)
		for i := range parts {
			j := i + r.Intn(len(parts)-i)
			parts[i], parts[j] = parts[j], parts[i]
		}
		e.Count("fault:net-reorder")
	}
	// what the parts stand for
	out := &aggRec{c: c, count: map[int64]int{}, tainted: tainted}
	var sum *ref.G2
	decodes, group, inf := true, true, false
	var args [][]byte
	for _, p := range parts {
		args = append(args, dup(p.b))
		q, ok := ref.G2Parse(p.b, false)
		decodes = decodes && ok
		if ok {
			sum = sum.Add(q)
			inf = inf || q == nil
			if q.Mul(ref.BlsR) != nil {
				group = false
			}
		}
		for k, v := range p.r.count {
			out.count[k] += v
		}
		out.tainted = out.tainted || p.r.tainted
	}
	res := do("AggregateSignatures", []int64{c}, args)
	got := at(res.Outs, 0)
	e.Log("agg %v", res)
	e.Count("aggregations")
	if !res.OK {
		if len(got) != 0 {
			e.Fail("agg-failed-with-data", "AggregateSignatures reported failure and returned %d bytes", len(got))
		}
		if len(parts) > 0 && decodes && group && !inf {
			e.Fail("agg-refused", "AggregateSignatures refused %d well-formed contributions", len(parts))
		}
		e.Count("refused")
		return
	}
	if len(parts) == 0 {
		e.Fail("agg-empty", "AggregateSignatures of nothing succeeded")
		return
	}
	if decodes {
		if !bytes.Equal(got, sum.Bytes()) {
			e.Fail("agg-sum", "AggregateSignatures of %d contributions is not their sum: %s instead of %s", len(parts), engine.Short(got), engine.Short(sum.Bytes()))
			return
		}
	} else {
		e.Count("accepted_undecodable")
		if len(got) == 96 {
			if _, ok := ref.G2Parse(got, true); ok {
				e.Fail("agg-undecodable", "AggregateSignatures turned a contribution that is not a point into %s", engine.Short(got))
			}
		}
	}
	out.b = got
	recs[int64(o.K)] = out
}

func (aggProp) Info() engine.Info {
	return engine.Info{Quick: 24, Thorough: 1000, Chunk: 2, PlainQuick: 2200, PlainThorough: 120000, PlainChunk: 20, QuickSecs: 60, ThoroughSecs: 700, Timeout: 200,
		Rule:        "an episode counts when at least one signer signed; distinct = distinct event logs",
		Real:        []string{"Signature, AggregateSignatures and Verify for both BLS12-381 schemes, with the pairing libraries below them"},
		Stubs:       []string{"network between signers, aggregators and verifier"},
		Assumptions: []string{"the reference BLS12-381 groups, hash to curve and signing (math/big) are correct", "a BLS signature is unique, so an aggregate is right exactly when it equals the signature of the summed key"},
		MinProbes:   map[string]int64{"accepted": 200, "rejected": 100, "aggregations": 500, "fault:net-drop": 10, "fault:net-dup": 10, "fault:replace": 50, "fault:net-reorder": 50},
	}
}
