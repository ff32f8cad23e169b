package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"slices"
	"sort"
	"sync"
	"time"

	"verifsim/engine"
	"verifsim/simrt"
)

// C01: threads of one process make calls, sharing operand buffers, after a
// history of earlier calls (or none: the first calls of the process).  Every
// call must return what it returns alone in a fresh process with the same
// operands and the same entropy, which is what the oracle runs.
//
// Operations with T=0 are the history, run one after another by one thread;
// T=1.. are concurrent threads.  Faults as in C10.

type historyProp struct{}

func init() { engine.Register(historyProp{}) }

func (historyProp) ID() string { return "C01" }

// A theme is a family of calls that share code, and with it any hidden state.
type theme struct {
	curve int64
	names []string
	slow  int // relative cost
}

var sm2Names = []string{"Signature", "Verify", "Encryption", "Decryption", "KeyAgreement_initiator_step1", "KeyAgreement_initiator_step2", "KeyAgreement_responder_step1",
	"KeyAgreement_responder_ElGamal_step1", "RecoverPubkey", "GenPubkey", "Point_mul", "Point_add", "Point_mulBaseG", "Point_mulBaseG_add", "PointDecompress", "PointCompress", "Add", "Mul", "MulBaseG_Add"}
var weNames = []string{"Signature", "Signature", "Verify", "Verify", "RecoverPubkey", "RecoverPubkey", "GenPubkey", "Point_mul", "Point_add", "Point_mulBaseG", "Point_mulBaseG_add", "PointDecompress", "PointCompress", "GetCurveOrder", "Add", "Mul", "MulBaseG_Add"}
var hashNames = []string{"Hash", "Hmac", "Stream", "Stream", "Sm3Sum", "Sha3Sum", "ShakeSum"}

var themes = []theme{
	{cK1, weNames, 1}, {cR1, weNames, 1}, {cSM2, sm2Names, 1},
	{cEdN, []string{"Signature", "Verify", "GenPubkey", "eddsa.sign", "eddsa.verify", "eddsa.genPub", "eddsa.IsPoint", "eddsa.convert"}, 1},
	{cEd, []string{"Signature", "Verify", "GenPubkey", "Point_add", "Point_mulBaseG", "Point_mulBaseG_add", "CURVE25519_convert_Ed_to_X", "eddsa.sign", "eddsa.verify", "eddsa.genPub"}, 1},
	{cX, []string{"Signature", "Verify", "GenPubkey", "CURVE25519_convert_X_to_Ed", "eddsa.convert", "eddsa.sign", "eddsa.verify"}, 1},
	{cKCDSA, []string{"Signature", "Verify", "GenPubkey", "eddsa.sign", "eddsa.verify"}, 1},
	{cNul, []string{"Signature", "Verify", "GenPubkey", "AggregateSignatures", "Point_mulBaseG", "Point_mulBaseG_add", "bls12_381.Sign", "bls12_381.Verify", "bls12_381.AggregateSignatures", "bls12_381.G1", "bls12_381.G2", "bls12_381.ScalarMultBaseAdd", "bls12_381.GenPublicKey"}, 4},
	{cAug, []string{"Signature", "Verify", "GenPubkey", "AggregateSignatures"}, 4},
	{cPasta, []string{"Signature", "Verify", "GenPubkey", "Point_add", "Point_mul", "Point_mulBaseG", "Point_mulBaseG_add", "PointDecompress", "pasta.PointDecompress", "pasta.PointAdd", "pasta.PointMul", "pasta.Sign", "pasta.Verify", "pasta.NewMinaMessage", "pasta.PointMulBaseGAdd", "pasta.Negate"}, 2},
	{-1, hashNames, 0}, {-1, hashNames, 0}, {-1, hashNames, 0}, {-1, hashNames, 0},
	{-1, callKinds, 2},
}

// genRelated draws a call, usually related to an earlier one.
func genRelated(r *engine.Rand, th theme, seen []engine.Op) engine.Op {
	if len(seen) == 0 || r.Intn(5) < 2 {
		return genCallOn(r, th.names[r.Intn(len(th.names))], th.curve)
	}
	o := seen[r.Intn(len(seen))]
	n := engine.Op{N: o.N, I: append([]int64{}, o.I...), B: append([]engine.Hex{}, o.B...)}
	switch r.Intn(13) {
	case 11: // one operand negated: a point's or a scalar's twin
		if len(n.B) > 0 {
			i := r.Intn(len(n.B))
			n.B[i] = negated(at0(o.I), n.B[i])
		}
	case 12: // two operands exchanged, or one in both places
		if len(n.B) > 1 && n.N != "Stream" {
			i, j := r.Intn(len(n.B)), r.Intn(len(n.B))
			if r.Intn(2) == 0 {
				n.B[i] = dup(n.B[j])
			} else {
				n.B[i], n.B[j] = n.B[j], n.B[i]
			}
		}
	case 9, 10: // a field of one operand out of range
		if len(n.B) > 0 {
			i := r.Intn(len(n.B))
			if x := dup(n.B[i]); len(x) >= 32 {
				c := at0(o.I)
				if c < 0 || c >= nCurves {
					c = int64(r.Intn(nCurves))
				}
				copy(x[32*r.Intn(len(x)/32)+len(x)%32%2*r.Intn(2):], special(r, c))
				n.B[i] = x
			}
		}
	case 0, 1: // the same call again
	case 2: // one bit of one operand
		if len(n.B) > 0 {
			i := r.Intn(len(n.B))
			n.B[i] = flipOne(r, n.B[i])
		}
	case 3, 4: // one operand from another call of the same kind
		x := genCallOn(r, o.N, at0(o.I))
		if len(x.B) == len(n.B) && len(n.B) > 0 {
			i := r.Intn(len(n.B))
			n.B[i] = x.B[i]
		}
	case 5: // the same operands on another curve or algorithm
		if len(n.I) > 0 && n.I[0] >= 0 && n.I[0] < nCurves {
			n.I[0] = int64(engine.PickInt(r, cK1, cR1, cSM2, r.Intn(nCurves)))
		} else if len(n.I) > 0 && n.N == "Hash" {
			n.I[0] = pick64(r, hashAlgs)
		}
	case 6: // torn operand
		if len(n.B) > 0 {
			i := r.Intn(len(n.B))
			n.B[i] = dup(n.B[i][:r.Intn(len(n.B[i])+1)])
			if n.N == "Stream" && i < 3 {
				n.B[i] = o.B[i]
			}
		}
	case 7: // longer operand with the same beginning
		if len(n.B) > 0 {
			i := len(n.B) - 1
			m := 1 + r.Intn(64)
			if r.Intn(3) == 0 { // beyond what a length field holds
				i, m = r.Intn(len(n.B)), engine.PickInt(r, 256, 8191, 8192, 8200, 65536)
			}
			n.B[i] = append(dup(n.B[i]), r.Bytes(m)...)
		}
	case 8: // the operands of one call for another service
		m := th.names[r.Intn(len(th.names))]
		if x := genCallOn(r, m, at0(o.I)); len(x.B) > 0 && m != "Stream" {
			n = x
			i := r.Intn(len(n.B))
			if len(o.B) > 0 {
				n.B[i] = o.B[r.Intn(len(o.B))]
			}
		}
	}
	return n
}

// A hotCall is a call that touches package-level state which changes.
type hotCall struct {
	N string `json:"n"`
	C int64  `json:"c"`
}

// Focus lists, for every place in the code that touches such state, the calls
// that get there.
func (h historyProp) Focus() string {
	at := map[int][]hotCall{}
	done := map[hotCall]bool{}
	for _, th := range themes {
		for _, n := range th.names {
			hc := hotCall{n, th.curve}
			if done[hc] {
				continue
			}
			done[hc] = true
			hit := map[int]int{}
			for i := 0; i < 2; i++ {
				o := genCallOn(engine.NewRand("focus", uint64(i), len(done)), n, th.curve)
				if o.N == "Stream" {
					o.I[2] = int64(len(o.B[3]))
				}
				p := &engine.Plan{Prop: "C01", Ops: []engine.Op{o}}
				e := engine.NewEnv(p)
				simrt.HotHit = hit
				h.Solo(e)
				simrt.HotHit = nil
			}
			for s := range hit {
				at[s] = append(at[s], hc)
			}
		}
	}
	seen := map[string]bool{}
	var keys []int
	for s := range at {
		keys = append(keys, s)
	}
	sort.Ints(keys)
	var groups [][]hotCall
	for _, s := range keys {
		b, _ := json.Marshal(at[s])
		if !seen[string(b)] {
			seen[string(b)] = true
			groups = append(groups, at[s])
		}
	}
	if len(groups) == 0 {
		return ""
	}
	b, _ := json.Marshal(groups)
	return string(b)
}

// The driver sets the variable after this package is initialised.
var focusGroups = sync.OnceValue(func() (g [][]hotCall) {
	json.Unmarshal([]byte(os.Getenv("SIM_FOCUS")), &g)
	return
})

func at0(i []int64) int64 {
	if len(i) > 0 {
		return i[0]
	}
	return -1
}

func (historyProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C01", seed, idx)
	p := &engine.Plan{Prop: "C01", Seed: seed, Idx: idx, Kind: "concurrent", P: map[string]int64{"share": int64(r.Intn(2))}}
	th := themes[r.Intn(len(themes))]
	var seen []engine.Op
	k := 0
	add := func(t int) {
		o := genRelated(r, th, seen)
		k++
		o.K, o.T = k, t
		if o.N == "Stream" {
			o.I[2] = int64(r.Intn(len(o.B[3]) + 1))
		}
		seen = append(seen, o)
		p.Ops = append(p.Ops, o)
		switch r.Intn(12) {
		case 0:
			p.Faults = append(p.Faults, genRng(r, k)...)
		case 1, 2:
			if len(o.B) > 0 {
				p.Faults = append(p.Faults, genWire(r, k, r.Intn(len(o.B)), max(0, min(at0(o.I), nCurves-1))))
			}
		case 4:
			if len(o.B) > 0 && o.N != "Stream" {
				f := engine.Fault{Kind: "len", At: k, N: r.Intn(len(o.B)), A: int64(oddLens[r.Intn(len(oddLens))]), B: int64(r.Intn(1000))}
				if r.Intn(3) == 0 {
					f.A = int64(oddLens[len(oddLens)-1-r.Intn(5)])
				}
				p.Faults = append(p.Faults, f)
			}
		case 3:
			if len(o.B) > 0 {
				p.Faults = append(p.Faults, engine.Fault{Kind: "point", At: k, N: r.Intn(len(o.B)), A: int64(r.Intn(nBadPoint)), B: int64(r.Intn(1000))})
			}
		}
	}
	if j := idx - engine.PlainBase; j >= 0 && (j < 12*len(themes) && j%2 == 0 || r.Intn(16) == 0) {
		// a long life of the process between two looks at the same calls
		p.Kind = "long-history"
		if j < 12*len(themes) {
			th = themes[j/2%len(themes)]
		}
		for n := 2 + r.Intn(3); n > 0; n-- {
			add(0)
		}
		p.Faults = nil
		early := append([]engine.Op{}, p.Ops...)
		for n := 1 + r.Intn(2); n > 0; n-- {
			most := 500
			if th.slow == 0 {
				most = 6000
			} else if th.slow == 4 {
				most = 80
			}
			o := early[r.Intn(len(early))]
			mode := r.Intn(4)
			if o.N == "Stream" && mode == 1 {
				mode = 0
			}
			f := engine.Op{N: "fill", I: append([]int64{int64(mode), int64(min(most, 16*r.Intn(6)+engine.LogUniform(r, most))), th.curve, int64(r.U64() >> 2)}, o.I...), B: append([]engine.Hex{engine.Hex(o.N)}, o.B...)}
			k++
			f.K = k
			p.Ops = append(p.Ops, f)
		}
		for _, o := range early {
			k++
			o.K = k
			p.Ops = append(p.Ops, o)
		}
		for n := 1 + r.Intn(3); n > 0; n-- {
			add(0)
		}
		return p
	}
	if idx >= engine.PlainBase {
		p.Kind = "history"
		for n := 3 + r.Intn(14); n > 0; n-- {
			add(0)
		}
		return p
	}
	if r.Intn(2) == 0 { // a few calls, again and again in every thread
		p.Kind = "duel"
		if th.curve < 0 && th.slow > 0 {
			th = themes[r.Intn(len(themes)-1)]
		}
		first := hotCall{th.names[r.Intn(len(th.names))], th.curve}
		var group []hotCall
		if f := focusGroups(); len(f) > 0 && r.Intn(5) < 2 {
			group = f[r.Intn(len(f))]
			first = group[r.Intn(len(group))]
			for _, x := range themes {
				if x.curve == first.C && slices.Contains(x.names, first.N) {
					th = x
					break
				}
			}
		}
		base := []engine.Op{genCallOn(r, first.N, first.C)}
		for n := 1 + r.Intn(2); n > 0; n-- {
			o := hotCall{first.N, first.C}
			if len(group) > 0 && r.Intn(3) == 0 {
				o = group[r.Intn(len(group))]
			}
			x := genCallOn(r, o.N, o.C)
			if r.Intn(2) == 0 {
				x = genRelated(r, th, base)
			}
			base = append(base, x)
		}
		for t := 1; t <= 2+r.Intn(2); t++ {
			for n := 1 + r.Intn(4); n > 0; n-- {
				o := base[r.Intn(len(base))]
				k++
				o.K, o.T = k, t
				p.Ops = append(p.Ops, o)
			}
		}
		p.Sched = schedFor(r, th)
		return p
	}
	if r.Intn(4) == 0 {
		for n := 1 + r.Intn(2); n > 0; n-- {
			add(0)
		}
	}
	nt := 2
	if r.Intn(4) == 0 {
		nt = 3 + r.Intn(2)
	}
	for t := 1; t <= nt; t++ {
		m := 1 + r.Intn(2)
		if th.slow == 0 {
			m = 1 + r.Intn(4)
		}
		for ; m > 0; m-- {
			add(t)
		}
	}
	p.Sched = schedFor(r, th)
	return p
}

func schedFor(r *engine.Rand, th theme) engine.Sched {
	s := engine.Sched{Seed: r.U64(), MeanRun: int64(engine.PickInt(r, 300, 3000, 30000, 300000, 3000000)), GlobalPct: engine.PickInt(r, 0, 0, 2, 10, 40, 80)}
	if th.slow == 0 {
		s.MeanRun = int64(engine.PickInt(r, 3, 20, 200, 2000))
	}
	return s
}

// one runs one call and describes everything it returned.
func (historyProp) one(e *engine.Env, o engine.Op, B [][]byte, I []int64) (out string, ok bool) {
	defer func() {
		if v := recover(); v != nil {
			if a, isA := v.(simrt.Abort); isA {
				if a.Why == "deadlock" || len(a.Why) > 4 && a.Why[:4] == "step" {
					panic(a)
				}
				out = "no progress: " + a.Why
				return
			}
			out = "panic: " + engine.PanicSig(fmt.Sprint(v))
		}
	}()
	res := do(o.N, I, B)
	return res.String(), res.OK
}

// fill makes many calls whose results nobody looks at: all different (0), like
// one earlier call with an operand exchanged (1), that call again (2), or any of
// its family (3).
func (h historyProp) fill(e *engine.Env, o engine.Op) {
	name, c, seed := string(o.B[0]), o.I[2], uint64(o.I[3])
	if serviceByName[name] == nil {
		return
	}
	var th theme
	for _, x := range themes {
		if x.curve == c && slices.Contains(x.names, name) {
			th = x
		}
	}
	for i := int64(0); i < o.I[1]; i++ {
		r := engine.NewRand("fill", seed, int(i))
		x := engine.Op{N: name, I: append([]int64{}, o.I[4:]...), B: append([]engine.Hex{}, o.B[1:]...)}
		switch {
		case o.I[0] == 0:
			x = genCallOn(r, name, c)
		case o.I[0] == 1 && len(x.B) > 0:
			j := int(i) % len(x.B)
			x.B[j] = r.Bytes(len(x.B[j]))
			if len(x.B[j]) == 32 {
				x.B[j][0] = 0
			}
		case o.I[0] == 3 && len(th.names) > 0:
			x = genCallOn(r, th.names[r.Intn(len(th.names))], c)
		}
		if x.N == "Stream" {
			x.I[2] = int64(len(x.B[3]) / 2)
		}
		var B [][]byte
		for _, b := range x.B {
			B = append(B, b)
		}
		h.one(e, x, B, x.I)
		e.Count("filler_calls")
	}
}

func (h historyProp) Solo(e *engine.Env) string {
	o := e.Plan.Ops[0]
	I, B := operands(e, o)
	e.NewEntropy(fmt.Sprint("c", o.K), e.FaultsAt(o.K)).Install()
	s, _ := h.one(e, o, B, I)
	return s
}

func (h historyProp) Exec(e *engine.Env) {
	results := map[int]string{}
	succeeded := map[int]bool{}
	dev := map[int]*engine.Entropy{}
	engine.UseEntropy(func(t int) *engine.Entropy {
		if d := dev[t]; d != nil {
			return d
		}
		return e.NewEntropy("none", nil)
	})
	intern := map[string][]byte{}
	type call struct {
		o engine.Op
		I []int64
		B [][]byte
	}
	threads := map[int][]call{}
	var order []int
	for _, o := range e.Plan.Ops {
		if o.N == "fill" && o.T == 0 && len(o.I) >= 4 && len(o.B) >= 1 {
			threads[0] = append(threads[0], call{o: o})
			continue
		}
		if serviceByName[o.N] == nil {
			continue
		}
		I, B := operands(e, o)
		if e.Plan.P["share"] == 1 {
			for i, b := range B {
				if b == nil {
					continue
				}
				if x, ok := intern[string(b)]; ok {
					B[i] = x
				} else {
					intern[string(b)] = b
				}
			}
		}
		if _, ok := threads[o.T]; !ok && o.T > 0 {
			order = append(order, o.T)
		}
		threads[o.T] = append(threads[o.T], call{o, I, B})
	}
	body := func(cs []call) func() {
		return func() {
			t := simrt.CurTask()
			for _, c := range cs {
				dev[t] = e.NewEntropy(fmt.Sprint("c", c.o.K), e.FaultsAt(c.o.K))
				if c.o.N == "fill" {
					h.fill(e, c.o)
					continue
				}
				s, ok := h.one(e, c.o, c.B, c.I)
				results[c.o.K] = s
				succeeded[c.o.K] = ok
			}
		}
	}
	if len(threads[0]) > 0 {
		settle(e, "history", e.Solo(20_000_000_000, body(threads[0])))
	}
	if len(order) > 0 {
		var fns []func()
		for _, t := range order {
			fns = append(fns, body(threads[t]))
		}
		s := e.RunSim(nil, 20_000_000_000, fns...)
		settle(e, "history", s)
		if s.Switches > 1 {
			e.Count("interleaved")
		}
		e.Add("package_variable_switches", int64(s.GSwitches))
	}
	cache := map[string]string{}
	n, compared := 0, 0
	for _, o := range e.Plan.Ops {
		got, ok := results[o.K]
		if !ok {
			continue
		}
		n++
		e.Log("%d %s %v %s", o.T, o.N, o.I, got)
		if succeeded[o.K] {
			e.Count("succeeded")
		}
		q := &engine.Plan{Prop: "C01", Seed: e.Plan.Seed, Idx: e.Plan.Idx, Kind: "solo", Ops: []engine.Op{o}, Faults: e.FaultsAt(o.K)}
		key := fmt.Sprint(o.N, o.I, o.B, q.Faults)
		if usesRng(o.N) || len(q.Faults) > 0 {
			key += fmt.Sprint(o.K)
		}
		want, ok := cache[key]
		if !ok {
			var err error
			want, err = engine.FreshSolo(q, 60*time.Second)
			if err != nil {
				e.Count("oracle_unavailable")
				continue
			}
			cache[key] = want
		}
		compared++
		if got != want {
			e.Fail("history-changed-result", "%s %v (thread %d) returned %s; alone in a fresh process it returns %s", o.N, o.I, o.T, clip(got), clip(want))
		}
	}
	e.Add("calls", int64(n))
	e.Add("compared", int64(compared))
	e.Out.Trivial = compared < 2
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func usesRng(n string) bool {
	switch n {
	case "Signature", "Encryption", "KeyAgreement_initiator_step1", "KeyAgreement_responder_step1", "eddsa.sign", "pasta.Sign", "bls12_381.Sign":
		return true
	}
	return false
}

func (historyProp) Info() engine.Info {
	return engine.Info{Quick: 3000, Thorough: 80000, Chunk: 1, PlainQuick: 1500, PlainThorough: 50000, PlainChunk: 1, QuickSecs: 80, ThoroughSecs: 700, Timeout: 120,
		Rule:        "an episode counts when at least two calls were compared with their solo run; distinct = distinct event logs (schedule and results)",
		Real:        []string{"all services of the root package, the exported entry points of eddsa, pasta and bls12_381, the hash packages, at statement granularity"},
		Stubs:       []string{"thread scheduler", "entropy device (one stream per call)", "sync primitives"},
		Assumptions: []string{"switches happen between statements; a write that tears inside one statement or needs a relaxed memory model is out of reach", "the solo run uses the uninstrumented build"},
		MinProbes:   map[string]int64{"calls": 5000, "compared": 5000, "interleaved": 300, "succeeded": 2500, "context_switches": 5000},
	}
}

// negated is the other point with a point's x coordinate, or the negative of a
// scalar.
func negated(c int64, b []byte) []byte {
	o := dup(b)
	cv := curveOf(c)
	switch {
	case len(b) == 33:
		o[0] ^= 1
	case len(b) >= 64 && cv != nil && len(b) <= 65:
		y := o[len(o)-32:]
		v := new(big.Int).Sub(cv.P, new(big.Int).SetBytes(y))
		if v.Sign() >= 0 {
			v.FillBytes(y)
		}
	case len(b) == 48 || len(b) == 96:
		o[0] ^= 0x20
	case len(b) == 32 && (c == cEd || c == cEdN):
		o[31] ^= 0x80
	case len(b) == 32 && c >= 0 && c < nCurves:
		v := new(big.Int).Sub(orderOf(c), new(big.Int).SetBytes(b))
		if v.Sign() > 0 && v.BitLen() <= 256 {
			v.FillBytes(o)
		}
	}
	return o
}
