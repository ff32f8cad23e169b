package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strings"

	"github.com/blocktree/go-owcrypt/bls12_381"
	"github.com/drand/kyber"
	blssig "github.com/drand/kyber/sign/bls"

	"verifsim/engine"
	"verifsim/ref"
)

// ---- C18 ----

// Threads work with the group objects of the pairing suite; each has registers
// of its own and reads the shared ones.  A register is modelled by the group
// element it stands for: its encoding in the reference group and its
// coordinates over independent basis elements.
//
// Groups: 1, 2 and 3 (the target).  A register number below 0 is shared
// (-1, -2, ...), and is only written by thread 0, before the others start.
//
//	new    I=[g, dst, how, seed] B=[msg]   how: 0 Null 1 Base 2 Hash 3 Pick 4 zero value
//	mul    I=[g, dst, src] B=[scalar]      src = 99: the base point
//	add sub I=[g, dst, a, b]; neg set clone I=[g, dst, a]
//	send   I=[g, dst, src]                 faults: wire-*, read-*, write-*, N = 0
//	eq     I=[g, a, b]
//	pair   I=[dst, a, b]; check I=[a, b, c, d]
//
// A "deal" I=[id, t, n, mode] B=[coefficient...] shares a key; "round" T
// I=[id, mode] B=[msg] collects partial signatures: net-drop/net-dup/net-reorder/
// wire-*/stale (N = holder), restart.  mode&1: signatures live in G1.
type suiteProp struct{}

func init() { engine.Register(suiteProp{}) }

func (suiteProp) ID() string { return "C18" }

func (suiteProp) Info() engine.Info {
	return engine.Info{Quick: 1500, Thorough: 60000, Chunk: 10, PlainQuick: 6000, PlainThorough: 400000, PlainChunk: 40, QuickSecs: 60, ThoroughSecs: 700, Timeout: 120,
		Rule:        "an episode counts when at least five group operations or one round of partial signatures ran; distinct = distinct event logs",
		Real:        []string{"bls12_381 Suite, OwcryptG1, OwcryptG2, OwcryptGT, NewScalar, Sign, Verify, AggregateSignatures, bls12_381/bls (groups, maps, pairing), kyber sign/bls on top of them"},
		Stubs:       []string{"network between share holders and collector", "sources and sinks of encodings", "thread scheduler", "cipher stream given to Pick"},
		Assumptions: []string{"the reference groups (math/big) are correct", "points hashed from different messages are independent", "an encoding followed by further bytes may be refused or accepted"},
		MinProbes: map[string]int64{"pairings": 300, "products": 300, "products-true": 100, "encodings": 1000, "refused": 100, "alias": 300, "signed": 50, "few": 5,
			"fault:read-short": 20, "fault:read-error": 5, "fault:write-error": 5, "fault:net-drop": 20, "fault:net-dup": 10, "fault:net-reorder": 10, "fault:stale": 5, "fault:restart": 5},
	}
}

const suiteRegs = 4

// tag of the ciphersuites a message of mode is hashed under
func suiteMsg(mode int64, msg []byte) []byte {
	switch mode >> 1 & 3 {
	case 0:
		return append([]byte(ref.DSTNul), msg...)
	case 1:
		return append([]byte(ref.DSTAug), msg...)
	}
	return msg
}

func (suiteProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C18", seed, idx)
	p := &engine.Plan{Prop: "C18", Seed: seed, Idx: idx, Kind: "suite"}
	p.Sched = engine.Sched{Seed: r.U64(), MeanRun: int64(engine.PickInt(r, 200, 2000, 20000, 200000)), GlobalPct: 10}
	plain := idx >= engine.PlainBase
	if p.Sched.MeanRun < 2000 && !plain && r.Intn(2) == 0 {
		p.Sched.MeanRun *= 10
	}
	k := 0
	add := func(o engine.Op) int {
		k++
		o.K = k
		p.Ops = append(p.Ops, o)
		return k
	}
	msgs := [][]byte{r.Bytes(1 + r.Intn(40)), {}, r.Bytes(engine.LogUniform(r, 300))}
	msg := func() []byte {
		m := msgs[r.Intn(len(msgs))]
		switch r.Intn(4) {
		case 0:
			return append([]byte(ref.DSTNul), m...)
		case 1:
			return append([]byte(ref.DSTAug), m...)
		case 2:
			return append([]byte(ref.DSTNul[:1+r.Intn(len(ref.DSTNul)-1)]), m...)
		}
		return m
	}
	scal := func() engine.Hex {
		if !plain && r.Intn(3) > 0 { // yield points are dear
			return r.Bytes(1 + r.Intn(3))
		}
		switch r.Intn(8) {
		case 0:
			return r.Bytes(r.Intn(49))
		case 1:
			return new(big.Int).Add(ref.BlsR, big.NewInt(int64(r.Intn(5)-2))).Bytes()
		case 2:
			return big.NewInt(int64(r.Intn(4))).Bytes()
		}
		return genTweak(r, cNul, true)
	}
	wire := func(at, n int) {
		for m := 1 + r.Intn(4)/3; m > 0; m-- {
			switch r.Intn(4) {
			case 3:
				p.Faults = append(p.Faults, engine.Fault{Kind: "wire-add", At: at, N: n, A: int64(r.Intn(12))})
			case 0:
				p.Faults = append(p.Faults, genWire(r, at, n, cNul))
			case 1: // the bits with a meaning
				p.Faults = append(p.Faults, engine.Fault{Kind: "wire-flip", At: at, N: n, A: 0, B: int64(5 + r.Intn(3))})
			case 2:
				p.Faults = append(p.Faults, engine.Fault{Kind: "torsion", At: at, N: n, A: int64(r.Intn(1000))})
			}
		}
	}
	threads := 1
	if !plain && r.Intn(3) > 0 {
		threads = 2 + r.Intn(2)
	}
	shared := r.Intn(2) == 0
	if shared {
		for g := int64(1); g <= 2; g++ {
			for i := int64(-1); i >= -2; i-- {
				add(engine.Op{N: "new", I: []int64{g, i, int64(r.Intn(5)), int64(r.U64() >> 1)}, B: h3(msg())})
				if r.Intn(3) > 0 { // not affine
					add(engine.Op{N: "mul", I: []int64{g, i, i}, B: []engine.Hex{scal()}})
				}
			}
		}
	}
	crowd := threads > 1 && shared && r.Intn(2) == 0 // everybody starts with the same point
	deals := r.Intn(3) == 0
	if !plain {
		deals = r.Intn(10) == 0
	}
	if deals {
		t := 1 + r.Intn(3)
		n := t + r.Intn(3)
		if !plain {
			t, n = 1+r.Intn(2), 2
		}
		var b []engine.Hex
		for i := 0; i < t; i++ {
			b = append(b, scal())
		}
		add(engine.Op{N: "deal", I: []int64{0, int64(t), int64(n), int64(r.Intn(2))}, B: b})
	}
	for t := 1; t <= threads; t++ {
		ops := 10 + r.Intn(40)
		if !plain {
			ops = 2 + r.Intn(6)
			if threads > 1 {
				ops = 1 + r.Intn(4)
			}
		}
		addT := func(o engine.Op) int { o.T = t; return add(o) }
		reg := func(w bool) int64 {
			if !w && shared && r.Intn(3) == 0 {
				return int64(-1 - r.Intn(2))
			}
			return int64(r.Intn(suiteRegs))
		}
		if crowd {
			g := int64(1 + int(seed+uint64(idx))%2)
			switch r.Intn(8) {
			case 0:
				addT(engine.Op{N: "eq", I: []int64{g, -1, -1}})
			case 1:
				addT(engine.Op{N: "add", I: []int64{g, 0, -1, -2}})
			case 2:
				addT(engine.Op{N: "pair", I: []int64{0, -1, -1}})
			case 3:
				addT(engine.Op{N: "check", I: []int64{-1, -1, -1, -1}})
			default:
				addT(engine.Op{N: "send", I: []int64{g, 0, -1}})
			}
		}
		for g := int64(1); g <= 2; g++ {
			for m := 1 + r.Intn(2); m > 0 && !crowd; m-- {
				addT(engine.Op{N: "new", I: []int64{g, reg(true), int64(r.Intn(5)), int64(r.U64() >> 1)}, B: h3(msg())})
			}
		}
		for ; ops > 0; ops-- {
			g := int64(1 + r.Intn(2))
			if r.Intn(6) == 0 {
				g = 3
			}
			reg := func(w bool) int64 {
				if g == 3 {
					return int64(r.Intn(suiteRegs))
				}
				return reg(w)
			}
			switch x := r.Intn(24); {
			case x < 2 && g != 3:
				addT(engine.Op{N: "new", I: []int64{g, reg(true), int64(r.Intn(5)), int64(r.U64() >> 1)}, B: h3(msg())})
			case x < 2:
				addT(engine.Op{N: "new", I: []int64{g, reg(true), int64(4 * r.Intn(2)), 0}})
			case x < 6 && g != 3:
				src := reg(false)
				if r.Intn(5) == 0 {
					src = 99
				}
				addT(engine.Op{N: "mul", I: []int64{g, reg(true), src}, B: []engine.Hex{scal()}})
			case x < 10:
				addT(engine.Op{N: "add", I: []int64{g, reg(true), reg(false), reg(false)}})
			case x < 12:
				addT(engine.Op{N: "sub", I: []int64{g, reg(true), reg(false), reg(false)}})
			case x < 13 && g != 3:
				addT(engine.Op{N: "neg", I: []int64{g, reg(true), reg(false)}})
			case x < 15:
				addT(engine.Op{N: engine.Pick(r, "set", "clone"), I: []int64{g, reg(true), reg(false)}})
			case x < 18:
				at := addT(engine.Op{N: "send", I: []int64{g, reg(true), reg(false)}})
				switch r.Intn(5) {
				case 0, 1:
					wire(at, 0)
				case 2:
					for m := 1 + r.Intn(3); m > 0; m-- {
						p.Faults = append(p.Faults, engine.Fault{Kind: engine.Pick(r, "read-short", "read-short", "read-empty", "read-error", "read-partial-error", "read-eof-with-data"), At: at, N: r.Intn(3), A: int64(r.Intn(1000))})
					}
				case 3:
					p.Faults = append(p.Faults, engine.Fault{Kind: engine.Pick(r, "write-error", "write-short"), At: at, A: int64(r.Intn(1000))})
				}
			case x < 19:
				addT(engine.Op{N: "eq", I: []int64{g, reg(false), reg(false)}})
			case x < 21:
				g = 1
				addT(engine.Op{N: "pair", I: []int64{int64(r.Intn(suiteRegs)), reg(false), reg(false)}})
			default:
				g = 1
				a, b, c, d := reg(false), reg(false), reg(false), reg(false)
				switch r.Intn(4) {
				case 0: // the same product, the factor on the other side
					s := scal()
					addT(engine.Op{N: "mul", I: []int64{1, 0, a}, B: []engine.Hex{s}})
					addT(engine.Op{N: "mul", I: []int64{2, 0, b}, B: []engine.Hex{s}})
					b, c, d = 0, 0, b
				case 1:
					c, d = a, b
				}
				addT(engine.Op{N: "check", I: []int64{a, b, c, d}})
			}
		}
		if deals {
			rounds := 1 + r.Intn(2)
			if !plain {
				rounds = (t + 1) / 2 % 2
			}
			for ; rounds > 0; rounds-- {
				at := addT(engine.Op{N: "round", I: []int64{0, int64(r.Intn(8))}, B: h3(r.Bytes(r.Intn(40)))})
				for f := r.Intn(4); f > 0; f-- {
					n := r.Intn(5)
					switch kind := engine.Pick(r, "net-drop", "net-dup", "net-reorder", "wire", "stale", "restart"); kind {
					case "wire":
						wire(at, n)
					default:
						p.Faults = append(p.Faults, engine.Fault{Kind: kind, At: at, N: n, A: int64(r.Intn(1000))})
					}
				}
			}
		}
	}
	return p
}

// svec are coordinates over basis elements (pairs of them in the target group).
type svec map[string]*big.Int

func (v svec) plus(w svec, k *big.Int) svec {
	o := svec{}
	for i, x := range v {
		o[i] = x
	}
	for i, x := range w {
		y := new(big.Int).Mul(x, k)
		if o[i] != nil {
			y.Add(y, o[i])
		}
		if y.Mod(y, ref.BlsR); y.Sign() == 0 {
			delete(o, i)
		} else {
			o[i] = y
		}
	}
	return o
}

func (v svec) times(w svec) svec {
	o := svec{}
	for i, x := range v {
		for j, y := range w {
			o = o.plus(svec{i + "|" + j: y}, x)
		}
	}
	return o
}

func (v svec) key() string {
	var s []string
	for i, x := range v {
		s = append(s, fmt.Sprintf("%s:%x", i, x))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

type selem struct {
	g int64
	v svec
	b []byte  // encoding; in the target group as first seen
	q *ref.G2 // g == 2
}

type sreg struct {
	p kyber.Point
	m selem
}

type suiteState struct {
	e     *engine.Env
	s     pairingSuite
	known map[string]svec   // encodings with their coordinates
	gt    map[string][]byte // target elements by coordinates
	gtOf  map[string]string
	regs  map[[3]int64]*sreg // thread, group, register
	deals map[int64]*sdeal
	n     int64
}

type pairingSuite interface {
	G1() kyber.Group
	G2() kyber.Group
	GT() kyber.Group
	ValidatePairing(p1, p2, inv1, inv2 kyber.Point) bool
	Pair(p1, p2 kyber.Point) kyber.Point
}

func (t *suiteState) group(g int64) kyber.Group {
	return []kyber.Group{t.s.G1(), t.s.G2(), t.s.GT()}[g-1]
}

func (t *suiteState) mk(g int64, v svec, b []byte, q *ref.G2) selem {
	if g == 2 {
		b = q.Bytes()
	}
	t.known[fmt.Sprint(g, string(b))] = v
	return selem{g, v, b, q}
}

func g1Inf() []byte { b := make([]byte, 48); b[0] = 0xc0; return b }

func (t *suiteState) zero(g int64) selem {
	switch g {
	case 1:
		return t.mk(1, svec{}, g1Inf(), nil)
	case 2:
		return t.mk(2, svec{}, nil, nil)
	}
	return selem{g: 3, v: svec{}}
}

func (t *suiteState) base(g int64) selem {
	if g == 1 {
		return t.mk(1, svec{"g": one}, ref.BlsPub(one), nil)
	}
	return t.mk(2, svec{"g": one}, nil, ref.G2Gen())
}

func (t *suiteState) add(a, b selem) selem {
	v := a.v.plus(b.v, one)
	switch a.g {
	case 1:
		o, _ := ref.BlsAddG1(a.b, b.b)
		return t.mk(1, v, o, nil)
	case 2:
		return t.mk(2, v, nil, a.q.Add(b.q))
	}
	return selem{g: 3, v: v}
}

func (t *suiteState) mul(a selem, k *big.Int) selem {
	v := svec{}.plus(a.v, k)
	switch a.g {
	case 1:
		o, _ := ref.BlsMulG1(a.b, k)
		return t.mk(1, v, o, nil)
	case 2:
		return t.mk(2, v, nil, a.q.Mul(k))
	}
	return selem{g: 3, v: v}
}

func (t *suiteState) neg(a selem) selem {
	v := svec{}.plus(a.v, big.NewInt(-1))
	switch {
	case a.g == 1 && a.b[0]&0x40 == 0:
		return t.mk(1, v, ref.BlsNegG1(a.b), nil)
	case a.g == 2:
		return t.mk(2, v, nil, a.q.Neg())
	}
	a.v = v
	return a
}

// parse gives the element an encoding stands for.
func (t *suiteState) parse(g int64, b []byte) (selem, bool) {
	if g == 3 {
		if k, ok := t.gtOf[string(b)]; ok {
			for _, r := range t.regs {
				if r.m.g == 3 && r.m.v.key() == k {
					return r.m, true
				}
			}
		}
		return selem{}, false
	}
	var q *ref.G2
	if g == 1 {
		if _, ok := ref.G1Parse(b, true); !ok {
			return selem{}, false
		}
	} else {
		var ok bool
		if q, ok = ref.G2Parse(b, true); !ok {
			return selem{}, false
		}
	}
	b = dup(b)
	v := t.known[fmt.Sprint(g, string(b))]
	if v == nil && b[0]&0x40 == 0 {
		n := dup(b)
		n[0] ^= 0x20
		if w := t.known[fmt.Sprint(g, string(n))]; w != nil {
			v = svec{}.plus(w, big.NewInt(-1))
		}
	}
	switch {
	case v != nil:
	case b[0]&0x40 != 0:
		v = svec{}
	default:
		v = svec{string(b): one}
	}
	return t.mk(g, v, b, q), true
}

// hash is the element a message hashes to.
func (t *suiteState) hash(g int64, msg []byte) (selem, bool) {
	if g == 1 { // always under the suite's domain
		return t.parse(1, ref.G1Encode(ref.HashToG1(msg, []byte(ref.DSTAug), true), 0))
	}
	dst := ref.DSTAug
	for _, d := range []string{ref.DSTNul, ref.DSTAug} {
		if strings.HasPrefix(string(msg), d) {
			dst, msg = d, msg[len(d):]
		}
	}
	m, _ := t.parse(2, ref.HashToG2(msg, []byte(dst)).Bytes())
	return m, true
}

// enc encodes without touching the point.
func enc(p kyber.Point) []byte {
	b, err := p.Clone().MarshalBinary()
	if err != nil {
		return nil
	}
	return b
}

// holds checks that an object stands for an element.
func (t *suiteState) holds(what string, p kyber.Point, m selem) {
	t.same(what, enc(p), m)
}

func (t *suiteState) same(what string, b []byte, m selem) {
	if m.g == 3 {
		k := m.v.key()
		if o, ok := t.gt[k]; ok {
			if !bytes.Equal(o, b) {
				t.e.Fail("suite-value", "%s: %s, an equal product was %s", what, engine.Short(b), engine.Short(o))
			}
			return
		}
		if o, ok := t.gtOf[string(b)]; ok {
			t.e.Fail("suite-value", "%s: %s stands for two different products (%s and %s)", what, engine.Short(b), short(o), short(k))
		}
		t.gt[k], t.gtOf[string(b)] = b, k
		return
	}
	if !bytes.Equal(b, m.b) {
		t.e.Fail("suite-value", "%s: G%d point is %s instead of %s", what, m.g, engine.Short(b), engine.Short(m.b))
	}
}

func short(s string) string {
	if len(s) > 80 {
		return s[:80] + ".."
	}
	return s
}

func (t *suiteState) reg(th int, g, i int64) *sreg {
	k := [3]int64{int64(th), g, i % suiteRegs}
	if i < 0 {
		k[0], k[2] = 0, -1-(-1-i)%2
	}
	r := t.regs[k]
	if r == nil && (i >= 0 || th == 0) {
		r = &sreg{t.group(g).Point(), t.zero(g)}
		t.regs[k] = r
	}
	if r == nil { // a shared register nobody wrote
		r = &sreg{t.group(g).Point(), t.zero(g)}
	}
	return r
}

// simStream is the cipher stream given to Pick.
type simStream struct{ r *engine.Rand }

func (s simStream) XORKeyStream(dst, src []byte) {
	b := s.r.Bytes(len(src))
	for i := range src {
		dst[i] = src[i] ^ b[i]
	}
}

// result checks an operation that writes dst and answers it.
func (t *suiteState) result(what string, dst *sreg, ret kyber.Point, m selem) {
	dst.m = m
	t.holds(what, dst.p, m)
	if ret != dst.p {
		t.holds(what+" (answer)", ret, m)
	}
}

func (t *suiteState) op(o engine.Op) {
	e, th := t.e, o.T
	g := in(o.I, 0)
	what := fmt.Sprintf("%s %v", o.N, o.I)
	if o.N == "pair" || o.N == "check" {
		g = 1
	}
	if g < 1 || g > 3 {
		return
	}
	get := func(i int) *sreg { return t.reg(th, g, in(o.I, i)) }
	if in(o.I, 1) < 0 && th != 0 && strings.Contains("new mul add sub neg set clone send", o.N) {
		return
	}
	t.n++
	if len(o.I) > 2 && o.I[1] == o.I[2] || len(o.I) > 3 && (o.I[1] == o.I[3] || o.I[2] == o.I[3]) {
		e.Count("alias")
	}
	switch o.N {
	case "new":
		dst := get(1)
		switch how := in(o.I, 2); {
		case how == 0:
			dst.p, dst.m = dst.p.Null(), t.zero(g)
		case how == 1 && g != 3:
			dst.p, dst.m = dst.p.Base(), t.base(g)
		case how == 2 && g != 3 && len(o.B) > 0:
			h, ok := dst.p.(interface{ Hash([]byte) kyber.Point })
			if !ok {
				return
			}
			ret := h.Hash(dup(o.B[0]))
			m, ok := t.hash(g, o.B[0])
			if !ok {
				e.Fail("suite-hash", "%s: message %x hashes to %s", what, []byte(o.B[0]), engine.Short(enc(dst.p)))
				return
			}
			t.result(what, dst, ret, m)
		case how == 3 && g != 3:
			dst.p.Pick(simStream{engine.NewRand("C18-pick", in(o.I, 3))})
			m, ok := t.parse(g, enc(dst.p))
			if !ok || len(m.v) == 0 {
				e.Fail("suite-pick", "%s: picked %s", what, engine.Short(enc(dst.p)))
				return
			}
			other := t.group(g).Point().Pick(simStream{engine.NewRand("C18-pick", in(o.I, 3)+1)})
			if bytes.Equal(enc(other), m.b) {
				e.Fail("suite-pick", "%s: picked %s from two different streams", what, engine.Short(m.b))
			}
			dst.m = m
		default:
			dst.p, dst.m = t.group(g).Point(), t.zero(g)
		}
		t.holds(what, dst.p, dst.m)
		e.Log("%d new %x", th, dst.m.b)
	case "mul":
		if len(o.B) == 0 || g == 3 {
			return
		}
		dst := get(1)
		k := new(big.Int).Mod(new(big.Int).SetBytes(o.B[0]), ref.BlsR)
		s := bls12_381.NewScalar(dup(o.B[0]))
		var q kyber.Point
		src := t.base(g)
		var sr *sreg
		if in(o.I, 2) != 99 {
			sr = get(2)
			q, src = sr.p, sr.m
		}
		t.result(fmt.Sprintf("%s by %x", what, []byte(o.B[0])), dst, dst.p.Mul(s, q), t.mul(src, k))
		if sr != nil && sr != dst {
			t.holds(what+" (operand)", sr.p, sr.m)
		}
		e.Log("%d mul %x", th, dst.m.b)
	case "add", "sub":
		dst, a, b := get(1), get(2), get(3)
		var ret kyber.Point
		var m selem
		if o.N == "add" {
			m = t.add(a.m, b.m)
			ret = dst.p.Add(a.p, b.p)
		} else {
			m = t.add(a.m, t.neg(b.m))
			ret = dst.p.Sub(a.p, b.p)
		}
		t.result(what, dst, ret, m)
		for _, x := range []*sreg{a, b} {
			if x != dst {
				t.holds(what+" (operand)", x.p, x.m)
			}
		}
		e.Log("%d %s %x", th, o.N, enc(dst.p))
	case "neg", "set", "clone":
		dst, a := get(1), get(2)
		switch {
		case o.N == "neg" && g != 3:
			t.result(what, dst, dst.p.Neg(a.p), t.neg(a.m))
		case o.N == "set":
			t.result(what, dst, dst.p.Set(a.p), a.m)
		case o.N == "clone":
			dst.p = a.p.Clone()
			dst.m = a.m
			t.holds(what, dst.p, dst.m)
		}
		if a != dst {
			t.holds(what+" (operand)", a.p, a.m)
		}
		e.Log("%d %s %x", th, o.N, enc(dst.p))
	case "send":
		t.send(o, what, get(1), get(2))
	case "eq":
		a, b := get(1), get(2)
		got, want := a.p.Equal(b.p), a.m.v.key() == b.m.v.key()
		e.Log("%d eq %v", th, got)
		e.Count("equals")
		if got != want {
			e.Fail("suite-equal", "%s: Equal of %s and %s is %v", what, engine.Short(enc(a.p)), engine.Short(enc(b.p)), got)
		}
		if b.p.Equal(a.p) != want {
			e.Fail("suite-equal", "%s: Equal is not symmetric", what)
		}
		t.holds(what+" (operand)", a.p, a.m)
		t.holds(what+" (operand)", b.p, b.m)
	case "pair":
		dst, a, b := t.reg(th, 3, in(o.I, 0)&3), t.reg(th, 1, in(o.I, 1)), t.reg(th, 2, in(o.I, 2))
		dst.p = t.s.Pair(a.p, b.p)
		dst.m = selem{g: 3, v: a.m.v.times(b.m.v)}
		e.Count("pairings")
		e.Log("%d pair %x", th, enc(dst.p))
		t.holds(what, dst.p, dst.m)
		t.holds(what+" (operand)", a.p, a.m)
		t.holds(what+" (operand)", b.p, b.m)
	case "check":
		a, b, c, d := t.reg(th, 1, in(o.I, 0)), t.reg(th, 2, in(o.I, 1)), t.reg(th, 1, in(o.I, 2)), t.reg(th, 2, in(o.I, 3))
		got := t.s.ValidatePairing(a.p, b.p, c.p, d.p)
		want := a.m.v.times(b.m.v).key() == c.m.v.times(d.m.v).key()
		e.Count("products")
		if want {
			e.Count("products-true")
		}
		e.Log("%d check %v", th, got)
		if got != want {
			e.Fail("suite-pairing", "%s: ValidatePairing of %s, %s and %s, %s is %v", what, engine.Short(a.m.b), engine.Short(b.m.b), engine.Short(c.m.b), engine.Short(d.m.b), got)
		}
		for _, x := range []*sreg{a, b, c, d} {
			t.holds(what+" (operand)", x.p, x.m)
		}
	}
}

// recorder notes what a source delivered.
type recorder struct {
	r   io.Reader
	got []byte
}

func (r *recorder) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	r.got = append(r.got, p[:n]...)
	return n, err
}

var errSink = errors.New("simulated: sink write error")

type faultySink struct {
	e   *engine.Env
	f   *engine.Fault
	got []byte
}

func (s *faultySink) Write(p []byte) (int, error) {
	if s.f != nil && len(p) > 0 {
		n := int(s.f.A) % len(p)
		s.e.Count("fault:" + s.f.Kind)
		s.got = append(s.got, p[:n]...)
		if s.f.Kind == "write-short" {
			return n, io.ErrShortWrite
		}
		return n, errSink
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

// damage applies the wire faults of component n.
func (t *suiteState) damage(at, n int, b, peer []byte) []byte {
	e := t.e
	for _, f := range e.FaultsAt(at) {
		switch {
		case f.N != n:
		case f.Kind == "torsion":
			e.Count("fault:torsion")
			if len(b) == 48 {
				if o, ok := ref.BlsAddG1(b, ref.BlsTorsionG1([]byte{byte(f.A), byte(f.A >> 8)})); ok {
					b = o
				}
			} else if q, ok := ref.G2Parse(b, false); ok {
				b = q.Add(ref.BlsTorsionG2([]byte{byte(f.A), byte(f.A >> 8)})).Bytes()
			}
		case strings.HasPrefix(f.Kind, "wire-"):
			b = applyWire(e, cNul, b, peer, f)
		}
	}
	return b
}

func (t *suiteState) send(o engine.Op, what string, dst, src *sreg) {
	e, g := t.e, src.m.g
	size := []int{48, 96, 576}[g-1]
	sink := &faultySink{e: e}
	var rf []engine.Fault
	for _, f := range e.FaultsAt(o.K) {
		f := f
		if strings.HasPrefix(f.Kind, "write-") {
			sink.f = &f
		} else if strings.HasPrefix(f.Kind, "read-") {
			rf = append(rf, f)
		}
	}
	n, err := src.p.MarshalTo(sink)
	e.Log("%d wrote %d %v %x", o.T, n, err, sink.got)
	e.Count("encodings")
	if n != len(sink.got) || (err != nil) != (sink.f != nil) {
		e.Fail("suite-write", "%s: MarshalTo answered %d, %v when %d bytes were taken", what, n, err, len(sink.got))
	}
	if src.p.MarshalSize() != size {
		e.Fail("suite-write", "%s: MarshalSize is %d", what, src.p.MarshalSize())
	}
	if sink.f == nil {
		t.same(what+" (encoding)", sink.got, src.m)
	}
	t.holds(what+" (operand)", src.p, src.m)
	b := t.damage(o.K, 0, sink.got, dst.m.b)
	tail := []byte("next")
	if len(b) < size {
		tail = nil
	}
	rec := &recorder{r: &faultyReader{env: e, data: append(dup(b), tail...), faults: rf}}
	n, err = dst.p.UnmarshalFrom(rec)
	e.Log("%d read %d %v", o.T, n, err)
	if n != len(rec.got) || n > size {
		e.Fail("suite-read", "%s: UnmarshalFrom answered %d when %d bytes of an encoding of %d were delivered", what, n, len(rec.got), size)
	}
	m, ok := selem{}, len(rec.got) == size
	if ok {
		if g == 3 {
			m, ok = t.parse(3, rec.got)
			if !ok && err == nil {
				e.Fail("suite-decode", "%s: UnmarshalFrom takes %s, which is no known product", what, engine.Short(rec.got))
				return
			}
		} else {
			m, ok = t.parse(g, rec.got)
		}
	}
	if !ok {
		e.Count("refused")
		if err == nil {
			e.Fail("suite-decode", "%s: UnmarshalFrom takes %s, which is no element", what, engine.Short(rec.got))
			return
		}
		t.holds(what+" (refused)", dst.p, dst.m)
		return
	}
	if err != nil {
		e.Fail("suite-decode", "%s: UnmarshalFrom refuses %s: %v", what, engine.Short(rec.got), err)
		return
	}
	dst.m = m
	t.holds(what, dst.p, m)
	if c, ok := dst.p.(bls12_381.GroupChecker); ok && !c.IsInCorrectGroup() {
		e.Fail("suite-decode", "%s: %s is in the group, IsInCorrectGroup denies it", what, engine.Short(rec.got))
	}
	// the same bytes, in one piece
	q := t.group(g).Point()
	if err := q.UnmarshalBinary(dup(rec.got)); err != nil || !q.Equal(dst.p) {
		e.Fail("suite-decode", "%s: UnmarshalBinary of %s: %v, and UnmarshalFrom took it", what, engine.Short(rec.got), err)
	}
}

// ---- threshold signatures ----

type sdeal struct {
	t, n   int
	sg     int64 // group of the signatures
	coef   []*big.Int
	secret *big.Int
	commit []kyber.Point // of the coefficients, in the key group
	keys   []kyber.Point // of the holders
	pub    kyber.Point
	pubM   selem
	keysM  []selem
	sigs   map[string][]byte // earlier partial signatures
}

func (d *sdeal) share(i int) *big.Int { // of holder i
	x := new(big.Int)
	for j := len(d.coef) - 1; j >= 0; j-- {
		x.Mul(x, big.NewInt(int64(i+1))).Add(x, d.coef[j])
	}
	return x.Mod(x, ref.BlsR)
}

func (t *suiteState) deal(o engine.Op) {
	if len(o.B) == 0 || len(o.B) > 8 {
		return
	}
	d := &sdeal{t: len(o.B), n: int(in(o.I, 2)), sg: 2 - in(o.I, 3)&1, sigs: map[string][]byte{}}
	if d.n < d.t {
		d.n = d.t
	}
	if d.n > 12 {
		return
	}
	kg := 3 - d.sg
	grp := t.group(kg)
	for _, b := range o.B {
		c := new(big.Int).Mod(new(big.Int).SetBytes(b), ref.BlsR)
		if len(d.coef) == 0 && c.Sign() == 0 {
			c.SetInt64(5)
		}
		d.coef = append(d.coef, c)
		d.commit = append(d.commit, grp.Point().Mul(bls12_381.NewScalar(c.Bytes()), nil))
	}
	d.secret = d.coef[0]
	for i := 0; i < d.n; i++ { // Horner's rule in the exponent
		acc := grp.Point()
		x := grp.Scalar() // a new scalar is zero
		for j := 0; j <= i; j++ {
			x.Add(x, grp.Scalar().One())
		}
		for j := d.t - 1; j >= 0; j-- {
			acc.Mul(x, acc)
			acc.Add(acc, d.commit[j])
		}
		m := t.mul(t.base(kg), d.share(i))
		t.holds(fmt.Sprintf("public share of holder %d from the commitments", i+1), acc, m)
		d.keys, d.keysM = append(d.keys, acc), append(d.keysM, m)
	}
	d.pub = d.commit[0].Clone()
	d.pubM = t.mul(t.base(kg), d.secret)
	t.holds("public key of the group", d.pub, d.pubM)
	t.deals[in(o.I, 0)] = d
	t.e.Log("deal %x", d.pubM.b)
}

func (t *suiteState) round(o engine.Op) {
	e := t.e
	d := t.deals[in(o.I, 0)]
	if d == nil || len(o.B) == 0 {
		return
	}
	mode := in(o.I, 1)
	if d.sg == 2 && mode>>1&3 >= 2 && mode&1 == 0 {
		mode = mode &^ 6 // the package signs tagged messages only
	}
	msg := suiteMsg(mode, o.B[0])
	sgrp, kgrp := t.group(d.sg), t.group(3-d.sg)
	scheme := blssig.NewSchemeOnG2(bls12_381.NewBLS12381Suite())
	if d.sg == 1 {
		scheme = blssig.NewSchemeOnG1(bls12_381.NewBLS12381Suite())
	}
	hp := sgrp.Point().(interface{ Hash([]byte) kyber.Point }).Hash(dup(msg))
	hm, ok := t.hash(d.sg, msg)
	if !ok {
		e.Fail("suite-hash", "message %x hashes to %s", msg, engine.Short(enc(hp)))
		return
	}
	t.holds("hashed message", hp, hm)
	keys := d.keys
	type part struct {
		i int
		b []byte
	}
	var net []part
	for i := 0; i < d.n; i++ {
		s := d.share(i)
		if s.Sign() == 0 {
			continue
		}
		want := t.mul(hm, s).b
		var sig []byte
		var err error
		if d.sg == 2 && mode&1 == 0 {
			sig, err = bls12_381.Sign(ref.B32(s), dup(msg))
		} else {
			sig, err = scheme.Sign(bls12_381.NewScalar(ref.B32(s)), dup(msg))
		}
		e.Log("%d partial %x %v", o.T, sig, err)
		if err != nil || !bytes.Equal(sig, want) {
			e.Fail("suite-partial", "partial signature of holder %d is %s (%v) instead of %s", i+1, engine.Short(sig), err, engine.Short(want))
			sig = want
		}
		b, copies := sig, 1
		for _, f := range e.FaultsAt(o.K) {
			if f.N != i {
				continue
			}
			switch f.Kind {
			case "net-drop":
				copies = 0
				e.Count("fault:net-drop")
			case "net-dup":
				copies = 2
				e.Count("fault:net-dup")
			case "stale":
				if old := d.sigs[fmt.Sprint(i)]; old != nil {
					b = old
					e.Count("fault:stale")
				}
			}
		}
		b = t.damage(o.K, i, b, want)
		d.sigs[fmt.Sprint(i)] = sig
		for ; copies > 0; copies-- {
			net = append(net, part{i, b})
		}
	}
	for _, f := range e.FaultsAt(o.K) {
		switch f.Kind {
		case "net-reorder":
			e.Count("fault:net-reorder")
			q := engine.NewRand("C18-order", f.A)
			for i := range net {
				j := i + q.Intn(len(net)-i)
				net[i], net[j] = net[j], net[i]
			}
		case "restart": // the collector reloads its keys from their encodings
			e.Count("fault:restart")
			var ks []kyber.Point
			for i := range keys {
				b, _ := keys[i].MarshalBinary()
				q := kgrp.Point()
				if err := q.UnmarshalBinary(b); err != nil || !bytes.Equal(b, d.keysM[i].b) {
					e.Fail("suite-decode", "public share of holder %d does not survive its encoding %s: %v", i+1, engine.Short(b), err)
					return
				}
				ks = append(ks, q)
			}
			keys = ks
		}
	}
	base := kgrp.Point().Base()
	got := map[int]kyber.Point{}
	var order []int
	for _, x := range net {
		if got[x.i] != nil {
			continue
		}
		want := t.mul(hm, d.share(x.i))
		q := sgrp.Point()
		err := q.UnmarshalBinary(dup(x.b))
		good := err == nil && len(x.b) == len(want.b)
		if good {
			switch mode >> 3 & 1 {
			case 0:
				good = t.validate(d.sg, base, q, keys[x.i], hp)
			default:
				good = t.validate(d.sg, keys[x.i], hp, base, q)
			}
		}
		e.Log("%d verdict %d %v", o.T, x.i, good)
		if good != bytes.Equal(x.b, want.b) {
			e.Fail("suite-verdict", "partial signature %s of holder %d is judged %v, the genuine one is %s", engine.Short(x.b), x.i+1, good, engine.Short(want.b))
			return
		}
		if v := scheme.Verify(keys[x.i], dup(msg), dup(x.b)) == nil; len(x.b) == len(want.b) && v != good {
			e.Fail("suite-verdict", "partial signature %s of holder %d is judged %v by the scheme, the genuine one is %s", engine.Short(x.b), x.i+1, v, engine.Short(want.b))
			return
		}
		if good {
			got[x.i] = q
			order = append(order, x.i)
		}
		if len(order) == d.t {
			break
		}
	}
	for i := range keys {
		t.holds(fmt.Sprintf("public share of holder %d after the round", i+1), keys[i], d.keysM[i])
	}
	if len(order) < d.t {
		e.Count("few")
		return
	}
	acc := sgrp.Point()
	for _, i := range order {
		num, den := sgrp.Scalar().One(), sgrp.Scalar().One()
		for _, j := range order {
			if j != i {
				num.Mul(num, sgrp.Scalar().SetInt64(int64(j+1)))
				den.Mul(den, sgrp.Scalar().SetInt64(int64(j-i)))
			}
		}
		got[i].Mul(num.Div(num, den), got[i])
		acc.Add(got[i], acc)
	}
	want := t.mul(hm, d.secret)
	t.holds(fmt.Sprintf("signature combined by holders %v", order), acc, want)
	sig, _ := acc.MarshalBinary()
	e.Log("%d signature %x", o.T, sig)
	e.Count("signed")
	ok = scheme.Verify(d.pub, dup(msg), dup(want.b)) == nil
	if d.sg == 2 && mode>>1&3 < 2 {
		ok = ok && bls12_381.Verify(dup(d.pubM.b), dup(msg), dup(want.b))
	}
	if !ok {
		e.Fail("suite-verdict", "the signature of the group does not verify under its key")
	}
	t.holds("public key of the group after the round", d.pub, d.pubM)
}

func (t *suiteState) validate(sg int64, k1, s1, k2, s2 kyber.Point) bool {
	if sg == 2 {
		return t.s.ValidatePairing(k1, s1, k2, s2)
	}
	return t.s.ValidatePairing(s1, k1, s2, k2)
}

func (suiteProp) Exec(e *engine.Env) {
	t := &suiteState{e: e, s: bls12_381.NewBLS12381Suite(), known: map[string]svec{}, gt: map[string][]byte{}, gtOf: map[string]string{}, regs: map[[3]int64]*sreg{}, deals: map[int64]*sdeal{}}
	threads := map[int][]engine.Op{}
	maxT := 0
	run := func(o engine.Op) {
		catch(e, "suite", o, func() {
			switch o.N {
			case "deal":
				if o.T == 0 {
					t.deal(o)
				}
			case "round":
				t.n += 5
				t.round(o)
			default:
				t.op(o)
			}
		})
	}
	s := e.Solo(20_000_000_000, func() {
		for _, o := range e.Plan.Ops {
			if o.T > 0 && o.T < 16 {
				threads[o.T] = append(threads[o.T], o)
				if o.T > maxT {
					maxT = o.T
				}
			} else if o.T == 0 {
				run(o)
			}
		}
	})
	settle(e, "suite", s)
	var fns []func()
	for i := 1; i <= maxT; i++ {
		ops := threads[i]
		fns = append(fns, func() {
			for _, o := range ops {
				run(o)
			}
		})
	}
	if len(fns) > 0 {
		settle(e, "suite", e.RunSim(nil, 40_000_000_000, fns...))
	}
	var ks [][3]int64
	for k := range t.regs {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	if len(e.Out.Viol) == 0 {
		catch(e, "suite", engine.Op{N: "end"}, func() {
			for _, k := range ks {
				t.holds(fmt.Sprintf("register %v at the end", k), t.regs[k].p, t.regs[k].m)
			}
		})
	}
	e.Add("operations", t.n)
	e.Out.Trivial = t.n < 5
}
