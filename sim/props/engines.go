package props

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/blocktree/go-owcrypt/bls12_381/bls"

	"verifsim/engine"
	"verifsim/ref"
)

// ---- C19 ----

// Threads drive engines of package bls.  Every thread has two engines: a pair
// of stand-alone groups (odd operations) and a pairing engine with the groups
// inside it (even ones), so point arithmetic runs between the steps of a pairing
// product.  Registers as in C18; negative numbers are shared points, written by
// thread 0 before the others start and only read from then on.
//
//	fresh                                   new engines
//	new   I=[g, dst, how] B=[msg, domain]   how: 0 New 1 One 2 HashToCurve 3 Encode 4 MapToCurve
//	add sub I=[g, dst, a, b]; neg dbl copy I=[g, dst, a]; aff clear I=[g, dst]
//	mul   I=[g, dst, a] B=[scalar]; cofac I=[1, dst, a]
//	multi I=[g, dst, a...] B=[scalar...]
//	conv  I=[g, dst, a, form]               faults: wire-*, N = 0
//	pred  I=[g, a, b]
//	pair  I=[a, b, inverse]; reset; check; result I=[dst]
type engineProp struct{}

func init() { engine.Register(engineProp{}) }

func (engineProp) ID() string { return "C19" }

func (engineProp) Info() engine.Info {
	return engine.Info{Quick: 1200, Thorough: 60000, Chunk: 10, PlainQuick: 6000, PlainThorough: 600000, PlainChunk: 40, QuickSecs: 55, ThoroughSecs: 700, Timeout: 120,
		Rule:        "an episode counts when at least five engine operations ran; distinct = distinct event logs",
		Real:        []string{"bls12_381/bls: G1, G2, GT, Engine, hashing and maps to the curves, encodings, multi-exponentiation, field towers"},
		Stubs:       []string{"stores and networks that encodings pass", "thread scheduler"},
		Assumptions: []string{"the reference groups (math/big) are correct", "points hashed from different messages are independent", "encodings with trailing bytes are decoded from their head, as documented, or (plain form) refused"},
		MinProbes: map[string]int64{"pairings": 300, "products": 200, "products-true": 100, "encodings": 1000, "refused": 200, "alias": 300, "multi": 200, "multi-many": 20,
			"outside": 50, "between": 300, "checks": 1000, "hashed": 300, "reset": 50},
	}
}

const engRegs = 4

func (engineProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C19", seed, idx)
	p := &engine.Plan{Prop: "C19", Seed: seed, Idx: idx, Kind: "engines"}
	p.Sched = engine.Sched{Seed: r.U64(), MeanRun: int64(engine.PickInt(r, 2000, 20000, 200000)), GlobalPct: 10}
	plain := idx >= engine.PlainBase
	k := 0
	add := func(o engine.Op) int {
		k++
		o.K = k
		p.Ops = append(p.Ops, o)
		return k
	}
	msgs := [][]byte{r.Bytes(1 + r.Intn(40)), {}, r.Bytes(engine.LogUniform(r, 300))}
	scal := func(multi bool) engine.Hex {
		if !plain && r.Intn(3) > 0 {
			return r.Bytes(1 + r.Intn(3))
		}
		switch r.Intn(10) {
		case 0:
			if !multi {
				return r.Bytes(r.Intn(49))
			}
		case 1:
			return new(big.Int).Add(ref.BlsR, big.NewInt(int64(r.Intn(5)-2))).Bytes()
		case 2:
			return big.NewInt(int64(r.Intn(4))).Bytes()
		case 3: // a power of two, or one below
			x := new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(255)))
			return x.Sub(x, big.NewInt(int64(r.Intn(2)))).Bytes()
		case 4:
			return r.Bytes(r.Intn(33))
		}
		return genTweak(r, cNul, true)
	}
	newOp := func(g, dst int64) engine.Op {
		o := engine.Op{N: "new", I: []int64{g, dst, int64(1 + r.Intn(4))}}
		if r.Intn(10) == 0 {
			o.I[2] = 0
		}
		switch o.I[2] {
		case 4:
			if g == 2 {
				o.I[2] = 1
				break
			}
			b := r.Bytes(48)
			switch r.Intn(6) {
			case 0:
				b = new(big.Int).Add(ref.BlsP(), big.NewInt(int64(r.Intn(5)-3))).FillBytes(make([]byte, 48))
			case 1:
				b = big.NewInt(int64(r.Intn(3))).FillBytes(make([]byte, 48))
			case 2:
				b = b[:r.Intn(49)]
			case 3:
				b = append(b, r.Bytes(1+r.Intn(3))...)
				b[0] &= 0xf
			default:
				b[0] &= 0xf
			}
			o.B = h3(b)
		case 2, 3:
			d := []byte(ref.DSTNul)
			switch r.Intn(8) {
			case 0:
				d = r.Bytes(engine.PickInt(r, 0, 1, 16, 255, 255, 256, 257, 300, 511, 512))
			case 1, 2:
				d = []byte(ref.DSTAug)
			}
			o.B = []engine.Hex{msgs[r.Intn(len(msgs))], d}
		}
		return o
	}
	threads := 1
	if !plain && r.Intn(3) > 0 {
		threads = 2 + r.Intn(2)
	}
	shared := r.Intn(2) == 0
	if shared {
		for g := int64(1); g <= 2; g++ {
			for i := int64(-1); i >= -2; i-- {
				add(newOp(g, i))
				if r.Intn(3) > 0 { // not affine
					add(engine.Op{N: "mul", I: []int64{g, i, i}, B: []engine.Hex{scal(false)}})
				}
			}
		}
	}
	crowd := threads > 1 && shared && r.Intn(2) == 0
	for t := 1; t <= threads; t++ {
		t := t
		ops := 10 + r.Intn(40)
		if !plain {
			ops = 2 + r.Intn(6)
			if threads > 1 {
				ops = 1 + r.Intn(4)
			}
		}
		addT := func(o engine.Op) int { o.T = t; return add(o) }
		reg := func(w bool) int64 {
			if !w && shared && r.Intn(3) == 0 {
				return int64(-1 - r.Intn(2))
			}
			return int64(r.Intn(engRegs))
		}
		if crowd {
			g := int64(1 + int(seed+uint64(idx))%2)
			switch r.Intn(6) {
			case 0:
				addT(engine.Op{N: "pred", I: []int64{g, -1, -1}})
			case 1:
				addT(engine.Op{N: "add", I: []int64{g, 0, -1, -2}})
			case 2:
				addT(engine.Op{N: "pair", I: []int64{-1, -1, 0}})
				addT(engine.Op{N: "check"})
			case 3:
				addT(engine.Op{N: "multi", I: []int64{g, 0, -1, -2}, B: []engine.Hex{scal(true), scal(true)}})
			default:
				addT(engine.Op{N: "conv", I: []int64{g, 0, -1, int64(r.Intn(3))}})
			}
		}
		for g := int64(1); g <= 2 && !crowd; g++ {
			for m := 1 + r.Intn(2); m > 0; m-- {
				addT(newOp(g, reg(true)))
			}
		}
		for ; ops > 0; ops-- {
			g := int64(1 + r.Intn(2))
			if r.Intn(6) == 0 {
				g = 3
			}
			reg := func(w bool) int64 {
				if g == 3 {
					return int64(r.Intn(engRegs))
				}
				return reg(w)
			}
			switch x := r.Intn(34); {
			case x < 2:
				if g == 3 {
					addT(engine.Op{N: "new", I: []int64{3, reg(true), 0}})
				} else {
					addT(newOp(g, reg(true)))
				}
			case x < 5:
				addT(engine.Op{N: "mul", I: []int64{g, reg(true), reg(false)}, B: []engine.Hex{scal(false)}})
			case x < 10:
				addT(engine.Op{N: "add", I: []int64{g, reg(true), reg(false), reg(false)}})
			case x < 12:
				addT(engine.Op{N: "sub", I: []int64{g, reg(true), reg(false), reg(false)}})
			case x < 16:
				addT(engine.Op{N: engine.Pick(r, "neg", "dbl", "dbl", "copy"), I: []int64{g, reg(true), reg(false)}})
			case x < 17:
				addT(engine.Op{N: engine.Pick(r, "aff", "aff", "aff", "clear"), I: []int64{int64(1 + r.Intn(2)), int64(r.Intn(engRegs))}})
			case x < 18:
				addT(engine.Op{N: "cofac", I: []int64{1, int64(r.Intn(engRegs)), int64(r.Intn(engRegs))}})
			case x < 20:
				if g == 3 {
					g = 1
				}
				n := r.Intn(5)
				if r.Intn(4) == 0 { // the sum over the high parts of the scalars vanishes
					a, b := int64(r.Intn(engRegs)), int64(r.Intn(engRegs))
					if a == b {
						b = (a + 1) % engRegs
					}
					k := int64(1 + r.Intn(9))
					j := uint(engine.PickInt(r, 6, 12, 24, 60, 150))
					hi := big.NewInt(int64(1 + r.Intn(70)))
					low := func() *big.Int {
						return new(big.Int).Rsh(new(big.Int).SetBytes(r.Bytes(19)), 152-j)
					}
					x := new(big.Int).Mul(hi, big.NewInt(k))
					x.Add(x.Lsh(x, j), low())
					y := new(big.Int).Lsh(hi, j)
					y.Add(y, low())
					addT(engine.Op{N: "mul", I: []int64{g, b, a}, B: []engine.Hex{big.NewInt(k).Bytes()}})
					addT(engine.Op{N: "neg", I: []int64{g, b, b}})
					addT(engine.Op{N: "multi", I: []int64{g, reg(true), a, b}, B: []engine.Hex{x.Bytes(), y.Bytes()}})
					continue
				}
				if plain && r.Intn(3) == 0 {
					n = engine.PickInt(r, 8, 31, 32, 33, 40, 100, 101)
				}
				o := engine.Op{N: "multi", I: []int64{g, reg(true)}}
				for ; n > 0; n-- {
					o.I = append(o.I, reg(false))
					o.B = append(o.B, scal(true))
				}
				if len(o.B) > 0 && r.Intn(8) == 0 {
					o.B = o.B[1:]
				}
				addT(o)
			case x < 24:
				at := addT(engine.Op{N: "conv", I: []int64{g, reg(true), reg(false), int64(r.Intn(3))}})
				if r.Intn(2) == 0 {
					for m := 1 + r.Intn(4)/3; m > 0; m-- {
						switch r.Intn(5) {
						case 4:
							p.Faults = append(p.Faults, engine.Fault{Kind: "wire-add", At: at, A: int64(r.Intn(12))})
						case 0:
							p.Faults = append(p.Faults, genWire(r, at, 0, cNul))
						case 1: // the bits with a meaning
							p.Faults = append(p.Faults, engine.Fault{Kind: "wire-flip", At: at, A: 0, B: int64(5 + r.Intn(3))})
						default:
							p.Faults = append(p.Faults, engine.Fault{Kind: "torsion", At: at, A: int64(r.Intn(1000)), B: int64(r.Intn(3) / 2)})
						}
					}
				}
			case x < 26:
				addT(engine.Op{N: "pred", I: []int64{g, reg(false), reg(false)}})
			case x < 31:
				g = 1
				a, b := reg(false), reg(false)
				addT(engine.Op{N: "pair", I: []int64{a, b, int64(r.Intn(2))}})
				switch r.Intn(5) {
				case 0: // the same product, the factor on the other side
					s := scal(false)
					addT(engine.Op{N: "reset"})
					addT(engine.Op{N: "mul", I: []int64{1, 0, a}, B: []engine.Hex{s}})
					addT(engine.Op{N: "mul", I: []int64{2, 0, b}, B: []engine.Hex{s}})
					addT(engine.Op{N: "pair", I: []int64{0, b, 0}})
					addT(engine.Op{N: "pair", I: []int64{a, 0, 1}})
					addT(engine.Op{N: "check"})
				case 1:
					addT(engine.Op{N: "pair", I: []int64{a, b, 1}})
					addT(engine.Op{N: "check"})
				case 2: // arithmetic with the product
					d := int64(r.Intn(engRegs))
					addT(engine.Op{N: "result", I: []int64{d}})
					for m := r.Intn(4); m > 0; m-- {
						c := d
						if r.Intn(2) == 0 {
							d = int64(r.Intn(engRegs))
						}
						o := engine.Op{N: engine.Pick(r, "mul", "mul", "dbl", "neg", "add", "sub", "copy"), I: []int64{3, d, c, int64(r.Intn(engRegs))}}
						if o.N == "mul" {
							o.B = []engine.Hex{scal(false)}
						}
						addT(o)
					}
				}
			case x < 32:
				addT(engine.Op{N: "check"})
			case x < 33:
				addT(engine.Op{N: "result", I: []int64{int64(r.Intn(engRegs))}})
			default:
				addT(engine.Op{N: engine.Pick(r, "reset", "reset", "fresh")})
			}
		}
	}
	return p
}

// eelem is what a register stands for: a curve point, and its coordinates over
// independent elements (nil outside the prime-order groups).
type eelem struct {
	g int64
	v svec
	p *ref.Point
	q *ref.G2
}

type ereg struct {
	p *bls.PointG1
	q *bls.PointG2
	t *bls.E
	m eelem
}

type engines struct {
	g1  [2]*bls.G1 // stand-alone, inside the pairing engine
	g2  [2]*bls.G2
	gt  *bls.GT
	pe  *bls.Engine
	v   svec // the product so far; nil when it is not determined
	cnt int  // pairs in it
}

type engineState struct {
	e     *engine.Env
	known map[string]svec
	gt    map[string][]byte
	gtOf  map[string]string
	gtEl  map[string]eelem
	regs  map[[3]int64]*ereg
	eng   map[int]*engines
	bufs  map[[2]int][]byte
	n     int64
}

// buffer is memory of the caller which is filled again for every call.
func (t *engineState) buffer(th, i int, b []byte) []byte {
	k := [2]int{th, i}
	if t.bufs[k] == nil {
		t.bufs[k] = make([]byte, 1024)
	}
	return append(t.bufs[k][:0], b...)
}

func (t *engineState) engines(th int) *engines {
	if t.eng[th] == nil {
		pe := bls.NewEngine()
		t.eng[th] = &engines{g1: [2]*bls.G1{pe.G1, bls.NewG1()}, g2: [2]*bls.G2{pe.G2, bls.NewG2(nil)}, gt: bls.NewGT(), pe: pe, v: svec{}}
	}
	return t.eng[th]
}

func (m eelem) enc(form int) []byte {
	if m.g == 1 {
		return ref.G1Encode(m.p, form)
	}
	return ref.G2Encode(m.q, form)
}

func (m eelem) inf() bool { return m.g == 1 && m.p.Inf || m.g == 2 && m.q == nil }

func (t *engineState) mk(g int64, v svec, p *ref.Point, q *ref.G2) eelem {
	m := eelem{g, v, p, q}
	if v != nil {
		t.known[fmt.Sprint(g, string(m.enc(0)))] = v
	}
	return m
}

func (t *engineState) zero(g int64) eelem {
	if g == 3 {
		return eelem{g: 3, v: svec{}}
	}
	return t.mk(g, svec{}, &ref.Point{Inf: true}, nil)
}

func (t *engineState) one(g int64) eelem {
	_, gen := ref.BlsG1()
	return t.mk(g, svec{"g": one}, gen, ref.G2Gen())
}

// of finds the coordinates of a point.
func (t *engineState) of(g int64, p *ref.Point, q *ref.G2) eelem {
	m := eelem{g: g, p: p, q: q}
	b := m.enc(0)
	if v := t.known[fmt.Sprint(g, string(b))]; v != nil {
		m.v = v
		return m
	}
	c, _ := ref.BlsG1()
	switch {
	case m.inf():
		m.v = svec{}
	case g == 1 && !c.MulRaw(p, ref.BlsR).Inf || g == 2 && q.Mul(ref.BlsR) != nil:
		return m
	default:
		n := dup(b)
		n[0] ^= 0x20
		if w := t.known[fmt.Sprint(g, string(n))]; w != nil {
			m.v = svec{}.plus(w, big.NewInt(-1))
		} else {
			m.v = svec{string(b): one}
		}
	}
	return t.mk(g, m.v, p, q)
}

func (t *engineState) lin(a, b eelem, k int64) eelem { // a + k·b, k = ±1
	var v svec
	if a.v != nil && b.v != nil {
		v = a.v.plus(b.v, big.NewInt(k))
	}
	if a.g == 3 {
		return eelem{g: 3, v: v}
	}
	m := eelem{g: a.g, v: v}
	if a.g == 1 {
		c, _ := ref.BlsG1()
		n := b.p
		if k < 0 {
			n = c.Neg(n)
		}
		m.p = c.Add(a.p, n)
	} else {
		n := b.q
		if k < 0 {
			n = n.Neg()
		}
		m.q = a.q.Add(n)
	}
	if v == nil { // the sum may be in the group again
		return t.of(m.g, m.p, m.q)
	}
	return t.mk(m.g, v, m.p, m.q)
}

func (t *engineState) mul(a eelem, k *big.Int) eelem {
	var v svec
	if a.v != nil {
		v = svec{}.plus(a.v, k)
	}
	if a.g == 3 {
		return eelem{g: 3, v: v}
	}
	m := eelem{g: a.g, v: v}
	if a.g == 1 {
		c, _ := ref.BlsG1()
		m.p = a.p
		if !a.p.Inf {
			m.p = c.MulRaw(a.p, k)
		}
	} else {
		m.q = a.q.Mul(k)
	}
	if v == nil {
		return t.of(m.g, m.p, m.q)
	}
	return t.mk(m.g, v, m.p, m.q)
}

func (t *engineState) reg(th int, g, i int64) *ereg {
	k := [3]int64{int64(th), g, i & (engRegs - 1)}
	if i < 0 {
		k[0], k[2] = 0, -1-(-1-i)%2
	}
	r := t.regs[k]
	if r == nil {
		r = &ereg{m: t.zero(g)}
		switch g {
		case 1:
			r.p = bls.NewG1().Zero()
		case 2:
			r.q = bls.NewG2(nil).Zero()
		default:
			r.t = bls.NewGT().New()
		}
		if i >= 0 || th == 0 {
			t.regs[k] = r
		}
	}
	return r
}

// holds checks a register with engines of its own.
func (t *engineState) holds(what string, r *ereg) {
	m := r.m
	var b []byte
	switch m.g {
	case 1:
		b = bls.NewG1().ToCompressed(new(bls.PointG1).Set(r.p))
	case 2:
		b = bls.NewG2(nil).ToCompressed(new(bls.PointG2).Set(r.q))
	default:
		t.holdsGT(what, bls.NewGT().ToBytes(r.t), m)
		return
	}
	t.e.Count("checks")
	if w := m.enc(0); !bytes.Equal(b, w) {
		t.e.Fail("engine-value", "%s: G%d point is %s instead of %s", what, m.g, engine.Short(b), engine.Short(w))
	}
}

func (t *engineState) holdsGT(what string, b []byte, m eelem) {
	if m.v == nil {
		return
	}
	k := m.v.key()
	if o, ok := t.gt[k]; ok {
		if !bytes.Equal(o, b) {
			t.e.Fail("engine-value", "%s: %s, an equal product was %s", what, engine.Short(b), engine.Short(o))
		}
		return
	}
	if o, ok := t.gtOf[string(b)]; ok {
		t.e.Fail("engine-value", "%s: %s stands for two different products (%s and %s)", what, engine.Short(b), short(o), short(k))
	}
	t.gt[k], t.gtOf[string(b)], t.gtEl[string(b)] = b, k, m
}

func (t *engineState) op(o engine.Op) {
	e, th := t.e, o.T
	what := fmt.Sprintf("%s %v", o.N, o.I)
	en := t.engines(th)
	alone := o.K & 1
	G1, G2, GT := en.g1[alone], en.g2[alone], en.gt
	switch o.N {
	case "fresh":
		delete(t.eng, th)
		return
	case "reset":
		if en.pe.Reset() != en.pe {
			e.Fail("engine-answer", "%s answers another engine", what)
		}
		en.v, en.cnt = svec{}, 0
		e.Count("reset")
		return
	case "pair":
		a, b := t.reg(th, 1, in(o.I, 0)), t.reg(th, 2, in(o.I, 1))
		if a.m.v == nil || b.m.v == nil || en.cnt >= 6 {
			return
		}
		w := a.m.v.times(b.m.v)
		sign := one
		t.n++
		if in(o.I, 2)&1 == 1 {
			sign = big.NewInt(-1)
			en.pe.AddPairInv(a.p, b.q)
		} else {
			en.pe.AddPair(a.p, b.q)
		}
		en.v = en.v.plus(w, sign)
		en.cnt++
		e.Count("pairings")
		t.holds(what+" (operand)", a)
		t.holds(what+" (operand)", b)
		return
	case "check":
		got, want := en.pe.Check(), len(en.v) == 0
		t.n++
		e.Count("products")
		if want {
			e.Count("products-true")
		}
		e.Log("%d check %v", th, got)
		if got != want {
			e.Fail("engine-pairing", "%s: Check of %d pairs is %v", what, en.cnt, got)
		}
		return
	case "result":
		dst := t.reg(th, 3, in(o.I, 0)&(engRegs-1))
		dst.t = en.pe.Result()
		dst.m = eelem{g: 3, v: en.v}
		en.v, en.cnt = svec{}, 0
		t.n++
		e.Log("%d result %x", th, bls.NewGT().ToBytes(dst.t))
		t.holds(what, dst)
		return
	}
	g := in(o.I, 0)
	if g < 1 || g > 3 || in(o.I, 1) < 0 && th != 0 && o.N != "pred" {
		return
	}
	get := func(i int) *ereg { return t.reg(th, g, in(o.I, i)) }
	t.n++
	if alone == 0 && en.cnt > 0 {
		e.Count("between")
	}
	if len(o.I) > 2 && o.I[1] == o.I[2] || len(o.I) > 3 && (o.I[1] == o.I[3] || o.I[2] == o.I[3]) {
		e.Count("alias")
	}
	dst := get(1)
	// the answer of an operation is its destination
	ans := func(p *bls.PointG1, q *bls.PointG2) {
		if g == 1 && p != dst.p || g == 2 && q != dst.q {
			x := &ereg{p: p, q: q, m: dst.m}
			t.holds(what+" (answer)", x)
		}
	}
	// scalar as the operation gets it; it must stay what it was
	num := func(b []byte) (*big.Int, func()) {
		k := new(big.Int).SetBytes(b)
		return k, func() {
			if k.Cmp(new(big.Int).SetBytes(b)) != 0 {
				e.Fail("engine-operand", "%s: the scalar %x became %x", what, b, k)
			}
		}
	}
	switch o.N {
	case "new":
		var p *bls.PointG1
		var q *bls.PointG2
		var err error
		how := in(o.I, 2)
		if g == 3 {
			dst.t, dst.m = GT.New(), t.zero(3)
			if in(o.I, 2) == 1 {
				dst.t = GT.One()
			}
			break
		}
		switch {
		case how == 1:
			p, q = G1.One(), G2.One()
			dst.m = t.one(g)
		case how == 0:
			p, q = G1.New(), G2.New()
			dst.m = t.zero(g)
		case how == 4 && g == 1 && len(o.B) > 0:
			in := dup(o.B[0])
			p, err = G1.MapToCurve(in)
			u := new(big.Int).SetBytes(o.B[0])
			if !bytes.Equal(in, o.B[0]) {
				e.Fail("engine-operand", "%s: the field element was changed", what)
			}
			e.Count("hashed")
			if ok := len(o.B[0]) == 48 && u.Cmp(ref.BlsP()) < 0; ok != (err == nil) {
				e.Fail("engine-hash", "%s: MapToCurve of %x: %v", what, []byte(o.B[0]), err)
				return
			} else if !ok {
				t.holds(what+" (refused)", dst)
				return
			}
			c, _ := ref.BlsG1()
			dst.m = t.of(1, c.MulRaw(ref.MapToG1(u), ref.BlsClear(1)), nil)
		case (how == 2 || how == 3) && len(o.B) > 1:
			m, d := t.buffer(th, 0, o.B[0]), t.buffer(th, 1, o.B[1])
			switch {
			case g == 1 && how == 2:
				p, err = G1.HashToCurve(m, d)
			case g == 1:
				p, err = G1.EncodeToPoint(m, d)
			case how == 2:
				q, err = G2.HashToCurve(m, d)
			default:
				q, err = G2.EncodeToCurve(m, d)
			}
			e.Count("hashed")
			if !bytes.Equal(m, o.B[0]) || !bytes.Equal(d, o.B[1]) {
				e.Fail("engine-operand", "%s: message or domain were changed", what)
			}
			if ok := len(d) <= 255; ok != (err == nil) {
				e.Fail("engine-hash", "%s: a domain of %d bytes: %v", what, len(d), err)
				return
			} else if !ok {
				t.holds(what+" (refused)", dst)
				return
			}
			switch {
			case g == 1:
				dst.m = t.of(1, ref.HashToG1(m, d, how == 2), nil)
			case how == 2:
				dst.m = t.of(2, nil, ref.HashToG2(m, d))
			default:
				dst.m = t.of(2, nil, ref.EncodeToG2(m, d))
			}
		default:
			return
		}
		if g == 1 {
			dst.p = p
		} else {
			dst.q = q
		}
	case "add", "sub":
		a, b := get(2), get(3)
		var m eelem
		k := int64(1)
		if o.N == "sub" {
			k = -1
		}
		m = t.lin(a.m, b.m, k)
		switch {
		case g == 3 && k > 0:
			GT.Mul(dst.t, a.t, b.t)
		case g == 3:
			i := GT.New()
			GT.Inverse(i, b.t)
			GT.Mul(dst.t, a.t, i)
		case g == 1 && k > 0:
			p := G1.Add(dst.p, a.p, b.p)
			dst.m = m
			ans(p, nil)
		case g == 1:
			p := G1.Sub(dst.p, a.p, b.p)
			dst.m = m
			ans(p, nil)
		case k > 0:
			q := G2.Add(dst.q, a.q, b.q)
			dst.m = m
			ans(nil, q)
		default:
			q := G2.Sub(dst.q, a.q, b.q)
			dst.m = m
			ans(nil, q)
		}
		dst.m = m
		for _, x := range []*ereg{a, b} {
			if x != dst {
				t.holds(what+" (operand)", x)
			}
		}
	case "neg", "dbl", "copy":
		a := get(2)
		switch o.N {
		case "neg":
			m := t.lin(t.zero(g), a.m, -1)
			switch g {
			case 1:
				ret := G1.Neg(dst.p, a.p)
				dst.m = m
				ans(ret, nil)
			case 2:
				ret := G2.Neg(dst.q, a.q)
				dst.m = m
				ans(nil, ret)
			default:
				GT.Inverse(dst.t, a.t)
			}
			dst.m = m
		case "dbl":
			m := t.lin(a.m, a.m, 1)
			switch g {
			case 1:
				ret := G1.Double(dst.p, a.p)
				dst.m = m
				ans(ret, nil)
			case 2:
				ret := G2.Double(dst.q, a.q)
				dst.m = m
				ans(nil, ret)
			default:
				GT.Square(dst.t, a.t)
			}
			dst.m = m
		default:
			switch {
			case g == 1 && o.K%3 > 0:
				G1.Copy(dst.p, a.p)
			case g == 1:
				dst.p.Set(a.p)
			case g == 2 && o.K%3 > 0:
				G2.Copy(dst.q, a.q)
			case g == 2:
				dst.q.Set(a.q)
			default:
				GT.Copy(dst.t, a.t)
			}
			dst.m = a.m
		}
		if a != dst {
			t.holds(what+" (operand)", a)
		}
	case "aff":
		if g == 1 {
			ans(G1.Affine(dst.p), nil)
			if !dst.m.inf() && !G1.IsAffine(dst.p) {
				e.Fail("engine-affine", "%s: the point is not affine afterwards", what)
			}
		} else if g == 2 {
			ans(nil, G2.Affine(dst.q))
			if !dst.m.inf() && !G2.IsAffine(dst.q) {
				e.Fail("engine-affine", "%s: the point is not affine afterwards", what)
			}
		}
	case "clear":
		if g == 1 {
			dst.m = t.mul(dst.m, ref.BlsClear(1))
			G1.ClearCofactor(dst.p)
		} else if g == 2 {
			dst.m = t.mul(dst.m, ref.BlsClear(2))
			G2.ClearCofactor(dst.q)
		}
		if g < 3 && dst.m.v == nil {
			e.Fail("harness", "clearing the cofactor leaves the group")
		}
	case "cofac":
		if g == 1 {
			a := get(2)
			m := t.mul(a.m, ref.BlsCofactor1())
			G1.MulByCofactor(dst.p, a.p)
			dst.m = m
		}
	case "mul":
		if len(o.B) == 0 {
			return
		}
		a := get(2)
		k, kept := num(o.B[0])
		m := t.mul(a.m, k)
		switch g {
		case 1:
			ret := G1.MulScalar(dst.p, a.p, k)
			dst.m = m
			ans(ret, nil)
		case 2:
			ret := G2.MulScalar(dst.q, a.q, k)
			dst.m = m
			ans(nil, ret)
		default:
			GT.Exp(dst.t, a.t, k)
		}
		dst.m = m
		kept()
		if a != dst {
			t.holds(what+" (operand)", a)
		}
	case "multi":
		if g == 3 {
			return
		}
		var ps []*bls.PointG1
		var qs []*bls.PointG2
		var ks, ks2 []*big.Int
		var src []*ereg
		m := t.zero(g)
		for i := 2; i < len(o.I); i++ {
			x := get(i)
			src = append(src, x)
			ps, qs = append(ps, x.p), append(qs, x.q)
		}
		for i, b := range o.B {
			k := new(big.Int).SetBytes(b)
			if k.BitLen() > 255 {
				k.SetBit(k, 255, 0)
				k.Rsh(k, uint(k.BitLen()-255))
			}
			ks, ks2 = append(ks, k), append(ks2, new(big.Int).Set(k))
			if i < len(src) && len(o.B) == len(src) {
				m = t.lin(m, t.mul(src[i].m, k), 1)
			}
		}
		given := append([]*big.Int{}, ks...)
		var err error
		var p *bls.PointG1
		var q *bls.PointG2
		if g == 1 {
			p, err = G1.MultiExp(dst.p, ps, ks)
		} else {
			q, err = G2.MultiExp(dst.q, qs, ks)
		}
		e.Count("multi")
		if len(ks) >= 32 {
			e.Count("multi-many")
		}
		for i := range ks {
			if ks[i] != given[i] || given[i].Cmp(ks2[i]) != 0 {
				e.Fail("engine-operand", "%s: the caller's scalar %d changed from %x to %x", what, i, ks2[i], ks[i])
				break
			}
		}
		if ok := len(ks) == len(src); ok != (err == nil) {
			e.Fail("engine-multi", "%s: %d points, %d scalars: %v", what, len(src), len(ks), err)
			return
		} else if !ok {
			t.holds(what+" (refused)", dst)
			return
		}
		dst.m = m
		ans(p, q)
		for _, x := range src {
			if x != dst {
				t.holds(what+" (operand)", x)
			}
		}
	case "conv":
		t.conv(o, what, dst, get(2), G1, G2, GT)
		return
	case "pred":
		t.pred(what, get(1), get(2), G1, G2, GT)
		return
	default:
		return
	}
	t.holds(what, dst)
	if dst.m.v == nil && g < 3 {
		e.Count("outside")
	}
	if g == 3 {
		e.Log("%d %s %x", th, o.N, bls.NewGT().ToBytes(dst.t))
	} else {
		e.Log("%d %s %x", th, o.N, dst.m.enc(0))
	}
}

func (t *engineState) pred(what string, a, b *ereg, G1 *bls.G1, G2 *bls.G2, GT *bls.GT) {
	e := t.e
	var eq, qe, zero, group, curve bool
	weq, wzero := false, false
	switch a.m.g {
	case 1:
		eq, qe, zero, group, curve = G1.Equal(a.p, b.p), G1.Equal(b.p, a.p), G1.IsZero(a.p), G1.InCorrectSubgroup(a.p), G1.IsOnCurve(a.p)
	case 2:
		eq, qe, zero, group, curve = G2.Equal(a.q, b.q), G2.Equal(b.q, a.q), G2.IsZero(a.q), G2.InCorrectSubgroup(a.q), G2.IsOnCurve(a.q)
	default:
		if a.m.v == nil || b.m.v == nil {
			return
		}
		eq, qe, zero, group, curve = GT.Equal(a.t, b.t), a.t.Equal(b.t), GT.IsOne(a.t), GT.IsValid(a.t), a.t.IsOne() == GT.IsOne(a.t)
		weq, wzero = a.m.v.key() == b.m.v.key(), len(a.m.v) == 0
	}
	if a.m.g < 3 {
		weq, wzero = bytes.Equal(a.m.enc(0), b.m.enc(0)), a.m.inf()
	}
	e.Log("pred %v %v %v %v %v", eq, qe, zero, group, curve)
	if eq != weq || qe != weq || zero != wzero || group != (a.m.v != nil) || !curve {
		e.Fail("engine-predicate", "%s: equal %v/%v (want %v), zero %v (want %v), in the group %v (want %v), on the curve %v", what, eq, qe, weq, zero, wzero, group, a.m.v != nil, curve)
	}
	t.holds(what+" (operand)", a)
	t.holds(what+" (operand)", b)
}

func (t *engineState) conv(o engine.Op, what string, dst, src *ereg, G1 *bls.G1, G2 *bls.G2, GT *bls.GT) {
	e, g := t.e, src.m.g
	form := int(in(o.I, 3)) & 3
	if form > 2 || g == 3 {
		form = 0
	}
	what = fmt.Sprintf("%s form %d", what, form)
	var b []byte
	switch {
	case g == 3:
		b = GT.ToBytes(src.t)
		t.holdsGT(what+" (encoding)", b, src.m)
	case g == 1:
		b = []func(*bls.PointG1) []byte{G1.ToCompressed, G1.ToUncompressed, G1.ToBytes}[form](src.p)
	default:
		b = []func(*bls.PointG2) []byte{G2.ToCompressed, G2.ToUncompressed, G2.ToBytes}[form](src.q)
	}
	e.Count("encodings")
	if g < 3 {
		if w := src.m.enc(form); !bytes.Equal(b, w) {
			e.Fail("engine-encoding", "%s: G%d point encodes as %s instead of %s", what, g, engine.Short(b), engine.Short(w))
			b = w
		}
	}
	t.holds(what+" (operand)", src)
	size := len(b)
	var peer []byte
	if g < 3 {
		peer = dst.m.enc(form)
	} else {
		peer = bls.NewGT().ToBytes(dst.t)
	}
	for _, f := range e.FaultsAt(o.K) {
		switch {
		case f.Kind == "torsion" && g < 3:
			e.Count("fault:torsion")
			seed := []byte{byte(f.A), byte(f.A >> 8)}
			if g == 1 {
				if p, ok := ref.G1Decode(b, form, false); ok {
					c, _ := ref.BlsG1()
					tor, _ := ref.G1Parse(ref.BlsTorsionG1(seed), false)
					if f.B == 1 {
						p = c.MulRaw(tor, big.NewInt(1+f.A%7))
					} else {
						p = c.Add(p, tor)
					}
					b = ref.G1Encode(p, form)
				}
			} else if q, ok := ref.G2Decode(b, form, false); ok {
				tor := ref.BlsTorsionG2(seed)
				if f.B == 1 {
					q = tor
				} else {
					q = q.Add(tor)
				}
				b = ref.G2Encode(q, form)
			}
		case strings.HasPrefix(f.Kind, "wire-"):
			b = applyWire(e, cNul, b, peer, f)
		}
	}
	// the encoding may have grown: it is read from its head
	given := t.buffer(o.T, 2, b)
	var p *bls.PointG1
	var q *bls.PointG2
	var x *bls.E
	var err error
	head := b
	if len(head) > size && g < 3 {
		head = head[:size]
	}
	m, ok := eelem{g: 3}, false
	switch g {
	case 1:
		p, err = []func([]byte) (*bls.PointG1, error){G1.FromCompressed, G1.FromUncompressed, G1.FromBytes}[form](given)
		var pt *ref.Point
		if pt, ok = ref.G1Decode(head, form, form < 2); ok {
			m = t.of(1, pt, nil)
		}
	case 2:
		q, err = []func([]byte) (*bls.PointG2, error){G2.FromCompressed, G2.FromUncompressed, G2.FromBytes}[form](given)
		var pt *ref.G2
		if pt, ok = ref.G2Decode(head, form, form < 2); ok {
			m = t.of(2, nil, pt)
		}
	default:
		x, err = GT.FromBytes(given)
		if m, ok = t.gtEl[string(b)]; !ok && err == nil {
			if !bytes.Equal(bls.NewGT().ToBytes(x), b) {
				e.Fail("engine-decode", "%s: FromBytes takes %s for %s", what, engine.Short(b), engine.Short(bls.NewGT().ToBytes(x)))
			} else if src.m.v != nil {
				e.Fail("engine-decode", "%s: FromBytes takes %s, which is no known product", what, engine.Short(b))
			}
			return
		}
	}
	if !bytes.Equal(given, b) {
		e.Fail("engine-operand", "%s: the encoding was changed", what)
	}
	e.Log("%d conv %x %v", o.T, b, err)
	if ok && err != nil && form == 2 && len(b) > size {
		ok = false // the plain form may insist on its length
	}
	if ok != (err == nil) {
		e.Fail("engine-decode", "%s: decoding %s (%d bytes): %v; it is an element: %v", what, engine.Short(b), len(b), err, ok)
		return
	}
	if !ok {
		e.Count("refused")
		t.holds(what+" (refused)", dst)
		return
	}
	dst.p, dst.q, dst.t, dst.m = p, q, x, m
	if g < 3 && m.v == nil {
		e.Count("outside")
	}
	t.holds(what, dst)
}

func (engineProp) Exec(e *engine.Env) {
	t := &engineState{e: e, known: map[string]svec{}, gt: map[string][]byte{}, gtOf: map[string]string{}, gtEl: map[string]eelem{}, regs: map[[3]int64]*ereg{}, eng: map[int]*engines{}, bufs: map[[2]int][]byte{}}
	threads := map[int][]engine.Op{}
	maxT := 0
	run := func(o engine.Op) { catch(e, "engine", o, func() { t.op(o) }) }
	s := e.Solo(20_000_000_000, func() {
		for _, o := range e.Plan.Ops {
			if o.T > 0 && o.T < 16 {
				threads[o.T] = append(threads[o.T], o)
				if o.T > maxT {
					maxT = o.T
				}
			} else if o.T == 0 {
				run(o)
			}
		}
	})
	settle(e, "engine", s)
	var fns []func()
	for i := 1; i <= maxT; i++ {
		ops := threads[i]
		fns = append(fns, func() {
			for _, o := range ops {
				run(o)
			}
		})
	}
	if len(fns) > 0 {
		settle(e, "engine", e.RunSim(nil, 40_000_000_000, fns...))
	}
	var ks [][3]int64
	for k := range t.regs {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	if len(e.Out.Viol) == 0 {
		catch(e, "engine", engine.Op{N: "end"}, func() {
			for _, k := range ks {
				t.holds(fmt.Sprintf("register %v at the end", k), t.regs[k])
			}
		})
	}
	e.Add("operations", t.n)
	e.Out.Trivial = t.n < 5
}
