package props

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/blocktree/go-owcrypt/pasta"

	"verifsim/engine"
	"verifsim/ref"
)

// ---- C20 ----

// Threads work on registers of Pasta objects: F fields, S scalars, A affine and
// G projective points, C compressed points, H sponges, M messages.  Negative numbers are
// registers of thread 0, which runs first; others only read them.
//
//	load  I=[kind, dst, how] B=[value or text]   how: 0 hex 1 big-endian bytes 2 words (S)
//	add sub mul   I=[kind, dst, a, b]  (F S; add: A G too)
//	neg sq copy inv dbl I=[kind, dst, a]; pow I=[F, dst, a, exponent]
//	times I=[kind, dst, a, s]  (A G); pub I=[A, dst, s]
//	one zero I=[kind, dst] (A G); cast I=[kind, dst, a]  (A from G, G from A)
//	scale I=[G, dst, f]    other coordinates for the same point
//	enc   I=[dst, a, form] points as 33, 64 or 65 bytes;  faults: wire-*
//	comp I=[dst(C), a]; dec I=[dst, c(C)]; send I=[dst(C), c(C)]  faults: wire-*
//	pred  I=[kind, a, b]
//	init  I=[dst(H), f...]; absorb I=[h, f...]; fork I=[dst(H), h]; digest I=[h, end]; crash I=[h, chunk]
//	msg   I=[dst(M), prefix, suffix, f]; store I=[dst(M), m] faults: wire-*; hash I=[a, f, m]
type pastaProp struct{}

func init() { engine.Register(pastaProp{}) }

func (pastaProp) ID() string { return "C20" }

const pastaRegs = 4

func (pastaProp) Info() engine.Info {
	return engine.Info{Quick: 4000, Thorough: 200000, Chunk: 25, PlainQuick: 20000, PlainThorough: 2000000, PlainChunk: 100, QuickSecs: 45, ThoroughSecs: 700, Timeout: 120,
		Rule:        "an episode counts when at least five operations ran; distinct = distinct event logs",
		Real:        []string{"pasta: fields, scalars, points, encodings, Poseidon sponge, Mina messages and their hash"},
		Stubs:       []string{"storage and network that encodings and messages pass", "thread scheduler"},
		Assumptions: []string{"the reference field, curve and sponge (math/big) are correct", "the round constants in use when the check was written are the published ones", "a sponge is not used after its final digest, except to be set up again"},
		MinProbes: map[string]int64{"absorbed": 5000, "digests": 3000, "forks": 500, "fault:crash": 500, "encodings": 1000, "refused": 500, "decoded": 500, "doubled": 100,
			"messages": 500, "hashes": 500, "checks": 5000, "alias": 1000, "between": 500},
	}
}

const (
	kF = iota
	kS
	kA
	kG
	kC
	kH
	kM
)

func (pastaProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C20", seed, idx)
	p := &engine.Plan{Prop: "C20", Seed: seed, Idx: idx, Kind: "pasta"}
	p.Sched = engine.Sched{Seed: r.U64(), MeanRun: int64(engine.PickInt(r, 500, 5000, 50000)), GlobalPct: 10}
	plain := idx >= engine.PlainBase
	k := 0
	add := func(o engine.Op) int {
		k++
		o.K = k
		p.Ops = append(p.Ops, o)
		return k
	}
	value := func(kind int64) *big.Int {
		m := ref.Pallas.P
		if kind == kS {
			m = ref.Pallas.N
		}
		x := new(big.Int)
		switch r.Intn(7) {
		case 0:
			x.SetInt64(int64(r.Intn(6)))
		case 1:
			x.Sub(m, big.NewInt(int64(1+r.Intn(5))))
		case 2:
			x.Lsh(one, uint(r.Intn(255)))
			x.Sub(x, big.NewInt(int64(r.Intn(2))))
		case 3:
			x.Rsh(m, uint(r.Intn(4)))
			x.Add(x, big.NewInt(int64(r.Intn(3)-1)))
		default:
			x.SetBytes(r.Bytes(32))
		}
		return x.Mod(x, m)
	}
	load := func(t int, kind, dst int64) {
		o := engine.Op{T: t, N: "load", I: []int64{kind, dst, int64(r.Intn(3))}}
		x := value(kind)
		switch o.I[2] {
		case 0:
			if x.BitLen() == 255 && r.Intn(4) > 0 {
				x.SetBit(x, 254, 0)
			}
			if r.Intn(10) == 0 { // beyond the prime
				x.SetBytes(r.Bytes(32))
			}
			o.B = h3([]byte(hex.EncodeToString(ref.LE32(x))))
		case 1:
			b := ref.B32(x)
			if r.Intn(4) == 0 {
				b = x.Bytes()
				if r.Intn(2) == 0 && len(b) > 0 {
					b = b[r.Intn(len(b)):]
				}
			}
			o.B = h3(b)
		default:
			o.B = h3(r.Bytes(32))
			if r.Intn(2) == 0 {
				o.B = h3(ref.LE32(x))
			}
		}
		at := add(o)
		if o.I[2] == 0 && r.Intn(4) == 0 {
			p.Faults = append(p.Faults, genWire(r, at, 0, cPasta))
		}
	}
	threads := 1
	if !plain && r.Intn(2) > 0 {
		threads = 2 + r.Intn(2)
	}
	shared := r.Intn(2) == 0
	focus := r.Intn(4) // 0: sponge, 1: points, else mixed
	if shared {
		for i := int64(-1); i >= -2; i-- {
			load(0, kF, i)
			load(0, kS, i)
			add(engine.Op{N: "pub", I: []int64{kA, i, i}})
			add(engine.Op{N: "times", I: []int64{kG, i, i, i}})
			add(engine.Op{N: "init", I: []int64{i, -1, -2, i}})
			add(engine.Op{N: "absorb", I: []int64{i, -1, i}})
			add(engine.Op{N: "msg", I: []int64{i, 2, 1, -1}})
		}
	}
	for t := 1; t <= threads; t++ {
		t := t
		ops := 15 + r.Intn(60)
		if !plain && threads > 1 {
			ops = 5 + r.Intn(20)
		}
		addT := func(o engine.Op) int { o.T = t; return add(o) }
		reg := func() int64 { return int64(r.Intn(pastaRegs)) }
		src := func() int64 {
			if shared && r.Intn(4) == 0 {
				return int64(-1 - r.Intn(2))
			}
			return reg()
		}
		list := func(n int) (l []int64) {
			for ; n > 0; n-- {
				l = append(l, src())
			}
			return
		}
		fault := func(at int) {
			if r.Intn(2) == 0 {
				for m := 1 + r.Intn(5)/4; m > 0; m-- {
					p.Faults = append(p.Faults, genWire(r, at, 0, cPasta))
				}
			}
		}
		for i := int64(0); i < 3; i++ {
			load(t, kF, i)
		}
		load(t, kS, reg())
		addT(engine.Op{N: "pub", I: []int64{kA, reg(), src()}})
		addT(engine.Op{N: "init", I: append([]int64{reg()}, list(3)...)})
		for ; ops > 0; ops-- {
			x := r.Intn(100)
			if focus == 0 && r.Intn(2) == 0 {
				x = r.Intn(35)
			}
			if focus == 1 && r.Intn(2) == 0 {
				x = 50 + r.Intn(30)
			}
			switch {
			case x < 3:
				addT(engine.Op{N: "init", I: append([]int64{reg()}, list(engine.PickInt(r, 0, 3, 3, 3, 3, 2, 4))...)})
			case x < 15:
				addT(engine.Op{N: "absorb", I: append([]int64{reg()}, list(engine.PickInt(r, 0, 1, 1, 1, 2, 2, 3, 4, 5, 8))...)})
			case x < 22:
				addT(engine.Op{N: "fork", I: []int64{reg(), src()}})
			case x < 30:
				addT(engine.Op{N: "digest", I: []int64{src(), int64(r.Intn(4) / 3)}})
			case x < 35:
				addT(engine.Op{N: "crash", I: []int64{reg(), int64(r.Intn(4))}})
			case x < 38:
				load(t, int64(r.Intn(2)), reg())
			case x < 44:
				kind := int64(r.Intn(2))
				addT(engine.Op{N: engine.Pick(r, "add", "sub", "mul", "mul"), I: []int64{kind, reg(), src(), src()}})
			case x < 48:
				kind := int64(r.Intn(2))
				addT(engine.Op{N: engine.Pick(r, "neg", "sq", "copy", "inv"), I: []int64{kind, reg(), src()}})
			case x < 50:
				addT(engine.Op{N: "pow", I: []int64{kF, reg(), src(), int64(r.Intn(256))}})
			case x < 58:
				kind := int64(kA + r.Intn(2))
				o := engine.Op{N: "add", I: []int64{kind, reg(), src(), src()}}
				if r.Intn(3) == 0 { // a point and another form of itself or its negation
					a := reg()
					addT(engine.Op{N: engine.Pick(r, "copy", "neg"), I: []int64{kG, a, o.I[2]}})
					addT(engine.Op{N: "scale", I: []int64{kG, a, src()}})
					o.I[0], o.I[3] = kG, a
				}
				addT(o)
			case x < 62:
				addT(engine.Op{N: engine.Pick(r, "neg", "dbl", "copy"), I: []int64{int64(kA + r.Intn(2)), reg(), src()}})
			case x < 66:
				addT(engine.Op{N: "times", I: []int64{int64(kA + r.Intn(2)), reg(), src(), src()}})
			case x < 68:
				addT(engine.Op{N: engine.Pick(r, "one", "zero", "pub"), I: []int64{int64(kA + r.Intn(2)), reg(), src()}})
			case x < 70:
				addT(engine.Op{N: "cast", I: []int64{int64(kA + r.Intn(2)), reg(), src()}})
			case x < 72:
				addT(engine.Op{N: "scale", I: []int64{kG, reg(), src()}})
			case x < 80:
				fault(addT(engine.Op{N: "enc", I: []int64{reg(), src(), int64(r.Intn(3))}}))
			case x < 83:
				addT(engine.Op{N: "comp", I: []int64{reg(), src()}})
			case x < 86:
				addT(engine.Op{N: "dec", I: []int64{reg(), src()}})
			case x < 88:
				fault(addT(engine.Op{N: "send", I: []int64{reg(), src()}}))
			case x < 92:
				addT(engine.Op{N: "pred", I: []int64{int64(r.Intn(4)), src(), src()}})
			case x < 94:
				addT(engine.Op{N: "msg", I: []int64{reg(), int64(r.Intn(6)), int64(r.Intn(6)), src()}})
			case x < 97:
				fault(addT(engine.Op{N: "store", I: []int64{reg(), src()}}))
			default:
				addT(engine.Op{N: "hash", I: []int64{src(), src(), src()}})
			}
		}
	}
	return p
}

type preg struct {
	f  pasta.Field
	s  pasta.Scalar
	a  pasta.Affine
	g  pasta.Group
	c  pasta.Compressed
	h  pasta.PoseidonCtx
	m  pasta.MinaMessage
	mf *big.Int   // F, S
	mp *ref.Point // A, G
	mx *big.Int   // C
	mo bool
	mh *ref.Poseidon
	// the sponge's input so far
	iv   []pasta.Field
	fed  []pasta.Field
	done bool
	mm   []byte // M: its stored form
}

type pastaState struct {
	e    *engine.Env
	regs map[[3]int64]*preg
	buf  map[int][]pasta.Field
	n    int64
}

func (t *pastaState) reg(th int, kind, i int64) *preg {
	k := [3]int64{int64(th), kind, i & (pastaRegs - 1)}
	if i < 0 {
		k[0], k[2] = 0, -1-(-1-i)%2
	}
	r := t.regs[k]
	if r == nil {
		r = &preg{mf: new(big.Int), mp: &ref.Point{Inf: true}, mx: new(big.Int), mh: ref.NewPoseidon(), h: pasta.Poseidon3WInit(nil)}
		r.mm = r.m.ToBytes()
		if i >= 0 || th == 0 {
			t.regs[k] = r
		}
	}
	return r
}

// fields copies registers into the memory that the thread uses for every call.
func (t *pastaState) fields(th int, ix []int64) []pasta.Field {
	if t.buf[th] == nil {
		t.buf[th] = make([]pasta.Field, 16)
	}
	l := t.buf[th][:0]
	for _, i := range ix {
		l = append(l, t.reg(th, kF, i).f)
	}
	return l
}

// value reads a field element; canonical or nil.
func pastaValue(l [4]uint64, m *big.Int) *big.Int {
	if ref.Limbs(l).Cmp(m) >= 0 {
		return nil
	}
	return ref.FromMont(l, m)
}

func (t *pastaState) holds(what string, kind int64, r *preg) {
	e := t.e
	e.Count("checks")
	P := ref.Pallas.P
	num := func(n string, l [4]uint64, m, want *big.Int) {
		if v := pastaValue(l, m); v == nil || v.Cmp(want) != 0 {
			e.Fail("pasta-value", "%s: %s is %x instead of %x", what, n, v, want)
		}
	}
	switch kind {
	case kF:
		num("field", r.f, P, r.mf)
	case kS:
		num("scalar", r.s, ref.Pallas.N, r.mf)
	case kA:
		x, y := new(big.Int), new(big.Int)
		if !r.mp.Inf {
			x, y = r.mp.X, r.mp.Y
		}
		num("X", r.a.X, P, x)
		num("Y", r.a.Y, P, y)
	case kG:
		x, y, z := pastaValue(r.g.X, P), pastaValue(r.g.Y, P), pastaValue(r.g.Z, P)
		if x == nil || y == nil || z == nil {
			e.Fail("pasta-value", "%s: a coordinate is out of range", what)
			return
		}
		if (z.Sign() == 0) != r.mp.Inf {
			e.Fail("pasta-value", "%s: infinity is %v instead of %v", what, z.Sign() == 0, r.mp.Inf)
			return
		}
		if r.mp.Inf {
			return
		}
		z2 := new(big.Int).Mul(z, z)
		z3 := new(big.Int).Mul(z2, z)
		z2.Mul(z2, r.mp.X).Sub(z2, x).Mod(z2, P)
		z3.Mul(z3, r.mp.Y).Sub(z3, y).Mod(z3, P)
		if z2.Sign() != 0 || z3.Sign() != 0 {
			e.Fail("pasta-value", "%s: a projective point is not (%x, %x)", what, r.mp.X, r.mp.Y)
		}
	case kC:
		if w := append([]byte{2}, ref.B32(r.mx)...); !bytes.Equal(r.c.ToBigEndianBytes()[1:], w[1:]) || r.c.IsOdd != r.mo || r.c.ToBigEndianBytes()[0]&1 == 1 != r.mo {
			e.Fail("pasta-encoding", "%s: compressed point encodes as %x, X should be %x, odd %v", what, r.c.ToBigEndianBytes(), r.mx, r.mo)
		}
	case kH:
		if r.done {
			return
		}
		c := r.h // a copy
		d := pasta.PoseidonDigest(&c)
		e.Count("digests")
		if w := ref.B32(r.mh.Digest()); !bytes.Equal(d, w) {
			e.Fail("pasta-sponge", "%s: after %d elements the digest is %x instead of %x", what, len(r.fed), d, w)
		}
	case kM:
		if b := r.m.ToBytes(); !sameJSON(b, r.mm) {
			e.Fail("pasta-message", "%s: the message is %s instead of %s", what, b, r.mm)
		}
	}
}

func sameJSON(a, b []byte) bool {
	x, ok := ref.MinaParse(a)
	y, ok2 := ref.MinaParse(b)
	return ok && ok2 && fmt.Sprint(x) == fmt.Sprint(y)
}

func (t *pastaState) op(o engine.Op) {
	e, th := t.e, o.T
	what := fmt.Sprintf("%s %v", o.N, o.I)
	P, N := ref.Pallas.P, ref.Pallas.N
	kind := in(o.I, 0)
	get := func(k int64, i int) *preg { return t.reg(th, k, in(o.I, i)) }
	t.n++
	if t.n > 1 && th > 1 {
		e.Count("between")
	}
	switch o.N {
	case "init", "absorb", "fork", "digest", "crash":
		t.sponge(o, what)
		return
	case "enc", "comp", "dec", "send":
		t.conv(o, what)
		return
	case "msg", "store", "hash":
		t.message(o, what)
		return
	case "pred":
		t.pred(what, kind, get(kind, 1), get(kind, 2))
		return
	}
	if kind < kF || kind > kG || len(o.I) < 2 || th != 0 && in(o.I, 1) < 0 {
		return
	}
	dst := get(kind, 1)
	m := P
	if kind == kS {
		m = N
	}
	if len(o.I) > 2 && (o.I[1] == o.I[2] || len(o.I) > 3 && o.I[1] == o.I[3]) {
		e.Count("alias")
	}
	mod := func(x *big.Int) *big.Int { return x.Mod(x, m) }
	switch o.N {
	case "load":
		if kind > kS || len(o.B) == 0 {
			return
		}
		b := dup(o.B[0])
		how := in(o.I, 2)
		for _, f := range e.FaultsAt(o.K) {
			if how == 0 && strings.HasPrefix(f.Kind, "wire-") {
				b = applyWire(e, cPasta, b, nil, f)
			}
		}
		switch {
		case how == 0:
			raw, err := hex.DecodeString(string(b))
			ok := err == nil && len(raw) == 32 && raw[31]&0xc0 == 0
			var got bool
			if kind == kF {
				got = pasta.FieldFromHex(&dst.f, string(b))
			} else {
				got = pasta.ScalarFromHex(&dst.s, string(b))
			}
			if got != ok {
				e.Fail("pasta-decode", "%s: text %q: taken %v", what, b, got)
				return
			}
			if ok {
				dst.mf = mod(ref.LE(raw))
			} else {
				e.Count("refused")
			}
		case how == 2 && kind == kS && len(b) == 32:
			var w [32]byte
			copy(w[:], b)
			pasta.ScalarFromWords(&dst.s, pasta.BytesArrayToU64Array(w))
			x := ref.LE(b)
			dst.mf = mod(x.Mod(x, new(big.Int).Lsh(one, 254)))
			if u := pasta.U64ArrayToBytesArray(pasta.BytesArrayToU64Array(w)); u != w {
				e.Fail("pasta-encoding", "%s: words of %x are bytes %x", what, b, u)
			}
		default:
			x := new(big.Int).SetBytes(b)
			if len(b) > 32 || x.Cmp(m) >= 0 {
				return
			}
			keep := dup(b)
			var back []byte
			if kind == kF {
				dst.f.Set(pasta.BigEndianBytesToFpMontgomeryArray(b))
				back = pasta.FpMontgomeryArrayToBigEndianBytes(dst.f.ToU64Array())
			} else {
				dst.s.Set(pasta.BigEndianBytesToFqMontgomeryArray(b))
				back = pasta.FqMontgomeryArrayToBigEndianBytes(dst.s.ToU64Array())
			}
			if !bytes.Equal(b, keep) {
				e.Fail("pasta-operand", "%s: the bytes were changed", what)
			}
			dst.mf = x
			if !bytes.Equal(back, ref.B32(x)) {
				e.Fail("pasta-encoding", "%s: %x encodes as %x", what, b, back)
			}
		}
	case "add", "sub", "mul":
		a, b := get(kind, 2), get(kind, 3)
		if kind >= kA {
			if o.N != "add" {
				return
			}
			w := ref.Pallas.Add(a.mp, b.mp)
			if kind == kA {
				pasta.AffineAdd(&dst.a, a.a, b.a)
			} else {
				if !a.mp.Inf && !b.mp.Inf && a.mp.X.Cmp(b.mp.X) == 0 && a.mp.Y.Cmp(b.mp.Y) == 0 && a.g.Z != b.g.Z {
					e.Count("doubled")
				}
				pasta.GroupAdd(&dst.g, a.g, b.g)
			}
			dst.mp = w
			break
		}
		x := new(big.Int)
		switch o.N {
		case "add":
			x.Add(a.mf, b.mf)
			if kind == kF {
				pasta.FieldAdd(&dst.f, a.f, b.f)
			} else {
				pasta.ScalarAdd(&dst.s, a.s, b.s)
			}
		case "sub":
			x.Sub(a.mf, b.mf)
			if kind == kF {
				pasta.FieldSub(&dst.f, a.f, b.f)
			} else {
				pasta.ScalarSub(&dst.s, a.s, b.s)
			}
		default:
			x.Mul(a.mf, b.mf)
			if kind == kF {
				pasta.FieldMul(&dst.f, a.f, b.f)
			} else {
				pasta.ScalarMul(&dst.s, a.s, b.s)
			}
		}
		dst.mf = mod(x)
	case "neg", "copy":
		a := get(kind, 2)
		neg := o.N == "neg"
		switch kind {
		case kF, kS:
			x := new(big.Int).Set(a.mf)
			if neg {
				x.Neg(x)
			}
			switch {
			case kind == kF && neg:
				pasta.FieldNegate(&dst.f, a.f)
			case kind == kF:
				pasta.FieldCopy(&dst.f, a.f)
			case neg:
				pasta.ScalarNegate(&dst.s, a.s)
			default:
				pasta.ScalarCopy(&dst.s, a.s)
			}
			dst.mf = mod(x)
		default:
			w := a.mp
			if neg {
				w = ref.Pallas.Neg(w)
			}
			switch {
			case kind == kA && neg:
				pasta.AffineNegate(&dst.a, a.a)
			case kind == kA:
				dst.a = a.a
			case neg:
				pasta.GroupNegate(&dst.g, a.g)
			default:
				dst.g = a.g
			}
			dst.mp = w
		}
	case "sq", "inv", "pow":
		a := get(kind, 2)
		x := new(big.Int)
		switch {
		case kind == kF && o.N == "sq":
			x.Mul(a.mf, a.mf)
			pasta.FieldSq(&dst.f, a.f)
		case kind == kS && o.N == "sq":
			x.Mul(a.mf, a.mf)
			pasta.ScalarSq(&dst.s, a.s)
		case kind == kF && o.N == "inv":
			if a.mf.Sign() != 0 {
				x.ModInverse(a.mf, P)
			}
			pasta.FieldInv(&dst.f, a.f)
		case kind == kF && o.N == "pow":
			x.Exp(a.mf, big.NewInt(in(o.I, 3)&255), P)
			pasta.FieldPow(&dst.f, a.f, uint8(in(o.I, 3)))
		default:
			return
		}
		dst.mf = mod(x)
	case "dbl":
		a := get(kind, 2)
		if kind != kG {
			return
		}
		w := ref.Pallas.Add(a.mp, a.mp)
		pasta.GroupDbl(&dst.g, a.g)
		dst.mp = w
	case "times":
		a, s := get(kind, 2), get(kS, 3)
		w := a.mp
		if !w.Inf {
			w = ref.Pallas.Mul(w, s.mf)
		}
		switch kind {
		case kA:
			pasta.AffineScalarMul(&dst.a, s.s, a.a)
		case kG:
			pasta.GroupScalarMul(&dst.g, s.s, a.g)
		default:
			return
		}
		dst.mp = w
	case "pub":
		if kind != kA {
			return
		}
		s := get(kS, 2)
		pasta.GeneratePubkey(&dst.a, s.s)
		dst.mp = ref.Pallas.Base(s.mf)
	case "one", "zero":
		z := o.N == "zero"
		switch {
		case kind == kA && z:
			dst.a = pasta.Affine{}
		case kind == kA:
			dst.a = pasta.AffineOne
		case kind == kG && z:
			dst.g = pasta.GroupZero
		case kind == kG:
			pasta.GroupOne(&dst.g)
		default:
			return
		}
		dst.mp = &ref.Point{Inf: true}
		if !z {
			dst.mp = ref.Pallas.Base(one)
		}
	case "cast":
		switch kind {
		case kA:
			a := get(kG, 2)
			pasta.AffineFromGroup(&dst.a, a.g)
			dst.mp = a.mp
		case kG:
			a := get(kA, 2)
			pasta.AffineToGroup(&dst.g, a.a)
			dst.mp = a.mp
		default:
			return
		}
	case "scale":
		f := get(kF, 2)
		if kind != kG || f.mf.Sign() == 0 {
			return
		}
		g := dst.g
		var f2, f3 pasta.Field
		pasta.FieldMul(&f2, f.f, f.f)
		pasta.FieldMul(&f3, f2, f.f)
		pasta.FieldMul(&g.X, g.X, f2)
		pasta.FieldMul(&g.Y, g.Y, f3)
		pasta.FieldMul(&g.Z, g.Z, f.f)
		dst.g = g
	default:
		return
	}
	t.holds(what, kind, dst)
	e.Log("%d %s %v", th, what, dst.mf)
	if kind >= kA && !dst.mp.Inf {
		e.Log("%x", dst.mp.X)
	}
}

func (t *pastaState) pred(what string, kind int64, a, b *preg) {
	e := t.e
	var got, want []bool
	bit := func(u uint) bool {
		if u > 1 {
			e.Fail("pasta-predicate", "%s: a predicate answers %d", what, u)
		}
		return u == 1
	}
	same := a.mp.Inf && b.mp.Inf || !a.mp.Inf && !b.mp.Inf && a.mp.X.Cmp(b.mp.X) == 0 && a.mp.Y.Cmp(b.mp.Y) == 0
	switch kind {
	case kF:
		var rt [4]uint64
		ok := pasta.FiatPastaFpSqrt(&rt, a.f.ToU64Array())
		j := big.Jacobi(a.mf, ref.Pallas.P)
		got = []bool{bit(pasta.FieldEq(a.f, b.f)), pasta.FieldIsOdd(a.f), ok, pasta.FiatPastaFpLegendRe(a.f.ToU64Array()) == j}
		want = []bool{a.mf.Cmp(b.mf) == 0, a.mf.Bit(0) == 1, j >= 0, true}
		if ok && j >= 0 {
			x := pastaValue(rt, ref.Pallas.P)
			if x == nil || x.Mul(x, x).Mod(x, ref.Pallas.P).Cmp(a.mf) != 0 {
				e.Fail("pasta-value", "%s: the root %x does not square to %x", what, rt, a.mf)
			}
		}
	case kS:
		got = []bool{pasta.ScalarEq(a.s, b.s)}
		want = []bool{a.mf.Cmp(b.mf) == 0}
	case kA:
		got = []bool{pasta.AffineEq(a.a, b.a), bit(pasta.AffineIsZero(a.a)), pasta.AffineIsOnCurve(a.a)}
		want = []bool{same, a.mp.Inf, true}
	case kG:
		got = []bool{bit(pasta.IsZero(a.g)), bit(pasta.GroupIsOnCurve(a.g))}
		want = []bool{a.mp.Inf, true}
	default:
		return
	}
	e.Log("%s %v", what, got)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		e.Fail("pasta-predicate", "%s: answers %v instead of %v", what, got, want)
	}
}

func (t *pastaState) sponge(o engine.Op, what string) {
	e, th := t.e, o.T
	if len(o.I) == 0 || th != 0 && o.I[0] < 0 && o.N != "digest" {
		return
	}
	h := t.reg(th, kH, o.I[0])
	switch o.N {
	case "init":
		iv := t.fields(th, o.I[1:])
		keep := append([]pasta.Field{}, iv...)
		if len(iv) == 0 {
			h.h = pasta.Poseidon3WInit(nil)
		} else {
			h.h = pasta.Poseidon3WInit(iv)
		}
		var v []*big.Int
		for _, i := range o.I[1:] {
			v = append(v, t.reg(th, kF, i).mf)
		}
		h.mh, h.iv, h.fed, h.done = ref.NewPoseidon(v...), keep, nil, false
	case "absorb":
		if h.done {
			return
		}
		l := t.fields(th, o.I[1:])
		keep := append([]pasta.Field{}, l...)
		if len(l) == 0 && o.K%2 == 0 {
			l = nil
		}
		pasta.PoseidonUpdate(&h.h, l)
		for i, j := range o.I[1:] {
			if l[i] != keep[i] {
				e.Fail("pasta-operand", "%s: element %d of the input was changed", what, i)
			}
			h.mh.Absorb(t.reg(th, kF, j).mf)
		}
		h.fed = append(h.fed, keep...)
		e.Add("absorbed", int64(len(keep)))
	case "fork":
		s := t.reg(th, kH, in(o.I, 1))
		h.h, h.mh, h.iv, h.fed, h.done = s.h, s.mh.Clone(), s.iv, append([]pasta.Field{}, s.fed...), s.done
		e.Count("forks")
	case "digest":
		if in(o.I, 1) == 1 && !h.done && (th == 0 || o.I[0] >= 0) {
			w := ref.B32(h.mh.Digest())
			d := pasta.PoseidonDigest(&h.h)
			e.Count("digests")
			if !bytes.Equal(d, w) {
				e.Fail("pasta-sponge", "%s: after %d elements the final digest is %x instead of %x", what, len(h.fed), d, w)
			}
			h.done = true
		}
	case "crash": // the sponge is lost; its input is read again in other pieces
		e.Count("fault:crash")
		h.h = pasta.Poseidon3WInit(h.iv)
		h.done = false
		n := int(in(o.I, 1)) + 1
		for l := h.fed; len(l) > 0; {
			if n > len(l) {
				n = len(l)
			}
			pasta.PoseidonUpdate(&h.h, l[:n])
			l = l[n:]
		}
	}
	t.holds(what, kH, h)
	e.Log("%d %s %x", th, what, h.mh.Digest())
}

func (t *pastaState) conv(o engine.Op, what string) {
	e, th := t.e, o.T
	if len(o.I) < 2 || th != 0 && o.I[0] < 0 {
		return
	}
	wire := func(b, peer []byte) []byte {
		for _, f := range e.FaultsAt(o.K) {
			if strings.HasPrefix(f.Kind, "wire-") {
				b = applyWire(e, cPasta, b, peer, f)
			}
		}
		return b
	}
	enc := func(p *ref.Point, form int64) []byte {
		b := make([]byte, 64)
		if !p.Inf {
			b = p.Bytes()
		}
		switch form {
		case 0:
			return append([]byte{2 + b[63]&1}, b[:32]...)
		case 2:
			return append([]byte{4}, b...)
		}
		return b
	}
	switch o.N {
	case "enc":
		dst, a, form := t.reg(th, kA, o.I[0]), t.reg(th, kA, o.I[1]), in(o.I, 2)%3
		var b []byte
		switch form {
		case 0:
			var c pasta.Compressed
			pasta.Compress(&c, a.a)
			b = c.ToBigEndianBytes()
		case 1:
			b = a.a.ToBigEndianBytes()
		default:
			b = append([]byte{4}, a.a.ToBigEndianBytes()...)
		}
		e.Count("encodings")
		if w := enc(a.mp, form); !bytes.Equal(b, w) {
			e.Fail("pasta-encoding", "%s: a point encodes as %x instead of %x", what, b, w)
			return
		}
		b = wire(b, enc(dst.mp, form))
		given := dup(b)
		err := dst.a.FromBigEndianBytes(given)
		if !bytes.Equal(given, b) {
			e.Fail("pasta-operand", "%s: the encoding was changed", what)
		}
		w := ref.MinaPoint(b)
		e.Log("%d %s %x %v", th, what, b, err)
		if (w != nil) != (err == nil) {
			e.Fail("pasta-decode", "%s: decoding %x: %v", what, b, err)
			return
		}
		if w == nil {
			e.Count("refused")
			dst.a, dst.mp = pasta.Affine{}, &ref.Point{Inf: true} // undefined
			return
		}
		e.Count("decoded")
		dst.mp = w
		t.holds(what, kA, dst)
	case "comp":
		dst, a := t.reg(th, kC, o.I[0]), t.reg(th, kA, o.I[1])
		pasta.Compress(&dst.c, a.a)
		dst.mx, dst.mo = new(big.Int), false
		if !a.mp.Inf {
			dst.mx, dst.mo = a.mp.X, a.mp.Y.Bit(0) == 1
		}
		e.Log("%d %s %x", th, what, dst.mx)
		t.holds(what, kC, dst)
	case "dec":
		dst, c := t.reg(th, kA, o.I[0]), t.reg(th, kC, o.I[1])
		ok := pasta.Decompress(&dst.a, c.c)
		odd := uint(0)
		if c.mo {
			odd = 1
		}
		w := ref.Pallas.Lift(c.mx, odd)
		e.Log("%d %s %v", th, what, ok)
		if (w != nil) != ok {
			e.Fail("pasta-decode", "%s: decompressing X %x, odd %v: %v", what, c.mx, c.mo, ok)
			return
		}
		if w == nil {
			e.Count("refused")
			dst.a, dst.mp = pasta.Affine{}, &ref.Point{Inf: true} // undefined
			return
		}
		e.Count("decoded")
		dst.mp = w
		t.holds(what, kA, dst)
		t.holds(what+" (operand)", kC, c)
	case "send":
		dst, c := t.reg(th, kC, o.I[0]), t.reg(th, kC, o.I[1])
		b := wire(c.c.ToBigEndianBytes(), dst.c.ToBigEndianBytes())
		given := dup(b)
		err := dst.c.FromBigEndianBytes(given)
		if !bytes.Equal(given, b) {
			e.Fail("pasta-operand", "%s: the encoding was changed", what)
		}
		ok := len(b) == 33 && (b[0] == 2 || b[0] == 3) && new(big.Int).SetBytes(b[1:]).Cmp(ref.Pallas.P) < 0
		e.Log("%d %s %x %v", th, what, b, err)
		if ok != (err == nil) {
			e.Fail("pasta-decode", "%s: reading %x: %v", what, b, err)
			return
		}
		if !ok {
			e.Count("refused")
			dst.c, dst.mx, dst.mo = pasta.Compressed{}, new(big.Int), false // undefined
			return
		}
		dst.mx, dst.mo = new(big.Int).SetBytes(b[1:]), b[0] == 3
		t.holds(what, kC, dst)
	}
}

func (t *pastaState) message(o engine.Op, what string) {
	e, th := t.e, o.T
	if len(o.I) < 2 || th != 0 && o.I[0] < 0 && o.N != "hash" {
		return
	}
	switch o.N {
	case "msg":
		dst := t.reg(th, kM, o.I[0])
		f := in(o.I, 3)
		next := func(n int64) (l []pasta.Field) {
			for ; n > 0; n-- {
				l = append(l, t.reg(th, kF, f).f)
				if f >= 0 {
					f++
				}
			}
			return
		}
		n := in(o.I, 1) & 7
		all := next(n + in(o.I, 2)&7) // both are cut from one list
		dst.m = pasta.MinaMessage{TransactionPrefix: all[:n], TransactionSuffix: all[n:]}
		copy(dst.m.SpongeIV[:], next(3))
		dst.mm, _ = json.Marshal(dst.m)
		e.Count("messages")
		t.holds(what, kM, dst)
	case "store":
		dst, src := t.reg(th, kM, o.I[0]), t.reg(th, kM, o.I[1])
		b := src.m.ToBytes()
		if !sameJSON(b, src.mm) {
			e.Fail("pasta-message", "%s: the message is stored as %s instead of %s", what, b, src.mm)
		}
		for _, f := range e.FaultsAt(o.K) {
			if strings.HasPrefix(f.Kind, "wire-") {
				b = applyWire(e, cPasta, b, dst.mm, f)
			}
		}
		given := dup(b)
		m, err := pasta.NewMinaMessage(given)
		if !bytes.Equal(given, b) {
			e.Fail("pasta-operand", "%s: the stored message was changed", what)
		}
		_, ok := ref.MinaParse(b)
		e.Log("%d %s %x %v", th, what, b, err)
		if ok != (err == nil) {
			e.Fail("pasta-decode", "%s: reading %q: %v", what, engine.Short(b), err)
			return
		}
		if !ok {
			e.Count("refused")
			t.holds(what+" (refused)", kM, dst)
			return
		}
		dst.m, dst.mm = *m, b
		e.Count("messages")
		t.holds(what, kM, dst)
	case "hash":
		a, f, m := t.reg(th, kA, o.I[0]), t.reg(th, kF, o.I[1]), t.reg(th, kM, in(o.I, 2))
		if a.mp.Inf {
			return
		}
		pub := a.mp.Bytes()
		given := dup(pub)
		d := pasta.MessageHash(given, f.f, m.m)
		e.Count("hashes")
		pm, ok := ref.MinaParse(m.mm)
		if !ok {
			e.Fail("harness", "a message is not one")
			return
		}
		w := ref.B32(ref.MinaHash(pm, a.mp, f.mf))
		e.Log("%d %s %x", th, what, d)
		if !bytes.Equal(d, w) {
			e.Fail("pasta-sponge", "%s: the message hash is %x instead of %x", what, d, w)
		}
		if !bytes.Equal(given, pub) {
			e.Fail("pasta-operand", "%s: the public key was changed", what)
		}
		t.holds(what+" (operand)", kM, m)
	}
}

func (pastaProp) Exec(e *engine.Env) {
	t := &pastaState{e: e, regs: map[[3]int64]*preg{}, buf: map[int][]pasta.Field{}}
	threads := map[int][]engine.Op{}
	maxT := 0
	run := func(o engine.Op) { catch(e, "pasta", o, func() { t.op(o) }) }
	s := e.Solo(20_000_000_000, func() {
		for _, o := range e.Plan.Ops {
			if o.T > 0 && o.T < 16 {
				threads[o.T] = append(threads[o.T], o)
				if o.T > maxT {
					maxT = o.T
				}
			} else if o.T == 0 {
				run(o)
			}
		}
	})
	settle(e, "pasta", s)
	var fns []func()
	for i := 1; i <= maxT; i++ {
		ops := threads[i]
		fns = append(fns, func() {
			for _, o := range ops {
				run(o)
			}
		})
	}
	if len(fns) > 0 {
		settle(e, "pasta", e.RunSim(nil, 40_000_000_000, fns...))
	}
	var ks [][3]int64
	for k := range t.regs {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	if len(e.Out.Viol) == 0 {
		catch(e, "pasta", engine.Op{N: "end"}, func() {
			for _, k := range ks {
				t.holds(fmt.Sprintf("register %v at the end", k), k[1], t.regs[k])
			}
		})
	}
	e.Add("operations", t.n)
	e.Out.Trivial = t.n < 5
}
