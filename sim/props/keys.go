package props

import (
	"bytes"
	"math/big"
	"strings"

	"verifsim/engine"
	"verifsim/ref"
)

// The workloads of C14, C16 and C17: keys that several parties compute without
// ever seeing the private key, from messages of a faulty network.

// group is a reference group with the encoding the library gives its elements;
// nil stands for the point at infinity.
type group struct{ c int64 }

func (g group) order() *big.Int { return orderOf(g.c) }

func (g group) le() bool { return g.c == cEd }

func (g group) num(b []byte) *big.Int {
	if g.le() {
		return ref.LE(b)
	}
	return new(big.Int).SetBytes(b)
}

func (g group) bytes(k *big.Int) []byte {
	if g.le() {
		return ref.LE32(k)
	}
	return ref.B32(k)
}

func (g group) base(k *big.Int) []byte {
	k = new(big.Int).Mod(k, g.order())
	if k.Sign() == 0 {
		return nil
	}
	switch g.c {
	case cEd:
		return ref.EdPub(k)
	case cNul, cAug:
		return ref.BlsPub(k)
	}
	return curveOf(g.c).Base(k).Bytes()
}

// parse gives the plain encoding of a received element.
func (g group) parse(b []byte) ([]byte, bool) {
	switch g.c {
	case cEd:
		return b, ref.IsEdPoint(b)
	case cNul, cAug:
		p, ok := ref.G1Parse(b, true)
		return b, ok && !p.Inf
	}
	var p *ref.Point
	switch {
	case len(b) == 33:
		p = curveOf(g.c).Decompress(b)
	case len(b) == 65 && b[0] == 4:
		p = curveOf(g.c).Parse64(b[1:])
	default:
		p = curveOf(g.c).Parse64(b)
	}
	if p == nil {
		return nil, false
	}
	return p.Bytes(), true
}

// vague tells whether an encoding is neither plainly right nor plainly wrong.
func (g group) vague(b []byte) bool {
	switch g.c {
	case cEd:
		return ref.EdDecodable(b) && !ref.IsEdPoint(b) || bytes.Equal(b, ref.LE32(big.NewInt(1)))
	case cNul, cAug:
		p, ok := ref.G1Parse(b, false)
		return ok && p.Inf
	}
	return false
}

func (g group) add(a, b []byte) []byte {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	var o []byte
	switch g.c {
	case cEd:
		o, _ = ref.EdPointAdd(a, b)
		if bytes.Equal(o, ref.LE32(big.NewInt(1))) {
			o = nil
		}
	case cNul, cAug:
		o, _ = ref.BlsAddG1(a, b)
		if o != nil && o[0]&0x40 != 0 {
			o = nil
		}
	default:
		cv := curveOf(g.c)
		if p := cv.Add(cv.Parse64(a), cv.Parse64(b)); !p.Inf {
			o = p.Bytes()
		}
	}
	return o
}

func (g group) mul(a []byte, k *big.Int) []byte {
	cv := curveOf(g.c)
	if p := cv.Mul(cv.Parse64(a), k); !p.Inf {
		return p.Bytes()
	}
	return nil
}

func plainPoint(b []byte) []byte {
	if len(b) == 65 && b[0] == 4 {
		return b[1:]
	}
	return b
}

// form re-encodes a point as 64, 65 or 33 bytes.
func (g group) form(b []byte, v int) []byte {
	if curveOf(g.c) == nil || len(b) != 64 {
		return dup(b)
	}
	switch v % 3 {
	case 1:
		return append([]byte{4}, b...)
	case 2:
		return append([]byte{2 + b[63]&1}, b[:32]...)
	}
	return dup(b)
}

// genTweak draws any 32-byte scalar of interest.
func genTweak(r *engine.Rand, c int64, zero bool) []byte {
	g := group{c}
	n := g.order()
	for {
		k := new(big.Int)
		switch r.Intn(16) {
		case 14:
			if s := genShort(r, c); s != nil {
				k.Set(s)
			}
		case 0:
			k.SetInt64(int64(r.Intn(4)))
		case 1:
			k.Sub(n, big.NewInt(int64(1+r.Intn(3))))
		case 2:
			k.Lsh(one, uint(r.Intn(n.BitLen()-1)))
		case 3:
			k.Sub(k.Lsh(one, uint(1+r.Intn(n.BitLen()-1))), one)
		case 4:
			k.Rsh(n, 1)
			k.Add(k, big.NewInt(int64(r.Intn(3))))
		case 5:
			k.SetBytes(r.Bytes(1 + r.Intn(31)))
			k.Lsh(k, uint(8*r.Intn(1+(255-k.BitLen())/8)))
		case 6: // runs of ones and zeroes
			for i := 0; i < 256; {
				l := 1 + r.Intn(40)
				k.Lsh(k, uint(l))
				if r.Intn(2) == 0 {
					k.Or(k, new(big.Int).Sub(new(big.Int).Lsh(one, uint(l)), one))
				}
				i += l
			}
		default:
			k.SetBytes(r.Bytes(32))
		}
		k.Mod(k, n)
		if k.Sign() != 0 || zero {
			return g.bytes(k)
		}
	}
}

// ---- C14 ----

// Key shares arrive at aggregators, which combine them in any order, grouping
// and encoding.
//
// "share" I=[curve] B=[priv] (everybody's); "sum" T I=[seed, rec...]; "less" T I=[rec, rec, form] (takes a share out); "mul" T
// I=[rec, form] B=[scalar]; "plus" T I=[rec] B=[scalar]; "whole" T I=[rec].
// Faults at a "sum": net-drop/net-dup/wire-* (N = contribution), net-reorder.

type shareProp struct{}

func init() { engine.Register(shareProp{}) }

func (shareProp) ID() string { return "C14" }

func drawPointCurve(r *engine.Rand) int64 {
	return int64(engine.PickInt(r, cK1, cR1, cSM2, cPasta, cEd, cK1, cR1, cSM2, cPasta, cEd, cK1, cR1, cSM2, cPasta, cEd, cNul))
}

func (shareProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C14", seed, idx)
	p := &engine.Plan{Prop: "C14", Seed: seed, Idx: idx, Kind: "shares"}
	p.Sched = engine.Sched{Seed: r.U64(), MeanRun: int64(engine.PickInt(r, 20, 200, 2000)), GlobalPct: 10}
	c := drawPointCurve(r)
	g := group{c}
	n := g.order()
	m := 2 + r.Intn(4)
	if r.Intn(8) == 0 {
		m = 5 + r.Intn(12)
	}
	var d []*big.Int
	threshold := curveOf(c) != nil && r.Intn(4) == 0
	var poly []*big.Int
	if threshold {
		for t := 1 + r.Intn(m); t > 0; t-- {
			poly = append(poly, g.num(genKey(r, c)))
		}
	}
	k := 0
	for i := 0; i < m; i++ {
		k++
		var x *big.Int
		if threshold {
			x = new(big.Int)
			for j := len(poly) - 1; j >= 0; j-- {
				x.Mul(x, big.NewInt(int64(i+1))).Add(x, poly[j])
			}
		} else {
			x = g.num(genKey(r, c))
			if i > 0 {
				y := d[r.Intn(len(d))]
				switch r.Intn(8) {
				case 0: // the same share again
					x = new(big.Int).Set(y)
				case 1: // a share that cancels another
					x = new(big.Int).Neg(y)
				case 2: // one that cancels two
					x = new(big.Int).Neg(new(big.Int).Add(y, d[r.Intn(len(d))]))
				case 3: // twice another
					x = new(big.Int).Lsh(y, 1)
				case 4: // neighbours
					x = new(big.Int).Add(y, big.NewInt(int64(engine.PickInt(r, 1, -1, 2))))
				case 5: // cancels everything so far
					x = new(big.Int)
					for _, z := range d {
						x.Sub(x, z)
					}
				}
			}
		}
		x.Mod(x, n)
		b := g.bytes(x)
		if scalar(c, b) == nil {
			b = genKey(r, c)
			x = g.num(b)
		}
		d = append(d, x)
		p.Ops = append(p.Ops, engine.Op{N: "share", K: k, I: []int64{c}, B: h3(b)})
	}
	var tweaks [][]byte
	tweak := func(zero bool) []byte {
		if len(tweaks) > 0 && r.Intn(4) == 0 {
			return tweaks[r.Intn(len(tweaks))]
		}
		t := genTweak(r, c, zero)
		if zero || g.num(t).Sign() != 0 {
			tweaks = append(tweaks, t)
		}
		return t
	}
	for t := 1 + r.Intn(3); t > 0; t-- { // aggregators
		var pool []int64
		for i := 1; i <= m; i++ {
			pool = append(pool, int64(i))
		}
		add := func(o engine.Op) int64 {
			k++
			o.T, o.K = t, k
			p.Ops = append(p.Ops, o)
			return int64(k)
		}
		if threshold { // any enough of them, scaled
			q := len(poly)
			for i := range pool {
				j := i + r.Intn(len(pool)-i)
				pool[i], pool[j] = pool[j], pool[i]
			}
			pool = pool[:q]
			ids := append([]int64{}, pool...)
			for a, i := range ids {
				num, den := big.NewInt(1), big.NewInt(1)
				for _, j := range ids {
					if j != i {
						num.Mul(num, big.NewInt(j)).Mod(num, n)
						den.Mul(den, big.NewInt(j-i)).Mod(den, n)
					}
				}
				l := num.Mul(num, new(big.Int).ModInverse(den, n))
				pool[a] = add(engine.Op{N: "mul", I: []int64{i, int64(r.Intn(3))}, B: h3(g.bytes(l.Mod(l, n)))})
			}
		}
		for steps := 0; steps < 12; steps++ {
			q := 1 + r.Intn(len(pool))
			if len(pool) == 1 {
				q = 1
			}
			for i := range pool {
				j := i + r.Intn(len(pool)-i)
				pool[i], pool[j] = pool[j], pool[i]
			}
			switch r.Intn(6) {
			case 0:
				if curveOf(c) != nil {
					pool[0] = add(engine.Op{N: "mul", I: []int64{pool[0], int64(r.Intn(3))}, B: h3(tweak(true))})
					continue
				}
				fallthrough
			case 1:
				pool[0] = add(engine.Op{N: "plus", I: []int64{pool[0]}, B: h3(tweak(false))})
				continue
			case 2: // a share is withdrawn
				if r.Intn(2) == 0 {
					pool[0] = add(engine.Op{N: "less", I: []int64{pool[0], int64(1 + r.Intn(m)), int64(r.Intn(12))}})
					continue
				}
			}
			o := engine.Op{N: "sum", I: append([]int64{int64(r.Intn(1 << 20))}, pool[:q]...)}
			s := add(o)
			if r.Intn(3) == 0 {
				i := r.Intn(q)
				f := engine.Fault{Kind: engine.Pick(r, "net-drop", "net-dup", "net-reorder"), At: int(s), N: i, A: int64(r.Intn(1000))}
				if r.Intn(4) == 0 {
					f = genWire(r, int(s), i, c)
				}
				p.Faults = append(p.Faults, f)
			}
			pool = append([]int64{s}, pool[q:]...)
			if len(pool) == 1 {
				break
			}
		}
		add(engine.Op{N: "whole", I: []int64{pool[0]}})
	}
	return p
}

type shareRec struct {
	g   group
	b   []byte   // nil: infinity
	d   *big.Int // the private sum; nil when not known
	bad bool
}

func (shareProp) Exec(e *engine.Env) {
	shares := map[int64]*shareRec{}
	threads := map[int][]engine.Op{}
	maxT := 0
	var n int64
	s := e.Solo(4_000_000_000, func() {
		for _, o := range e.Plan.Ops {
			o := o
			if o.N != "share" {
				if o.T > 0 && o.T < 16 {
					threads[o.T] = append(threads[o.T], o)
					if o.T > maxT {
						maxT = o.T
					}
				}
				continue
			}
			catch(e, "share", o, func() {
				c := in(o.I, 0)
				g := group{c}
				if len(o.B) == 0 || scalar(c, o.B[0]) == nil {
					return
				}
				d := g.num(o.B[0])
				want := g.base(d)
				pub := do("GenPubkey", []int64{c}, [][]byte{dup(o.B[0])})
				mb := do("Point_mulBaseG", []int64{c}, [][]byte{dup(o.B[0])})
				e.Log("share %v %v", pub, mb)
				n++
				if !pub.OK || !bytes.Equal(at(pub.Outs, 0), want) {
					e.Fail("share-pub", "%s: GenPubkey(%x) = %v, which is not the base point times the scalar", curveName(c), []byte(o.B[0]), pub)
				}
				form := g.form(want, 2)
				if !mb.OK || !bytes.Equal(at(mb.Outs, 0), form) {
					e.Fail("share-mulbase", "%s: Point_mulBaseG(%x) = %v, key generation says %x", curveName(c), []byte(o.B[0]), mb, form)
				}
				shares[int64(o.K)] = &shareRec{g: g, b: want, d: d}
			})
		}
	})
	settle(e, "share", s)
	var fns []func()
	for t := 1; t <= maxT; t++ {
		ops := threads[t]
		fns = append(fns, func() {
			mine := map[int64]*shareRec{}
			for _, o := range ops {
				o := o
				catch(e, "share", o, func() { n += combine(e, o, shares, mine) })
			}
		})
	}
	if len(fns) > 0 {
		settle(e, "share", e.RunSim(nil, 8_000_000_000, fns...))
	}
	e.Add("combinations", n)
	e.Out.Trivial = len(shares) == 0
}

func combine(e *engine.Env, o engine.Op, shares, mine map[int64]*shareRec) int64 {
	find := func(k int64) *shareRec {
		if r := mine[k]; r != nil {
			return r
		}
		return shares[k]
	}
	out := func(r *shareRec) { mine[int64(o.K)] = r }
	switch o.N {
	case "mul", "plus":
		a := find(in(o.I, 0))
		if a == nil || len(o.B) == 0 || len(o.B[0]) != 32 {
			return 0
		}
		g := a.g
		k := g.num(o.B[0])
		if o.N == "mul" {
			if curveOf(g.c) == nil {
				return 0
			}
			if a.b == nil {
				out(&shareRec{g: g, d: a.d})
				return 0
			}
			want := g.mul(a.b, k)
			res := do("Point_mul", []int64{g.c}, [][]byte{g.form(a.b, int(in(o.I, 1))), dup(o.B[0])})
			e.Log("%d mul %v", o.T, res)
			sharePoint(e, g, "Point_mul of "+engine.Short(a.b)+" by "+engine.Short(o.B[0]), res, want, false)
			r := &shareRec{g: g, b: want, bad: a.bad}
			if a.d != nil {
				r.d = new(big.Int).Mul(a.d, k)
			}
			out(r)
			return 1
		}
		if k.Sign() == 0 {
			return 0
		}
		want := g.add(a.b, g.base(k))
		if a.b == nil { // nothing to add to: generate
			out(&shareRec{g: g, b: want, bad: a.bad, d: addScalar(a.d, k)})
			return 0
		}
		res := do("Point_mulBaseG_add", []int64{g.c}, [][]byte{dup(a.b), dup(o.B[0])})
		e.Log("%d plus %v", o.T, res)
		sharePoint(e, g, "Point_mulBaseG_add of "+engine.Short(a.b)+" and "+engine.Short(o.B[0]), res, want, true)
		out(&shareRec{g: g, b: want, bad: a.bad, d: addScalar(a.d, k)})
		return 1
	case "less":
		return withdraw(e, o, find, out)
	case "sum":
		return sumShares(e, o, find, out)
	case "whole":
		a := find(in(o.I, 0))
		if a == nil || a.d == nil || a.bad {
			return 0
		}
		d := new(big.Int).Mod(a.d, a.g.order())
		if d.Sign() == 0 {
			e.Count("vanished")
			if a.b != nil {
				e.Fail("share-whole", "%s: shares that cancel combine to %s", curveName(a.g.c), engine.Short(a.b))
			}
			return 0
		}
		priv := a.g.bytes(d)
		if scalar(a.g.c, priv) == nil {
			return 0
		}
		res := do("GenPubkey", []int64{a.g.c}, [][]byte{priv})
		e.Log("%d whole %v", o.T, res)
		e.Count("whole")
		if !res.OK || !bytes.Equal(at(res.Outs, 0), a.b) {
			e.Fail("share-whole", "%s: the combined key is %s, the key of the combined private shares %s", curveName(a.g.c), engine.Short(a.b), res)
		}
		return 1
	}
	return 0
}

// withdraw takes a share out of a sum again, with the services at hand.
func withdraw(e *engine.Env, o engine.Op, find func(int64) *shareRec, out func(*shareRec)) int64 {
	a, b := find(in(o.I, 0)), find(in(o.I, 1))
	if a == nil || b == nil || a.g != b.g || a.b == nil || b.b == nil {
		return 0
	}
	g, v := a.g, int(uint64(in(o.I, 2))%12)
	c := &shareRec{g: g, bad: a.bad || b.bad}
	if a.d != nil && b.d != nil {
		c.d = new(big.Int).Sub(a.d, b.d)
	}
	less := new(big.Int).Sub(g.order(), one)
	var neg []byte
	var res Res
	switch {
	case curveOf(g.c) == nil: // the caller flips the sign bit of the encoding
		neg = dup(b.b)
		if g.c == cEd {
			neg[31] ^= 0x80
		} else {
			neg[0] ^= 0x20
		}
		res = Res{OK: true, Outs: [][]byte{neg}}
	case g.c == cPasta && v%2 == 0:
		neg = g.mul(b.b, less)
		res = do("pasta.Negate", nil, [][]byte{g.form(b.b, v/2)})
	default:
		neg = g.mul(b.b, less)
		res = do("Point_mul", []int64{g.c}, [][]byte{g.form(b.b, v/2), g.bytes(less)})
	}
	e.Log("%d negate %v", o.T, res)
	sharePoint(e, g, "negation of "+engine.Short(b.b), res, neg, false)
	c.b = g.add(a.b, neg)
	res = pointAdd(g, a.b, g.form(neg, v/3))
	e.Log("%d less %v", o.T, res)
	e.Count("withdrawn")
	sharePoint(e, g, "addition of "+engine.Short(a.b)+" and "+engine.Short(neg), res, c.b, false)
	out(c)
	return 2
}

// pointAdd adds two elements with the service the curve has for it.
func pointAdd(g group, a, b []byte) Res {
	if g.c != cNul && g.c != cAug {
		return do("Point_add", []int64{g.c}, [][]byte{dup(a), dup(b)})
	}
	res := do("bls12_381.G1", nil, [][]byte{dup(a), dup(b)})
	if o := at(res.Outs, 0); len(o) == 48 && o[0] == 0xc0 && bytes.Equal(o[1:], make([]byte, 47)) {
		return Res{Ret: "infinity"} // the package encodes it, there is no code
	}
	return res
}

func addScalar(d, k *big.Int) *big.Int {
	if d == nil {
		return nil
	}
	return new(big.Int).Add(d, k)
}

// sharePoint checks a point service against the group.
func sharePoint(e *engine.Env, g group, what string, res Res, want []byte, inf bool) {
	got := at(res.Outs, 0)
	what = curveName(g.c) + " " + what
	if want == nil {
		e.Count("infinities")
		if res.OK || len(got) != 0 || inf && res.Ret != "infinity" {
			e.Fail("share-infinity", "%s is the point at infinity, and is answered %s %s", what, res.Ret, engine.Short(got))
		}
		return
	}
	if !res.OK || !bytes.Equal(plainPoint(got), want) {
		e.Fail("share-sum", "%s answered %s %s instead of %s", what, res.Ret, engine.Short(got), engine.Short(want))
	}
}

func sumShares(e *engine.Env, o engine.Op, find func(int64) *shareRec, out func(*shareRec)) int64 {
	type part struct {
		b   []byte // as received
		d   *big.Int
		inf bool
	}
	r := engine.NewRand("C14-group", e.Plan.Seed, e.Plan.Idx, o.K, in(o.I, 0))
	var parts []part
	var g group
	bad, have := false, false
	var first []byte
	for i, k := range o.I[min(1, len(o.I)):] {
		a := find(k)
		if a == nil || have && a.g != g {
			continue
		}
		g, have = a.g, true
		if first == nil {
			first = a.b
		}
		bad = bad || a.bad
		b := a.b
		if b != nil {
			b = g.form(b, r.Intn(4))
		}
		pt := part{b, a.d, a.b == nil}
		copies := 1
		for _, f := range e.FaultsAt(o.K) {
			switch f.Kind {
			case "net-reorder":
				continue
			case "net-drop", "net-dup":
				if f.N == i {
					copies = map[string]int{"net-drop": 0, "net-dup": 2}[f.Kind]
					e.Count("fault:" + f.Kind)
				}
			default:
				if f.N == i && !pt.inf && strings.HasPrefix(f.Kind, "wire-") {
					w := applyWire(e, g.c, pt.b, first, f)
					if !bytes.Equal(w, pt.b) {
						pt.b, pt.d, bad = w, nil, true
					}
				}
			}
		}
		for ; copies > 0; copies-- {
			parts = append(parts, pt)
		}
	}
	if !have {
		return 0
	}
	for _, f := range e.FaultsAt(o.K) {
		if f.Kind == "net-reorder" {
			e.Count("fault:net-reorder")
			q := engine.NewRand("C14-order", f.A)
			for i := range parts {
				j := i + q.Intn(len(parts)-i)
				parts[i], parts[j] = parts[j], parts[i]
			}
		}
	}
	// an aggregator refuses what is not a point, and keeps what is
	n := int64(0)
	var acc []part
	for _, pt := range parts {
		if pt.inf {
			continue
		}
		if g.vague(pt.b) {
			e.Count("vague")
			return n
		}
		if _, ok := g.parse(pt.b); !ok {
			peer := g.base(big.NewInt(7))
			var res Res
			if g.c == cNul || g.c == cAug {
				res = do("Point_mulBaseG_add", []int64{g.c}, [][]byte{dup(pt.b), g.bytes(big.NewInt(3))})
			} else {
				res = do("Point_add", []int64{g.c}, [][]byte{peer, dup(pt.b)})
			}
			e.Count("refused")
			if res.OK || len(at(res.Outs, 0)) != 0 {
				e.Fail("share-accepts", "%s: a share %s that is no point is added to a key: %s", curveName(g.c), engine.Short(pt.b), res)
			}
			continue
		}
		acc = append(acc, pt)
	}
	add := func(a, b part) part {
		if a.inf {
			return b
		}
		if b.inf {
			return a
		}
		pa, _ := g.parse(a.b)
		pb, _ := g.parse(b.b)
		want := g.add(pa, pb)
		c := part{b: want, inf: want == nil}
		if a.d != nil && b.d != nil {
			c.d = new(big.Int).Add(a.d, b.d)
		}
		n++
		res := pointAdd(g, a.b, b.b)
		e.Log("%d add %v", o.T, res)
		sharePoint(e, g, "Point_add of "+engine.Short(a.b)+" and "+engine.Short(b.b), res, want, false)
		if want != nil {
			c.b = g.form(want, r.Intn(4))
		}
		return c
	}
	// any grouping
	for len(acc) > 1 {
		i := 0
		switch in(o.I, 0) % 3 {
		case 1:
			i = r.Intn(len(acc) - 1)
		case 2:
			i = len(acc) - 2
		}
		a, b := acc[i], acc[i+1]
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		acc[i] = add(a, b)
		acc = append(acc[:i+1], acc[i+2:]...)
	}
	res := &shareRec{g: g, bad: bad, d: new(big.Int)}
	if len(acc) == 1 && !acc[0].inf {
		res.b, _ = g.parse(acc[0].b)
		res.d = acc[0].d
	}
	if res.d == nil {
		res.bad = true
	}
	out(res)
	return n
}

func (shareProp) Info() engine.Info {
	return engine.Info{Quick: 400, Thorough: 20000, Chunk: 10, PlainQuick: 6000, PlainThorough: 400000, PlainChunk: 50, QuickSecs: 60, ThoroughSecs: 700, Timeout: 120,
		Rule:        "an episode counts when at least one key share was published; distinct = distinct event logs",
		Real:        []string{"GenPubkey, Point_mulBaseG, Point_add, Point_mul and Point_mulBaseG_add of every curve that has them, pasta.AffineNegate and bls12_381 point addition, with the group arithmetic below"},
		Stubs:       []string{"network between share holders and aggregators", "thread scheduler of the aggregators"},
		Assumptions: []string{"the reference groups (math/big) are correct", "an Edwards encoding with an unreduced coordinate, and an encoded identity, may be refused or computed with"},
		MinProbes:   map[string]int64{"whole": 1000, "withdrawn": 200, "vanished": 20, "infinities": 100, "refused": 50, "fault:net-drop": 100, "fault:net-dup": 100, "fault:net-reorder": 100},
	}
}

// ---- C17 ----

// A signer holds private keys, wallets hold public ones; both derive children
// from tweaks that travel over the network.
//
// "account" I=[curve] B=[priv]; "child" T I=[parent] B=[tweak...] (the signer
// applies the tweaks in order, the wallet in the order they arrive); "pay" T
// I=[rec] B=[msg, id].  Faults at a "child": net-drop/net-dup/wire-* (N = which
// tweak), net-reorder, reload (the wallet restarts from its stored key;
// A = form), torn (wire fault on the stored key: N = 99).

type deriveProp struct{}

func init() { engine.Register(deriveProp{}) }

func (deriveProp) ID() string { return "C17" }

func (deriveProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C17", seed, idx)
	p := &engine.Plan{Prop: "C17", Seed: seed, Idx: idx, Kind: "wallet"}
	p.Sched = engine.Sched{Seed: r.U64(), MeanRun: int64(engine.PickInt(r, 20, 200, 2000)), GlobalPct: 10}
	k := 0
	for t := 1 + r.Intn(3)/2; t > 0; t-- {
		c := drawPointCurve(r)
		if r.Intn(12) == 0 {
			c = cAug
		}
		g := group{c}
		add := func(o engine.Op) int64 {
			k++
			o.T, o.K = t, k
			p.Ops = append(p.Ops, o)
			return int64(k)
		}
		priv := genKey(r, c)
		ds := map[int64]*big.Int{}
		var used [][]byte
		recs := []int64{add(engine.Op{N: "account", I: []int64{c}, B: h3(priv)})}
		ds[recs[0]] = g.num(priv)
		life := longLife(r, idx, 60) / 3
		if curveOf(c) == nil {
			life /= 3
		}
		for m := 1 + r.Intn(6) + life; m > 0; m-- {
			par := recs[len(recs)-1-r.Intn(1+r.Intn(len(recs)))]
			var tw []engine.Hex
			d := new(big.Int).Set(ds[par])
			for q := 1 + r.Intn(4)/2*r.Intn(3); q > 0; q-- {
				t := genTweak(r, c, false)
				if len(used) > 0 && r.Intn(5) == 0 {
					t = used[r.Intn(len(used))] // the same number in another branch
				}
				x := g.num(t)
				switch r.Intn(14) {
				case 0: // doubles the key
					x = new(big.Int).Set(d)
				case 1: // the key that is at infinity
					x = new(big.Int).Neg(d)
				case 2: // next to it
					x = new(big.Int).Sub(big.NewInt(int64(engine.PickInt(r, 1, -1, 2, -2))), d)
				case 3: // negated key
					x = new(big.Int).Neg(new(big.Int).Lsh(d, 1))
				}
				x.Mod(x, g.order())
				if x.Sign() == 0 {
					x.SetInt64(1)
				}
				d.Add(d, x)
				tw = append(tw, g.bytes(x))
				used = append(used, g.bytes(x))
			}
			s := add(engine.Op{N: "child", I: []int64{par}, B: tw})
			ds[s] = d.Mod(d, g.order())
			recs = append(recs, s)
			if r.Intn(2) == 0 {
				i := r.Intn(len(tw))
				f := engine.Fault{Kind: engine.Pick(r, "net-drop", "net-dup", "net-reorder", "reload", "reload", "reload", "net-reorder"), At: int(s), N: i, A: int64(r.Intn(1000))}
				switch r.Intn(6) {
				case 0:
					f = genWire(r, int(s), i, c)
				case 1:
					f = genWire(r, int(s), 99, c)
				}
				p.Faults = append(p.Faults, f)
			}
			if r.Intn(2) == 0 {
				add(engine.Op{N: "pay", I: []int64{s}, B: h3(genMsg(r, c), genID(r, c))})
			}
		}
		add(engine.Op{N: "pay", I: []int64{recs[r.Intn(len(recs))]}, B: h3(genMsg(r, c), genID(r, c))})
	}
	return p
}

type walletRec struct {
	g    group
	d    *big.Int // the signer's key
	pub  []byte   // the wallet's key; nil: none
	same bool     // the wallet saw what the signer saw
}

func (deriveProp) Exec(e *engine.Env) {
	threads := map[int][]engine.Op{}
	maxT := 0
	for _, o := range e.Plan.Ops {
		if o.T > 0 && o.T < 16 {
			threads[o.T] = append(threads[o.T], o)
			if o.T > maxT {
				maxT = o.T
			}
		}
	}
	e.NewEntropy("signer", nil).Install()
	var n int64
	var fns []func()
	for t := 1; t <= maxT; t++ {
		ops := threads[t]
		fns = append(fns, func() {
			recs := map[int64]*walletRec{}
			for _, o := range ops {
				o := o
				catch(e, "derive", o, func() {
					n++
					switch o.N {
					case "account":
						openAccount(e, o, recs)
					case "child":
						deriveChild(e, o, recs)
					case "pay":
						pay(e, o, recs)
					}
				})
			}
		})
	}
	if len(fns) > 0 {
		settle(e, "derive", e.RunSim(nil, 8_000_000_000, fns...))
	}
	e.Add("operations", n)
	e.Out.Trivial = n == 0
}

func openAccount(e *engine.Env, o engine.Op, recs map[int64]*walletRec) {
	g := group{in(o.I, 0)}
	if len(o.B) == 0 || scalar(g.c, o.B[0]) == nil {
		return
	}
	res := do("GenPubkey", []int64{g.c}, [][]byte{dup(o.B[0])})
	e.Log("%d account %v", o.T, res)
	d := g.num(o.B[0])
	if want := g.base(d); !res.OK || !bytes.Equal(at(res.Outs, 0), want) {
		e.Fail("derive-account", "%s: GenPubkey(%x) = %v", curveName(g.c), []byte(o.B[0]), res)
	}
	if g.c != cNul && g.c != cAug {
		ord := do("GetCurveOrder", []int64{g.c}, nil)
		if !bytes.Equal(at(ord.Outs, 0), ref.B32(g.order())) {
			e.Fail("derive-order", "%s: the order a signer would reduce by is %v", curveName(g.c), ord)
		}
	}
	recs[int64(o.K)] = &walletRec{g, d, g.base(d), true}
}

func deriveChild(e *engine.Env, o engine.Op, recs map[int64]*walletRec) {
	par := recs[in(o.I, 0)]
	if par == nil {
		return
	}
	g := par.g
	c := &walletRec{g: g, d: new(big.Int).Set(par.d), pub: dup(par.pub), same: par.same}
	if par.pub == nil {
		c.pub = nil
	}
	var arr [][]byte
	for i, t := range o.B {
		if len(t) != 32 {
			return
		}
		x := g.num(t)
		if x.Sign() == 0 || x.Cmp(g.order()) >= 0 {
			return
		}
		c.d.Add(c.d, x)
		got := [][]byte{dup(t)}
		for _, f := range e.FaultsAt(o.K) {
			if f.N != i {
				continue
			}
			switch {
			case f.Kind == "net-drop":
				got = nil
				c.same = false
				e.Count("fault:net-drop")
			case f.Kind == "net-dup":
				got = append(got, dup(t))
				c.same = false
				e.Count("fault:net-dup")
			case strings.HasPrefix(f.Kind, "wire-"):
				w := applyWire(e, g.c, t, g.bytes(par.d), f)
				if !bytes.Equal(w, t) {
					got, c.same = [][]byte{w}, false
				}
			}
		}
		arr = append(arr, got...)
	}
	c.d.Mod(c.d, g.order())
	recs[int64(o.K)] = c
	for _, f := range e.FaultsAt(o.K) {
		switch {
		case f.Kind == "net-reorder":
			e.Count("fault:net-reorder")
			q := engine.NewRand("C17-order", f.A)
			for i := range arr {
				j := i + q.Intn(len(arr)-i)
				arr[i], arr[j] = arr[j], arr[i]
			}
		case f.Kind == "reload" || f.N == 99 && strings.HasPrefix(f.Kind, "wire-"):
			if c.pub == nil {
				continue
			}
			st := dup(c.pub)
			if curveOf(g.c) != nil {
				st = at(do("PointCompress", []int64{g.c}, [][]byte{g.form(c.pub, int(f.A)%2)}).Outs, 0)
				if !bytes.Equal(st, g.form(c.pub, 2)) {
					e.Fail("derive-store", "%s: a wallet's key %s is stored as %s", curveName(g.c), engine.Short(c.pub), engine.Short(st))
				}
			}
			if f.N == 99 && f.Kind != "reload" {
				st = applyWire(e, g.c, st, nil, f)
			} else {
				e.Count("fault:restart")
			}
			if g.vague(st) {
				delete(recs, int64(o.K))
				return
			}
			want, ok := g.parse(st)
			if curveOf(g.c) != nil {
				ok = ok && len(st) == 33
				res := do("PointDecompress", []int64{g.c}, [][]byte{dup(st)})
				got := plainPoint(at(res.Outs, 0))
				if ok != res.OK || ok && !bytes.Equal(got, want) {
					e.Fail("derive-load", "%s: the stored key %s is read as %v", curveName(g.c), engine.Short(st), res)
					return
				}
				if !ok {
					delete(recs, int64(o.K))
					return
				}
			}
			if !bytes.Equal(want, c.pub) || !ok {
				c.same = false
			}
			c.pub = want
			if !ok {
				c.pub = st // used as it is, without a decoding step of its own
			}
		}
	}
	for _, t := range arr {
		if c.pub == nil { // no key left to derive from
			c.same = false
			return
		}
		x := g.num(t)
		cur, valid := g.parse(c.pub)
		if len(t) != 32 {
			valid = false
		} else if x.Sign() == 0 || x.Cmp(g.order()) >= 0 {
			// an unreduced scalar: refused, or taken modulo the order
			res := do("Point_mulBaseG_add", []int64{g.c}, [][]byte{dup(c.pub), dup(t)})
			e.Log("%d odd %v", o.T, res)
			e.Count("unreduced")
			if got := at(res.Outs, 0); len(got) != 0 {
				if want := g.add(cur, g.base(x)); !valid || want == nil || !bytes.Equal(plainPoint(got), want) {
					e.Fail("derive-unreduced", "%s: %s plus %s times the base point is answered %v", curveName(g.c), engine.Short(c.pub), engine.Short(t), res)
				}
				c.pub = dup(got)
			} else {
				c.pub = nil
			}
			c.same = false
			continue
		}
		var want []byte
		if valid {
			want = g.add(cur, g.base(x))
		}
		res := do("Point_mulBaseG_add", []int64{g.c}, [][]byte{dup(c.pub), dup(t)})
		got := at(res.Outs, 0)
		e.Log("%d child %v", o.T, res)
		what := curveName(g.c) + ": the child of " + engine.Short(c.pub) + " by " + engine.Short(t)
		switch {
		case !valid:
			e.Count("refused")
			if len(got) != 0 || res.OK || res.Ret == "infinity" {
				e.Fail("derive-accepts", "%s is answered %s although there is none", what, res)
			}
			c.pub, c.same = nil, false
		case want == nil:
			e.Count("infinities")
			if res.Ret != "infinity" || len(got) != 0 {
				e.Fail("derive-infinity", "%s is at infinity and is answered %s", what, res)
			}
			c.pub = nil
		default:
			if !res.OK || !bytes.Equal(plainPoint(got), want) {
				e.Fail("derive-child", "%s is answered %s instead of %s", what, res, engine.Short(want))
			}
			c.pub = want
			e.Count("derived")
		}
	}
	// the signer's own idea of the child
	if c.same && c.d.Sign() != 0 {
		if priv := g.bytes(c.d); scalar(g.c, priv) != nil {
			res := do("GenPubkey", []int64{g.c}, [][]byte{priv})
			e.Log("%d signer %v", o.T, res)
			e.Count("agreed")
			if !bytes.Equal(at(res.Outs, 0), c.pub) {
				e.Fail("derive-commutes", "%s: the wallet derives %s, the signer %s", curveName(g.c), engine.Short(c.pub), res)
			}
		}
	}
}

func pay(e *engine.Env, o engine.Op, recs map[int64]*walletRec) {
	w := recs[in(o.I, 0)]
	if w == nil || w.pub == nil || len(o.B) < 2 {
		return
	}
	g := w.g
	if g.vague(w.pub) {
		return
	}
	priv := g.bytes(new(big.Int).Mod(w.d, g.order()))
	if scalar(g.c, priv) == nil {
		return
	}
	var id []byte
	if g.c == cSM2 {
		id = o.B[1]
	}
	sig := do("Signature", []int64{g.c}, [][]byte{priv, dup(id), dup(o.B[0])})
	e.Log("%d sign %v", o.T, sig)
	if !sig.OK {
		if sigMayFail(g.c, priv, id, o.B[0]) {
			return
		}
		e.Fail("derive-sign", "%s: a derived key %x does not sign: %s", curveName(g.c), priv, sig.Ret)
		return
	}
	res := do("Verify", []int64{g.c}, [][]byte{dup(w.pub), dup(id), dup(o.B[0]), dup(at(sig.Outs, 0))})
	e.Log("%d verify %v", o.T, res)
	want := bytes.Equal(w.pub, g.base(w.d))
	if !want && (g.c == cK1 || g.c == cR1 || g.c == cSM2) { // a zero digest is signed for the negated key as well
		want = refVerify(g.c, w.pub, id, o.B[0], at(sig.Outs, 0), nil)
	}
	if want {
		e.Count("paid")
	} else {
		e.Count("unpaid")
	}
	if res.OK != want {
		e.Fail("derive-pay", "%s: the signature of the signer's child key is answered %s under the wallet's key %s", curveName(g.c), res.Ret, engine.Short(w.pub))
	}
}

// sigMayFail: nothing the schemes sign here is refused.
func sigMayFail(c int64, priv, id, msg []byte) bool {
	if c == cSM2 && len(id) == 0 {
		return len(msg) != 32
	}
	return len(msg) == 0
}

func (deriveProp) Info() engine.Info {
	return engine.Info{Quick: 400, Thorough: 20000, Chunk: 10, PlainQuick: 6000, PlainThorough: 400000, PlainChunk: 50, QuickSecs: 60, ThoroughSecs: 700, Timeout: 120,
		Rule:        "an episode counts when at least one wallet operation ran; distinct = distinct event logs",
		Real:        []string{"GenPubkey, GetCurveOrder, Point_mulBaseG_add, PointCompress, PointDecompress, Signature and Verify of every curve that offers derivation"},
		Stubs:       []string{"network between signer and wallet", "the wallet's key store and restarts", "entropy device", "thread scheduler of the wallets"},
		Assumptions: []string{"the reference groups (math/big) are correct", "a scalar that is zero or not below the order may be refused or taken modulo the order"},
		MinProbes:   map[string]int64{"derived": 3000, "agreed": 2000, "infinities": 50, "paid": 1000, "unpaid": 200, "fault:restart": 300, "fault:net-reorder": 300},
	}
}

// ---- C16 ----

// Public keys travel between systems that keep them in Montgomery and systems
// that keep them in Edwards form; every hop converts.
//
// "key" I=[curve] B=[priv]; "raw" I=[montgomery] B=[bytes]; "hop" I=[rec, via,
// to] (wire-* faults at the hop); "use" I=[rec] B=[msg].

type convertProp struct{}

func init() { engine.Register(convertProp{}) }

func (convertProp) ID() string { return "C16" }

func (convertProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C16", seed, idx)
	p := &engine.Plan{Prop: "C16", Seed: seed, Idx: idx, Kind: "hops"}
	k := 0
	var recs []int64
	for n := 1 + r.Intn(3); n > 0; n-- {
		k++
		c := int64(engine.PickInt(r, cX, cEd))
		o := engine.Op{N: "key", K: k, I: []int64{c}, B: h3(genKey(r, c))}
		if r.Intn(6) == 0 {
			o = engine.Op{N: "raw", K: k, I: []int64{int64(r.Intn(2))}, B: h3(special(r, cX))}
			switch r.Intn(4) {
			case 0:
				o.B = h3(ref.SmallKey(o.I[0] == 1, r.Intn(32)))
			case 1:
				o.B = h3(r.Bytes(32))
			}
		}
		p.Ops = append(p.Ops, o)
		recs = append(recs, int64(k))
	}
	for n := 2 + r.Intn(8) + longLife(r, idx, 40); n > 0; n-- {
		k++
		if r.Intn(4) == 0 {
			p.Ops = append(p.Ops, engine.Op{N: "use", K: k, I: []int64{recs[r.Intn(len(recs))]}, B: h3(genMsg(r, cEd))})
			continue
		}
		p.Ops = append(p.Ops, engine.Op{N: "hop", K: k, I: []int64{recs[len(recs)-1-r.Intn(1+r.Intn(len(recs)))], int64(r.Intn(2)), int64(r.Intn(12))}})
		recs = append(recs, int64(k))
		if r.Intn(4) == 0 {
			f := genWire(r, k, 0, cX)
			if r.Intn(3) == 0 {
				f = engine.Fault{Kind: "wire-set", At: k, D: special(r, cX)}
			}
			p.Faults = append(p.Faults, f)
		}
	}
	return p
}

type convRec struct {
	mont bool
	b    []byte
	d    *big.Int // private scalar up to sign; nil when not known
}

func (convertProp) Exec(e *engine.Env) {
	recs := map[int64]*convRec{}
	e.NewEntropy("signer", nil).Install()
	var n int64
	s := e.Solo(4_000_000_000, func() {
		for _, o := range e.Plan.Ops {
			o := o
			catch(e, "convert", o, func() {
				switch o.N {
				case "key":
					c := in(o.I, 0)
					if len(o.B) == 0 || c != cX && c != cEd || scalar(c, o.B[0]) == nil {
						return
					}
					res := do("GenPubkey", []int64{c}, [][]byte{dup(o.B[0])})
					e.Log("key %v", res)
					want := refPub(c, o.B[0])
					if !bytes.Equal(at(res.Outs, 0), want) {
						e.Fail("convert-key", "%s: GenPubkey(%x) = %v", curveName(c), []byte(o.B[0]), res)
					}
					recs[int64(o.K)] = &convRec{c == cX, want, scalar(c, o.B[0])}
				case "raw":
					if len(o.B) > 0 && len(o.B[0]) == 32 {
						recs[int64(o.K)] = &convRec{in(o.I, 0) == 1, o.B[0], nil}
					}
				case "hop":
					n++
					hop(e, o, recs)
				case "use":
					n++
					useConverted(e, o, recs)
				}
			})
		}
	})
	settle(e, "convert", s)
	e.Add("operations", n)
	e.Out.Trivial = n == 0
}

func hop(e *engine.Env, o engine.Op, recs map[int64]*convRec) {
	r := recs[in(o.I, 0)]
	if r == nil {
		return
	}
	b, d := dup(r.b), r.d
	for _, f := range e.FaultsAt(o.K) {
		w := applyWire(e, cX, b, nil, f)
		if !bytes.Equal(w, b) {
			b, d = w, nil
		}
	}
	mont := r.mont
	if in(o.I, 2) == 0 { // taken for the other form: still a map on coordinates
		mont, d = !mont, nil
	}
	name := "CURVE25519_convert_Ed_to_X"
	if mont {
		name = "CURVE25519_convert_X_to_Ed"
	}
	var res Res
	if in(o.I, 1) == 1 && len(b) == 32 {
		name = "eddsa.convert"
		dir := int64(1)
		if mont {
			dir = 0
		}
		res = do(name, []int64{dir}, [][]byte{dup(b)})
	} else {
		res = do(name, nil, [][]byte{dup(b)})
	}
	got := at(res.Outs, 0)
	e.Log("%s %v", name, res)
	what := name + "(" + engine.Short(b) + ")"
	if !res.OK && len(got) != 0 {
		e.Fail("convert-failed-with-data", "%s failed and returned %s", what, engine.Short(got))
	}
	if len(b) != 32 {
		e.Count("refused")
		if res.OK {
			e.Fail("convert-accepts", "%s accepts %d bytes", what, len(b))
		}
		return
	}
	var want []byte
	may := false // refusing is allowed
	if mont {
		u := ref.LE(b)
		if u.Cmp(ref.P25519) >= 0 { // not a coordinate
			e.Count("refused")
			if res.OK {
				e.Fail("convert-accepts", "%s accepts a coordinate that is not reduced", what)
			}
			return
		}
		want = ref.XToEdY(b)
		may = !ref.OnMont(u) || u.Cmp(new(big.Int).Sub(ref.P25519, one)) == 0
	} else {
		want = ref.EdYToX(b)
		y := append([]byte{}, b...)
		y[31] &= 0x7f
		may = !ref.IsEdPoint(b) || ref.LE(y).Cmp(one) == 0
	}
	if !res.OK && may {
		e.Count("refused")
		return
	}
	if !res.OK || !bytes.Equal(got, want) {
		e.Fail("convert-map", "%s = %v, the birational map gives %x", what, res, want)
		return
	}
	e.Count("converted")
	if d != nil {
		// the map takes keys to keys of the same private scalar
		wantKey := ref.XPub(d)
		if mont {
			wantKey = ref.EdPub(d)
			wantKey[31] &= 0x7f
		}
		if !bytes.Equal(got, wantKey) {
			e.Fail("convert-key", "%s = %x, key generation gives %x", what, got, wantKey)
		}
		e.Count("same_key")
	}
	// and back again
	if !may {
		back := "CURVE25519_convert_X_to_Ed"
		if mont {
			back = "CURVE25519_convert_Ed_to_X"
		}
		q := do(back, nil, [][]byte{dup(got)})
		same := dup(b)
		if !mont {
			same[31] &= 0x7f
		}
		if !q.OK || !bytes.Equal(at(q.Outs, 0), same) {
			e.Fail("convert-roundtrip", "%s = %x, which converts back to %v", what, got, q)
		}
	}
	recs[int64(o.K)] = &convRec{!mont, dup(got), d}
}

// useConverted signs with the private key and verifies under what arrived.
func useConverted(e *engine.Env, o engine.Op, recs map[int64]*convRec) {
	r := recs[in(o.I, 0)]
	if r == nil || r.d == nil || len(o.B) == 0 || len(o.B[0]) == 0 {
		return
	}
	d := new(big.Int).Mod(r.d, ref.L25519)
	c := int64(cX)
	if !r.mont {
		c = cEd
		if !bytes.Equal(ref.EdPub(d), r.b) { // the sign was lost on the way: the negated key
			d.Sub(ref.L25519, d)
		}
	}
	priv := ref.LE32(d)
	if scalar(c, priv) == nil {
		return
	}
	sig := do("Signature", []int64{c}, [][]byte{priv, nil, dup(o.B[0])})
	e.Log("sign %v", sig)
	if !sig.OK {
		e.Fail("convert-sign", "%s: a key does not sign: %s", curveName(c), sig.Ret)
		return
	}
	res := do("Verify", []int64{c}, [][]byte{dup(r.b), nil, dup(o.B[0]), dup(at(sig.Outs, 0))})
	e.Log("verify %v", res)
	e.Count("verified")
	if !res.OK {
		e.Fail("convert-use", "%s: a signature does not verify under the converted key %x: %s", curveName(c), r.b, res.Ret)
	}
}

func (convertProp) Info() engine.Info {
	return engine.Info{Quick: 600, Thorough: 20000, Chunk: 20, PlainQuick: 8000, PlainThorough: 800000, PlainChunk: 100, QuickSecs: 60, ThoroughSecs: 700, Timeout: 120,
		Rule:        "an episode counts when at least one key was converted or used; distinct = distinct event logs",
		Real:        []string{"CURVE25519_convert_X_to_Ed, CURVE25519_convert_Ed_to_X, eddsa.ConvertXToEd, eddsa.ConvertEdToX, key generation, Signature and Verify of X25519 and Ed25519"},
		Stubs:       []string{"network between the systems", "entropy device"},
		Assumptions: []string{"the reference curve arithmetic (math/big) is correct", "bytes that are not the coordinate of a curve point may be refused or mapped"},
		MinProbes:   map[string]int64{"converted": 5000, "same_key": 2000, "refused": 200, "verified": 500},
	}
}
