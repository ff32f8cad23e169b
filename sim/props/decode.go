package props

import (
	"bytes"
	"math/big"

	"verifsim/engine"
	"verifsim/ref"
)

// C13: a damaged stored key never decodes to something that is not a key.
//
// "store" I=[curve] B=[priv, aux] writes a compressed public key.  "read"
// I=[record, other record, how] B=[scalar] reads it back (storage faults at K)
// and either decompresses it or hands it to a service that does.

type decodeProp struct{}

func init() { engine.Register(decodeProp{}) }

func (decodeProp) ID() string { return "C13" }

const (
	howDecompress = iota
	howAdd
	howMul
	howPasta // the sub-package's own services
	howFull  // uncompressed form through the point services
	howVerify
	nHow
)

func (decodeProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C13", seed, idx)
	p := &engine.Plan{Prop: "C13", Seed: seed, Idx: idx, Kind: "store"}
	c := int64(engine.PickInt(r, cK1, cR1, cSM2, cPasta, cK1, cR1, cSM2, cPasta, cEd, cNul))
	n := 1 + r.Intn(3)
	k := 0
	for i := 0; i < n; i++ {
		k++
		cc := c
		if r.Intn(10) == 0 {
			cc = int64(engine.PickInt(r, cK1, cR1, cSM2, cPasta))
		}
		p.Ops = append(p.Ops, engine.Op{N: "store", K: k, I: []int64{cc}, B: h3(genKey(r, cc))})
	}
	for m := n*(3+r.Intn(8)) + longLife(r, idx, 30); m > 0; m-- {
		k++
		how := int64(engine.PickInt(r, howDecompress, howDecompress, howDecompress, howAdd, howAdd, howMul, howPasta, howFull, howVerify))
		p.Ops = append(p.Ops, engine.Op{N: "read", K: k, I: []int64{int64(1 + r.Intn(n)), int64(1 + r.Intn(n)), how, int64(r.Intn(16))}, B: h3(genKey(r, c))})
		if r.Intn(6) == 0 {
			continue
		}
		for q := 1 + r.Intn(5)/4; q > 0; q-- {
			f := genWire(r, k, 0, c)
			switch r.Intn(6) {
			case 0: // the prefix byte
				f = engine.Fault{Kind: "wire-set", At: k, D: []byte{byte(engine.PickInt(r, 0, 1, 2, 3, 4, 5, 6, 7, 0x82, 255, r.Intn(256)))}}
			case 1, 2: // a coordinate with meaning
				f = engine.Fault{Kind: "wire-set", At: k, A: 1, D: special(r, c)}
			}
			p.Faults = append(p.Faults, f)
		}
	}
	return p
}

// resultPoint is what a point service must return: ok or failure.
func checkPoint(e *engine.Env, class, what string, res Res, want []byte, strip bool) {
	got := at(res.Outs, 0)
	if want == nil {
		if res.OK || len(got) != 0 {
			e.Fail(class, "%s answered %s %s where there is no such point", what, res.Ret, engine.Short(got))
		}
		return
	}
	if strip && len(got) == 65 && got[0] == 4 {
		got = got[1:]
	}
	if !res.OK || !bytes.Equal(got, want) {
		e.Fail(class, "%s answered %s %s instead of %s", what, res.Ret, engine.Short(got), engine.Short(want))
	}
}

func (decodeProp) Exec(e *engine.Env) {
	type rec struct {
		c       int64
		p       *party
		b, full []byte
	}
	recs := map[int64]*rec{}
	n := int64(0)
	s := e.Solo(4_000_000_000, func() {
		for _, o := range e.Plan.Ops {
			if o.N == "store" {
				p := newParty(o.I[0], o.B[0])
				if p.d == nil {
					continue
				}
				r := &rec{c: o.I[0], p: p, b: p.pub, full: p.pub}
				if curveOf(r.c) != nil {
					r.b = curveOf(r.c).Parse64(p.pub).Compress()
					if res := do("PointCompress", []int64{r.c}, [][]byte{dup(p.pub)}); !res.OK || !bytes.Equal(at(res.Outs, 0), r.b) {
						e.Fail("decode-compress", "%s: a valid key compresses to %v", curveName(r.c), res)
					}
				}
				recs[int64(o.K)] = r
				continue
			}
			r, other := recs[in(o.I, 0)], recs[in(o.I, 1)]
			if r == nil || other == nil {
				continue
			}
			c := r.c
			how := in(o.I, 2)
			got, peer := r.b, other.b
			if how == howFull {
				got, peer = r.full, other.full
			}
			orig := got
			for _, f := range e.FaultsAt(o.K) {
				got = applyWire(e, c, got, peer, f)
			}
			n++
			damaged := !bytes.Equal(got, orig)
			if damaged {
				e.Count("damaged")
			} else {
				e.Count("intact")
			}
			catch(e, "decode", o, func() { readBack(e, c, how, in(o.I, 3), got, other.c == c, other.full, o.B) })
		}
	})
	settle(e, "decode", s)
	e.Add("reads", n)
	e.Out.Trivial = n == 0
}

func readBack(e *engine.Env, c, how, variant int64, got []byte, sameCurve bool, other []byte, B []engine.Hex) {
	var sc []byte
	if len(B) > 0 {
		sc = B[0]
	}
	if len(sc) != 32 {
		sc = append(make([]byte, 31), 1)
	}
	k := new(big.Int).SetBytes(sc)
	cv := curveOf(c)
	if cv == nil {
		readOther(e, c, variant, got, other, sc)
		return
	}
	// what the record stands for
	var pt *ref.Point
	switch {
	case len(got) == 33:
		pt = cv.Decompress(got)
	case len(got) == 65 && got[0] == 4:
		pt = cv.Parse64(got[1:])
	default:
		pt = cv.Parse64(got)
	}
	if pt != nil {
		e.Count("decodable")
	} else {
		e.Count("undecodable")
	}
	enc := func(p *ref.Point) []byte {
		if p == nil || p.Inf {
			return nil
		}
		return p.Bytes()
	}
	name := curveName(c)
	switch how {
	case howDecompress:
		var want []byte
		if len(got) == 33 && pt != nil {
			want = append([]byte{4}, pt.Bytes()...)
		}
		res := do("PointDecompress", []int64{c}, [][]byte{dup(got)})
		e.Log("%s %v", name, res)
		checkPoint(e, "decode-wrong", name+" PointDecompress("+engine.Short(got)+")", res, want, false)
		if res.OK {
			back := do("PointCompress", []int64{c}, [][]byte{at(res.Outs, 0)})
			if !bytes.Equal(at(back.Outs, 0), got) {
				e.Fail("decode-roundtrip", "%s: %s decodes to a point that compresses to %v", name, engine.Short(got), back)
			}
		}
	case howAdd, howFull:
		if !sameCurve {
			return
		}
		o := append([]byte{}, other...)
		op := cv.Parse64(o)
		if variant&8 != 0 && pt != nil { // a point whose X differs in one bit: sparse field arithmetic
			for b := 0; b < 256; b++ {
				y := pt.Compress()
				bit := (b + int(sc[0])) & 255
				y[1+bit/8] ^= 1 << (bit & 7)
				if q := cv.Decompress(y); q != nil {
					op, o = q, q.Bytes()
					break
				}
			}
		}
		switch variant & 3 {
		case 1:
			o = append([]byte{4}, o...)
		case 2:
			o = op.Compress()
		case 3: // the negative of the record itself: the sum is at infinity
			if pt != nil {
				op = cv.Neg(pt)
				o = op.Bytes()
			}
		}
		var want []byte
		if pt != nil {
			want = enc(cv.Add(pt, op))
		}
		a := [][]byte{dup(got), o}
		if variant&4 != 0 {
			a[0], a[1] = a[1], a[0]
		}
		if variant&8 != 0 {
			e.Count("near")
		}
		res := do("Point_add", []int64{c}, a)
		e.Log("%s %v", name, res)
		checkPoint(e, "decode-add", name+" Point_add of record "+engine.Short(got), res, want, true)
		if how == howFull {
			var want []byte
			if pt != nil && (len(got) == 64 || c == cPasta) {
				want = enc(cv.Add(pt, cv.Base(k)))
			}
			res := do("Point_mulBaseG_add", []int64{c}, [][]byte{dup(got), dup(sc)})
			e.Log("%s %v", name, res)
			if c == cPasta && len(got) != 64 && want != nil && !res.OK {
				return // only the plain form is promised
			}
			checkPoint(e, "decode-muladd", name+" Point_mulBaseG_add of record "+engine.Short(got), res, want, true)
		}
	case howMul:
		var want []byte
		if pt != nil {
			want = enc(cv.Mul(pt, k))
		}
		res := do("Point_mul", []int64{c}, [][]byte{dup(got), dup(sc)})
		e.Log("%s %v", name, res)
		checkPoint(e, "decode-mul", name+" Point_mul of record "+engine.Short(got), res, want, true)
	case howVerify: // a record is used as a key without decoding it first
		res := do("Verify", []int64{c}, [][]byte{dup(got), []byte("id"), make([]byte, 32), bytes.Repeat([]byte{0, 1}, 32)})
		e.Log("%s %v", name, res)
		if res.OK {
			e.Fail("decode-verify", "%s Verify accepts a constant signature under %s", name, engine.Short(got))
		}
	case howPasta:
		if c != cPasta {
			return
		}
		if len(got) != 33 && len(got) != 64 && len(got) != 65 {
			pt = nil
		}
		var want []byte
		if pt != nil {
			want = append([]byte{4}, pt.Bytes()...)
		}
		res := do("pasta.PointDecompress", nil, [][]byte{dup(got)})
		e.Log("%s %v", name, res)
		checkPoint(e, "decode-wrong", "pasta.PointDecompress("+engine.Short(got)+")", res, want, false)
		want = nil
		if pt != nil {
			want = enc(cv.Mul(pt, k))
		}
		res = do("pasta.PointMul", nil, [][]byte{dup(got), dup(sc)})
		e.Log("%s %v", name, res)
		checkPoint(e, "decode-mul", "pasta.PointMul of record "+engine.Short(got), res, want, true)
	}
}

// readOther covers the curves whose public keys are compressed already.
func readOther(e *engine.Env, c, variant int64, got, other, sc []byte) {
	name := curveName(c)
	if c == cEd {
		ok := ref.EdDecodable(got)
		canon := ref.IsEdPoint(got)
		if canon {
			e.Count("decodable")
		} else {
			e.Count("undecodable")
		}
		if ok && !canon {
			return // another name of a point: may be refused or computed with
		}
		var want []byte
		if canon {
			want, _ = ref.EdPointAdd(got, other)
		}
		inf := ref.LE32(big.NewInt(1))
		if bytes.Equal(want, inf) {
			want = nil
		}
		a := [][]byte{dup(got), dup(other)}
		if variant&4 != 0 {
			a[0], a[1] = a[1], a[0]
		}
		res := do("Point_add", []int64{c}, a)
		e.Log("%s %v", name, res)
		checkPoint(e, "decode-add", name+" Point_add of record "+engine.Short(got), res, want, false)
		want = nil
		if canon {
			want, _ = ref.EdPointAdd(got, ref.EdPub(ref.LE(sc)))
		}
		if bytes.Equal(want, inf) {
			want = nil
		}
		res = do("Point_mulBaseG_add", []int64{c}, [][]byte{dup(got), dup(sc)})
		e.Log("%s %v", name, res)
		checkPoint(e, "decode-muladd", name+" Point_mulBaseG_add of record "+engine.Short(got), res, want, false)
		return
	}
	p, ok := ref.G1Parse(got, true)
	if ok {
		e.Count("decodable")
	} else {
		e.Count("undecodable")
	}
	d := scalar(c, sc)
	if ok && p.Inf || d == nil {
		return
	}
	var want []byte
	if ok {
		want, _ = ref.BlsAddG1(got, ref.BlsPub(d))
		if want != nil && want[0]&0x40 != 0 {
			want = nil
		}
	}
	res := do("Point_mulBaseG_add", []int64{c}, [][]byte{dup(got), dup(sc)})
	e.Log("%s %v", name, res)
	checkPoint(e, "decode-muladd", name+" Point_mulBaseG_add of record "+engine.Short(got), res, want, false)
}

func (decodeProp) Info() engine.Info {
	return engine.Info{Quick: 1200, Thorough: 30000, Chunk: 20, PlainQuick: 18000, PlainThorough: 400000, PlainChunk: 100, QuickSecs: 60, ThoroughSecs: 700, Timeout: 120,
		Rule:        "an episode counts when at least one record was read back; distinct = distinct event logs",
		Real:        []string{"PointCompress, PointDecompress, Point_add, Point_mul, Point_mulBaseG_add, pasta.Point*, Verify's key decoding"},
		Stubs:       []string{"key store"},
		Assumptions: []string{"decompression and group arithmetic of the reference are correct (math/big)", "an Edwards encoding with an unreduced coordinate may be refused or computed with"},
		MinProbes:   map[string]int64{"intact": 500, "damaged": 3000, "decodable": 1000, "undecodable": 1000},
	}
}
