package props

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"

	"verifsim/engine"
	"verifsim/ref"
)

// genShort is a scalar whose multiple of the base point has a coordinate with
// zero bytes at an end, one in 65,536 and rarer; nil where there is no table.
func genShort(r *engine.Rand, c int64) *big.Int {
	var t [][]*big.Int
	switch c {
	case cEd, cX, cKCDSA:
		t = ref.Short("25519")
	default:
		if cv := curveOf(c); cv != nil {
			t = ref.Short(cv.Name)
		}
	}
	if len(t) == 0 {
		return nil
	}
	g := t[r.Intn(len(t))]
	k := new(big.Int).Set(g[r.Intn(len(g))])
	if r.Intn(2) == 0 {
		k.Sub(orderOf(c), k)
	}
	if c == cKCDSA { // the clamped representative, where there is one
		for i := 0; i < 8 && (k.Bit(254) == 0 || k.Bit(0)|k.Bit(1)|k.Bit(2) != 0); i++ {
			k.Add(k, orderOf(c))
		}
		if k.BitLen() > 255 {
			return nil
		}
	}
	return k
}

// quotient is t/d: what takes d·G to t·G.
func quotient(c int64, t, d *big.Int) *big.Int {
	n := orderOf(c)
	i := new(big.Int).ModInverse(new(big.Int).Mod(d, n), n)
	if i == nil || t == nil {
		return big.NewInt(1)
	}
	i.Mul(i, t)
	return i.Mod(i, n)
}

// forcedNonce makes the device deliver what SM2 encryption turns into k.
func forcedNonce(at int, k []byte) engine.Fault {
	d := new(big.Int).SetBytes(k)
	d.Sub(d, one)
	return engine.Fault{Kind: "rng-bytes", At: at, N: -1, D: append(make([]byte, 8), ref.B32(d)...)}
}

// kaKeyFor is the responder's private key with which the shared point of a key
// agreement is t times the base point.
func kaKeyFor(da, ra, rb, t *big.Int) []byte {
	n := orderOf(cSM2)
	bar := func(k *big.Int) *big.Int { return kaBar(ref.SM2.Base(k).Bytes()) }
	ta := bar(ra)
	ta.Mul(ta, ra).Add(ta, da)
	q := quotient(cSM2, t, ta)
	b := bar(rb)
	q.Sub(q, b.Mul(b, rb))
	return ref.B32(q.Mod(q, n))
}

// kaBar is the weight of an ephemeral key.
func kaBar(R []byte) *big.Int {
	x := append([]byte{}, R[16:32]...)
	x[0] |= 0x80
	return new(big.Int).SetBytes(x)
}

// kaDegenerate is the static key that is sign times the weighted ephemeral key k.
func kaDegenerate(k *big.Int, sign int64) []byte {
	x := kaBar(ref.SM2.Base(k).Bytes())
	x.Mul(x, k).Mul(x, big.NewInt(sign))
	return ref.B32(x.Mod(x, orderOf(cSM2)))
}

// shortSigs are calls whose signature, under an entropy source that reads all
// zeroes, has two zero bytes or more at an end of a component; found by search.
var shortSigs = []struct {
	c int64
	i []uint32
}{
	{cSM2, []uint32{110163, 111184, 190163, 221864, 227789, 246717, 250559, 265978, 556217, 579680}}, // first half ends
	{cSM2, []uint32{292895, 372579, 374357, 389802, 467130, 539891, 560883, 575653, 792519, 924550}}, // second half ends
	{cSM2, []uint32{29965, 151141, 387067, 417649, 441890, 459016, 487346, 686350, 881069, 908886}},  // first half starts
	{cSM2, []uint32{66171, 69777, 81445, 199831, 285025, 323506, 450900, 536097, 545557, 557920}},    // second half starts
	{cEdN, []uint32{56653, 91341, 170354, 229819, 289035, 324455, 332745, 393263, 671640, 716608}},   // first half starts
	{cEdN, []uint32{52846, 89327, 128157, 149806, 224762, 227435, 240240, 248221, 277032, 355256}},   // second half starts
	{cEdN, []uint32{198697, 318627, 922988, 2855, 9523, 10617, 12847, 14527, 17201, 20380}},          // second half ends
	{cEdN, []uint32{17280, 104847, 228630, 379994, 414142, 451180, 711567, 818970, 830126, 851295}},  // first half ends
	{cEd, []uint32{855901, 1066, 3655, 7309, 10651, 12004, 20218, 21469, 24422, 29933}},              // second half ends
	{cEd, []uint32{1818, 27291, 250695, 255899, 285421, 465478, 507048, 576885, 584279, 611235}},     // first half ends
	{cEd, []uint32{68697, 144433, 216149, 236061, 395508, 426434, 455177, 487212, 531839, 628039}},   // second half starts
	{cEd, []uint32{135995, 279311, 411634, 770366, 812582, 871085, 924201, 1022586}},                 // first half starts
	{cX, []uint32{1376, 2303, 2497, 10124, 14530, 18622, 27317, 66785, 108849, 111494}},              // second half ends
	{cX, []uint32{2184, 39097, 83760, 85990, 93908, 211607, 288955, 424045, 467815, 552834}},         // first half starts
	{cX, []uint32{102799, 133663, 140954, 307897, 320429, 381757, 395916, 425773, 442060, 461070}},   // second half starts
	{cX, []uint32{149860, 152127, 180366, 279368, 372192, 422678, 570741, 611586, 655918, 753806}},   // first half ends
}

// genShortSig is one of them, on curve c (-1: any); none when there is none.
func genShortSig(r *engine.Rand, k int, c int64) (engine.Op, []engine.Fault) {
	all := shortSigs
	if c >= 0 {
		all = nil
		for _, t := range shortSigs {
			if t.c == c {
				all = append(all, t)
			}
		}
	}
	if len(all) == 0 {
		return engine.Op{}, nil
	}
	t := all[r.Intn(len(all))]
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], t.i[r.Intn(len(t.i))])
	key := sha256.Sum256(append([]byte("short sig key"), b[:]...))
	msg := sha256.Sum256(append([]byte("short sig msg"), b[:]...))
	key[0] &= 0x3f
	key[31] &= 0x0f
	return engine.Op{N: "sign", K: k, I: []int64{t.c, 0}, B: h3(key[:], nil, msg[:], key[:])}, []engine.Fault{{Kind: "rng-const", At: k, N: -1}}
}
