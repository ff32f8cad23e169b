package props

import (
	"encoding/json"
	"math/big"

	"verifsim/engine"
	"verifsim/ref"
)

// Wire and storage faults: each changes one byte string.  peer is the same
// component of another session (may be nil).
var wireKinds = []string{"wire-flip", "wire-flip", "wire-flip2", "wire-zero", "wire-trunc", "wire-trunc", "wire-extend", "wire-swap", "wire-swap", "wire-mix", "wire-set", "wire-dup", "wire-lose", "wire-empty", "wire-nil", "wire-random", "wire-ff", "wire-add", "wire-neg", "wire-rot"}

// genWire draws a fault for component n of operation at.
func genWire(r *engine.Rand, at, n int, c int64) engine.Fault {
	f := engine.Fault{Kind: wireKinds[r.Intn(len(wireKinds))], At: at, N: n, A: int64(r.Intn(1 << 20)), B: int64(r.Intn(1 << 20))}
	switch f.Kind {
	case "wire-extend":
		f.D = r.Bytes(1 + engine.LogUniform(r, 40))
		if r.Intn(3) == 0 {
			f.D = make([]byte, len(f.D))
		}
	case "wire-set", "wire-random":
		f.D = r.Bytes(1 + engine.LogUniform(r, 100))
		if f.Kind == "wire-set" && r.Intn(2) == 0 {
			f.D = special(r, c)
			f.A = int64(32 * r.Intn(2))
		}
	}
	return f
}

// special is a 32-byte value with meaning on the curve.
func special(r *engine.Rand, c int64) []byte {
	n := new(big.Int).Set(orderOf(c))
	if r.Intn(3) == 0 {
		if cv := curveOf(c); cv != nil {
			n.Set(cv.P)
		} else {
			n.Set(ref.P25519)
		}
	}
	switch r.Intn(6) {
	case 5:
		if k := genShort(r, c); k != nil {
			n = k
		}
	case 0:
		n.SetInt64(int64(r.Intn(3)))
	case 1:
		n.Add(n, big.NewInt(int64(r.Intn(5)-2)))
	case 2:
		n.Rsh(n, 1)
	case 3:
		n.Sub(new(big.Int).Lsh(one, 256), one)
	}
	if n.BitLen() > 256 {
		n.SetInt64(1)
	}
	if n.Sign() < 0 {
		n.SetInt64(0)
	}
	if c == cEdN || c == cEd || c == cX || c == cKCDSA {
		return ref.LE32(n)
	}
	return ref.B32(n)
}

// applyWire returns b after the fault (b itself is not changed).
func applyWire(e *engine.Env, c int64, b, peer []byte, f engine.Fault) []byte {
	o := append([]byte{}, b...)
	n := int64(len(o))
	pos := func(x, m int64) int64 {
		if m <= 0 {
			return 0
		}
		return x % m
	}
	le := c == cEdN || c == cEd || c == cX || c == cKCDSA
	get := func(x []byte) *big.Int {
		if le {
			return ref.LE(x)
		}
		return new(big.Int).SetBytes(x)
	}
	put := func(x []byte, v *big.Int) {
		if v.Sign() < 0 || v.BitLen() > 256 {
			return
		}
		if le {
			copy(x, ref.LE32(v))
		} else {
			copy(x, ref.B32(v))
		}
	}
	switch f.Kind {
	case "wire-flip":
		if n > 0 {
			o[pos(f.A, n)] ^= 1 << uint(f.B&7)
		}
	case "wire-flip2":
		if n > 0 {
			o[pos(f.A, n)] ^= 1 << uint(f.B&7)
			o[pos(f.B, n)] ^= 1 << uint(f.A&7)
		}
	case "wire-zero":
		if n > 0 {
			s := pos(f.A, n)
			l := 1 + pos(f.B, n-s)
			if f.B%3 == 0 && n >= 32 { // a whole field
				s, l = 32*pos(f.A, n/32)+n%32%2*(f.B&1), 32
			}
			for i := s; i < s+l && i < n; i++ {
				o[i] = 0
			}
		}
	case "wire-ff":
		if n > 0 {
			s := pos(f.A, n)
			l := 1 + pos(f.B, n-s)
			if f.B%2 == 0 && n >= 32 {
				s, l = 32*pos(f.A, n/32)+n%32%2*(f.B>>1&1), 32
			}
			for i := s; i < s+l && i < n; i++ {
				o[i] = 0xff
			}
		}
	case "wire-trunc":
		l := pos(f.A, n)
		if f.B%3 == 0 && n > 0 {
			l = n - 1 - pos(f.A, 3)
			if l < 0 {
				l = 0
			}
		}
		o = o[:l:l]
	case "wire-lose": // bytes lost from the middle or the front
		if n > 0 {
			s := pos(f.A, n)
			l := 1 + pos(f.B, 4)
			if f.B%5 == 0 {
				s = 0
			}
			if s+l > n {
				l = n - s
			}
			o = append(o[:s:s], o[s+l:]...)
		}
	case "wire-dup":
		if n > 0 {
			s := pos(f.A, n)
			l := 1 + pos(f.B, n-s)
			o = append(o[:s+l:s+l], append(append([]byte{}, o[s:s+l]...), o[s+l:]...)...)
		}
	case "wire-extend":
		if f.A%3 == 0 {
			o = append(append([]byte{}, f.D...), o...)
		} else {
			o = append(o, f.D...)
		}
	case "wire-swap":
		if peer != nil {
			o = append([]byte{}, peer...)
		}
	case "wire-mix": // torn: the first part of one and the rest of the other
		if peer != nil && n > 0 {
			s := pos(f.A, n)
			if f.B%2 == 0 && n >= 64 {
				s = 32
			}
			if s <= int64(len(peer)) {
				o = append(o[:s:s], peer[s:]...)
			}
		}
	case "wire-set":
		if n > 0 {
			a := pos(f.A, n)
			if n%32 == 1 && f.A%32 == 0 && f.B&1 == 1 { // the fields follow a prefix byte
				a = pos(f.A+1, n)
			}
			copy(o[a:], f.D)
		}
	case "wire-random":
		o = append([]byte{}, f.D...)
	case "wire-empty":
		o = []byte{}
	case "wire-nil":
		o = nil
	case "wire-rot": // fields exchanged
		if n >= 64 {
			o = append(append([]byte{}, o[32:64]...), append(append([]byte{}, o[:32]...), o[64:]...)...)
		}
	case "wire-add": // a different representative of the same residue
		if c == cPasta && n > 0 && o[0] == '{' {
			return addMina(e, o, f)
		}
		if (c == cNul || c == cAug) && n >= 48 && n%48 == 0 {
			for i := int64(0); i < n/48; i++ { // the first coordinate, from a place on, that fits
				x := o[48*pos(f.A+i, n/48):][:48]
				flags := x[0] & 0xe0
				v := new(big.Int).SetBytes(x)
				v.And(v, new(big.Int).Sub(new(big.Int).Lsh(one, 381), one)).Add(v, ref.BlsP())
				if v.BitLen() <= 381 {
					v.FillBytes(x)
					x[0] |= flags
					e.Count("fault:not-reduced")
					break
				}
			}
			break
		}
		if n >= 32 {
			s := 32 * pos(f.A, n/32)
			if n%32 == 1 && f.A&1024 != 0 {
				s++
			}
			m := orderOf(c)
			if f.B%3 == 0 {
				if cv := curveOf(c); cv != nil {
					m = cv.P
				} else {
					m = ref.P25519
				}
			}
			put(o[s:s+32], new(big.Int).Add(get(o[s:s+32]), m))
		}
	case "wire-neg":
		if (c == cNul || c == cAug) && (n == 48 || n == 96) {
			o[0] ^= 0x20
			break
		}
		if n >= 32 {
			s := 32 * pos(f.A, n/32)
			if n%32 == 1 && f.A&1024 != 0 {
				s++
			}
			m := orderOf(c)
			if f.B%2 == 0 {
				if cv := curveOf(c); cv != nil {
					m = cv.P
				} else {
					m = ref.P25519
				}
			}
			put(o[s:s+32], new(big.Int).Sub(m, get(o[s:s+32])))
		}
	default:
		return b
	}
	if e != nil {
		e.Count("fault:" + f.Kind)
	}
	return o
}

// genRng draws entropy faults for one operation.
func genRng(r *engine.Rand, at int) []engine.Fault {
	kinds := []string{"rng-error", "rng-error", "rng-partial-error", "rng-eof", "rng-short", "rng-empty", "rng-const", "rng-const", "rng-stuck", "rng-lowbits", "rng-bytes"}
	var fs []engine.Fault
	for n := 1 + r.Intn(2); n > 0; n-- {
		f := engine.Fault{Kind: kinds[r.Intn(len(kinds))], At: at, N: engine.PickInt(r, -1, -1, 0, 0, 0, 1, 1, 2, -3, -4), A: int64(r.Intn(256))}
		if f.Kind == "rng-const" {
			f.A = int64(engine.PickInt(r, 0, 0, 255, 255, 1, 127, r.Intn(256)))
		}
		if f.Kind == "rng-bytes" {
			f.D = special(r, int64(r.Intn(nCurves)))
			if r.Intn(3) == 0 {
				f.D = append(f.D, special(r, int64(r.Intn(nCurves)))...)
			}
		}
		fs = append(fs, f)
	}
	return fs
}

// addMina adds the prime to one field element of a Mina message.
func addMina(e *engine.Env, b []byte, f engine.Fault) []byte {
	var m map[string][][4]uint64
	if json.Unmarshal(b, &m) != nil {
		return b
	}
	var all []*[4]uint64
	for _, k := range []string{"transactionPrefix", "transactionSuffix", "spongeIV"} {
		for i := range m[k] {
			all = append(all, &m[k][i])
		}
	}
	if len(all) == 0 {
		return b
	}
	x := all[f.A%int64(len(all))]
	v := new(big.Int)
	for i := 3; i >= 0; i-- {
		v.Lsh(v, 64).Add(v, new(big.Int).SetUint64(x[i]))
	}
	v.Add(v, new(big.Int).Mul(ref.Pallas.P, big.NewInt(1+f.B%2)))
	if v.BitLen() > 256 {
		return b
	}
	for i := range x {
		x[i] = v.Uint64()
		v.Rsh(v, 64)
	}
	o, _ := json.Marshal(m)
	if e != nil {
		e.Count("fault:wire-add")
	}
	return o
}
