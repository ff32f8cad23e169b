package props

import (
	"fmt"
	"strings"

	oc "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/bls12_381"
	"github.com/blocktree/go-owcrypt/eddsa"
	"github.com/blocktree/go-owcrypt/pasta"
	"github.com/blocktree/go-owcrypt/sha3"
	"github.com/blocktree/go-owcrypt/sm3"
)

// Curves under test, by short index.
var curves = []struct {
	name string
	id   uint32
}{
	{"k1", oc.ECC_CURVE_SECP256K1}, {"r1", oc.ECC_CURVE_SECP256R1}, {"sm2", oc.ECC_CURVE_SM2_STANDARD},
	{"ednormal", oc.ECC_CURVE_ED25519_NORMAL}, {"ed", oc.ECC_CURVE_ED25519}, {"x25519", oc.ECC_CURVE_X25519},
	{"c25519sha", oc.ECC_CURVE_CURVE25519_SHA256}, {"blsnul", oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL},
	{"blsaug", oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG}, {"pasta", oc.ECC_CURVE_PASTA},
}

const (
	cK1 = iota
	cR1
	cSM2
	cEdN
	cEd
	cX
	cKCDSA
	cNul
	cAug
	cPasta
	nCurves
)

func curveID(i int64) uint32 {
	if i >= 0 && int(i) < len(curves) {
		return curves[i].id
	}
	return uint32(i)
}

func curveName(i int64) string {
	if i >= 0 && int(i) < len(curves) {
		return curves[i].name
	}
	return fmt.Sprintf("type-%x", uint32(i))
}

// Res is the observable result of one call.
type Res struct {
	Ret  string   // return code / error as text
	OK   bool     // the call reported success
	Outs [][]byte // returned data
	V    int      // recovery flag where there is one
}

func (r Res) String() string {
	var b strings.Builder
	b.WriteString(r.Ret)
	for _, o := range r.Outs {
		if o == nil {
			b.WriteString(" nil")
		} else {
			fmt.Fprintf(&b, " %x", o)
		}
	}
	fmt.Fprintf(&b, " v=%d", r.V)
	return b.String()
}

func rc(ret uint16, outs ...[]byte) Res {
	return Res{Ret: fmt.Sprintf("%04x", ret), OK: ret == oc.SUCCESS, Outs: outs}
}

// errRes is the result of a call that reports failure through an error.
func errRes(err error, outs ...[]byte) Res {
	if err != nil {
		return Res{Ret: "error", Outs: outs}
	}
	return Res{Ret: "ok", OK: true, Outs: outs}
}

// nilRes is the result of a call that reports failure by returning nil.
func nilRes(out []byte) Res {
	if out == nil {
		return Res{Ret: "nil", Outs: [][]byte{nil}}
	}
	return Res{Ret: "ok", OK: true, Outs: [][]byte{out}}
}

func boolRes(ok bool) Res {
	return Res{Ret: fmt.Sprint(ok), OK: ok}
}

// at returns operand i or nil.
func at(b [][]byte, i int) []byte {
	if i < len(b) {
		return b[i]
	}
	return nil
}

// Service is one public operation.
type Service struct {
	Name  string
	Bytes int // number of byte operands
	Call  func(i []int64, b [][]byte) Res
}

func in(i []int64, k int) int64 {
	if k < len(i) {
		return i[k]
	}
	return 0
}

var services = []Service{
	{"GenPubkey", 1, func(i []int64, b [][]byte) Res {
		p, ret := oc.GenPubkey(at(b, 0), curveID(in(i, 0)))
		return rc(ret, p)
	}},
	{"Signature", 3, func(i []int64, b [][]byte) Res {
		s, v, ret := oc.Signature(at(b, 0), at(b, 1), at(b, 2), curveID(in(i, 0)))
		r := rc(ret, s)
		r.V = int(v)
		return r
	}},
	{"Verify", 4, func(i []int64, b [][]byte) Res {
		return rc(oc.Verify(at(b, 0), at(b, 1), at(b, 2), at(b, 3), curveID(in(i, 0))))
	}},
	{"AggregateSignatures", -1, func(i []int64, b [][]byte) Res {
		o, ret := oc.AggregateSignatures(curveID(in(i, 0)), b...)
		return rc(ret, o)
	}},
	{"Encryption", 2, func(i []int64, b [][]byte) Res {
		o, ret := oc.Encryption(at(b, 0), at(b, 1), curveID(in(i, 0)))
		return rc(ret, o)
	}},
	{"Decryption", 2, func(i []int64, b [][]byte) Res {
		o, ret := oc.Decryption(at(b, 0), at(b, 1), curveID(in(i, 0)))
		return rc(ret, o)
	}},
	{"KeyAgreement_initiator_step1", 0, func(i []int64, b [][]byte) Res {
		r, p := oc.KeyAgreement_initiator_step1(curveID(in(i, 0)))
		if p == nil {
			return Res{Ret: "nil", Outs: [][]byte{r, p}}
		}
		return Res{Ret: "ok", OK: true, Outs: [][]byte{r, p}}
	}},
	{"KeyAgreement_initiator_step2", 9, func(i []int64, b [][]byte) Res {
		k, s, ret := oc.KeyAgreement_initiator_step2(at(b, 0), at(b, 1), at(b, 2), at(b, 3), at(b, 4), at(b, 5), at(b, 6), at(b, 7), at(b, 8), uint16(in(i, 1)), curveID(in(i, 0)))
		return rc(ret, k, s)
	}},
	{"KeyAgreement_responder_step1", 6, func(i []int64, b [][]byte) Res {
		k, p, s1, s2, ret := oc.KeyAgreement_responder_step1(at(b, 0), at(b, 1), at(b, 2), at(b, 3), at(b, 4), at(b, 5), uint16(in(i, 1)), curveID(in(i, 0)))
		return rc(ret, k, p, s1, s2)
	}},
	{"KeyAgreement_responder_ElGamal_step1", 7, func(i []int64, b [][]byte) Res {
		k, p, s1, s2, ret := oc.KeyAgreement_responder_ElGamal_step1(at(b, 0), at(b, 1), at(b, 2), at(b, 3), at(b, 4), at(b, 5), uint16(in(i, 1)), at(b, 6), curveID(in(i, 0)))
		return rc(ret, k, p, s1, s2)
	}},
	{"KeyAgreement_responder_step2", 2, func(i []int64, b [][]byte) Res {
		return rc(oc.KeyAgreement_responder_step2(at(b, 0), at(b, 1), curveID(in(i, 0))))
	}},
	{"Point_mulBaseG", 1, func(i []int64, b [][]byte) Res {
		return nilRes(oc.Point_mulBaseG(at(b, 0), curveID(in(i, 0))))
	}},
	{"Point_mulBaseG_add", 2, func(i []int64, b [][]byte) Res {
		p, inf := oc.Point_mulBaseG_add(at(b, 0), at(b, 1), curveID(in(i, 0)))
		if inf {
			return Res{Ret: "infinity", Outs: [][]byte{p}}
		}
		return nilRes(p)
	}},
	{"Point_add", 2, func(i []int64, b [][]byte) Res {
		p, ret := oc.Point_add(at(b, 0), at(b, 1), curveID(in(i, 0)))
		return rc(ret, p)
	}},
	{"Point_mul", 2, func(i []int64, b [][]byte) Res {
		p, ret := oc.Point_mul(at(b, 0), at(b, 1), curveID(in(i, 0)))
		return rc(ret, p)
	}},
	{"PointCompress", 1, func(i []int64, b [][]byte) Res {
		return nilRes(oc.PointCompress(at(b, 0), curveID(in(i, 0))))
	}},
	{"PointDecompress", 1, func(i []int64, b [][]byte) Res {
		return nilRes(oc.PointDecompress(at(b, 0), curveID(in(i, 0))))
	}},
	{"RecoverPubkey", 2, func(i []int64, b [][]byte) Res {
		p, ret := oc.RecoverPubkey(at(b, 0), at(b, 1), curveID(in(i, 0)))
		return rc(ret, p)
	}},
	{"GetCurveOrder", 0, func(i []int64, b [][]byte) Res {
		return nilRes(oc.GetCurveOrder(curveID(in(i, 0))))
	}},
	{"CURVE25519_convert_X_to_Ed", 1, func(i []int64, b [][]byte) Res {
		p, err := oc.CURVE25519_convert_X_to_Ed(at(b, 0))
		return errRes(err, p)
	}},
	{"CURVE25519_convert_Ed_to_X", 1, func(i []int64, b [][]byte) Res {
		p, err := oc.CURVE25519_convert_Ed_to_X(at(b, 0))
		return errRes(err, p)
	}},
	{"Hash", 1, func(i []int64, b [][]byte) Res {
		return nilRes(oc.Hash(at(b, 0), uint16(in(i, 1)), uint32(in(i, 0))))
	}},
	{"Hmac", 2, func(i []int64, b [][]byte) Res {
		return nilRes(oc.Hmac(at(b, 0), at(b, 1), uint32(in(i, 0))))
	}},
	{"Stream", 4, func(i []int64, b [][]byte) Res { // alg, size, cut, params: key salt person data
		a := algs[int(in(i, 0))%len(algs)]
		p := hashParams{key: at(b, 0), salt: at(b, 1), person: at(b, 2), size: int(in(i, 1))}
		h := a.mk(p)
		m := at(b, 3)
		c := int(in(i, 2))
		if c > len(m) || c < 0 {
			c = len(m)
		}
		h.Write(m[:c])
		mid := h.Sum(nil)
		h.Write(m[c:])
		return Res{Ret: "ok", OK: true, Outs: [][]byte{mid, h.Sum(nil)}}
	}},
	{"ShakeSum", 1, func(i []int64, b [][]byte) Res {
		out := make([]byte, int(in(i, 1)))
		if in(i, 0) == 128 {
			sha3.ShakeSum128(out, at(b, 0))
		} else {
			sha3.ShakeSum256(out, at(b, 0))
		}
		return nilRes(out)
	}},
	{"Sm3Sum", 1, func(i []int64, b [][]byte) Res { return nilRes(sm3.Sm3Sum(at(b, 0))) }},
	{"Sha3Sum", 1, func(i []int64, b [][]byte) Res {
		a := sha3.Sum224(at(b, 0))
		c := sha3.Sum256(at(b, 0))
		d := sha3.Sum384(at(b, 0))
		e := sha3.Sum512(at(b, 0))
		return Res{Ret: "ok", OK: true, Outs: [][]byte{a[:], c[:], d[:], e[:]}}
	}},
	// exported helpers of the root package
	{"MulBaseG_Add", 2, func(i []int64, b [][]byte) Res {
		p, inf := oc.MulBaseG_Add(at(b, 0), at(b, 1), weName(in(i, 0)))
		if inf {
			return Res{Ret: "infinity", Outs: [][]byte{p}}
		}
		return nilRes(p)
	}},
	{"Add", 2, func(i []int64, b [][]byte) Res {
		p, inf := oc.Add(at(b, 0), at(b, 1), weName(in(i, 0)))
		if inf {
			return Res{Ret: "infinity", Outs: [][]byte{p}}
		}
		return nilRes(p)
	}},
	{"Mul", 2, func(i []int64, b [][]byte) Res {
		p, inf := oc.Mul(at(b, 0), at(b, 1), weName(in(i, 0)))
		if inf {
			return Res{Ret: "infinity", Outs: [][]byte{p}}
		}
		return nilRes(p)
	}},
	// sub-package entry points that callers use directly
	{"pasta.PointDecompress", 1, func(i []int64, b [][]byte) Res {
		p, err := pasta.PointDecompress(at(b, 0))
		return errRes(err, p)
	}},
	{"pasta.PointAdd", 2, func(i []int64, b [][]byte) Res {
		p, err := pasta.PointAdd(at(b, 0), at(b, 1))
		return errRes(err, p)
	}},
	{"pasta.PointMul", 2, func(i []int64, b [][]byte) Res {
		p, err := pasta.PointMul(at(b, 0), at(b, 1))
		return errRes(err, p)
	}},
	{"pasta.Negate", 1, func(i []int64, b [][]byte) Res {
		var p, q pasta.Affine
		if err := p.FromBigEndianBytes(at(b, 0)); err != nil {
			return errRes(err)
		}
		pasta.AffineNegate(&q, p)
		return errRes(nil, q.ToBigEndianBytes())
	}},
	{"pasta.Sign", 2, func(i []int64, b [][]byte) Res {
		p, err := pasta.Sign(at(b, 0), at(b, 1))
		return errRes(err, p)
	}},
	{"bls12_381.Sign", 2, func(i []int64, b [][]byte) Res {
		p, err := bls12_381.Sign(at(b, 0), at(b, 1))
		return errRes(err, p)
	}},
	{"bls12_381.Verify", 3, func(i []int64, b [][]byte) Res {
		return boolRes(bls12_381.Verify(at(b, 0), at(b, 1), at(b, 2)))
	}},
	{"bls12_381.AggregateSignatures", -1, func(i []int64, b [][]byte) Res {
		p, err := bls12_381.AggregateSignatures(b...)
		return errRes(err, p)
	}},
	{"eddsa.sign", 2, func(i []int64, b [][]byte) Res {
		f := []func(a, b []byte) ([]byte, error){eddsa.CURVE25519_sign, eddsa.ED25519_sign, eddsa.X25519_sign, eddsa.CURVE25519_sha256_sign}[int(uint64(in(i, 0)))&3]
		p, err := f(at(b, 0), at(b, 1))
		return errRes(err, p)
	}},
	{"eddsa.verify", 3, func(i []int64, b [][]byte) Res {
		f := []func(a, b, c []byte) bool{eddsa.CURVE25519_verify, eddsa.ED25519_verify, eddsa.X25519_verify, eddsa.CURVE25519_sha256_verify}[int(uint64(in(i, 0)))&3]
		return boolRes(f(at(b, 0), at(b, 1), at(b, 2)))
	}},
	{"pasta.Verify", 3, func(i []int64, b [][]byte) Res {
		return boolRes(pasta.Verify(at(b, 0), at(b, 1), at(b, 2)))
	}},
	{"pasta.GenPublicKey", 1, func(i []int64, b [][]byte) Res {
		p, err := pasta.GenPublicKey(at(b, 0))
		return errRes(err, p)
	}},
	{"pasta.PointMulBaseGAdd", 2, func(i []int64, b [][]byte) Res {
		p, err := pasta.PointMulBaseGAdd(at(b, 0), at(b, 1))
		return errRes(err, p)
	}},
	{"pasta.NewMinaMessage", 1, func(i []int64, b [][]byte) Res {
		m, err := pasta.NewMinaMessage(at(b, 0))
		if m == nil {
			return errRes(err, nil)
		}
		return errRes(err, m.ToBytes())
	}},
	{"bls12_381.GenPublicKey", 1, func(i []int64, b [][]byte) Res {
		p, err := bls12_381.GenPublicKey(at(b, 0))
		return errRes(err, p)
	}},
	{"bls12_381.ScalarMultBaseAdd", 2, func(i []int64, b [][]byte) Res {
		p, inf := bls12_381.ScalarMultBaseAdd(at(b, 0), at(b, 1))
		if inf {
			return Res{Ret: "infinity", Outs: [][]byte{p}}
		}
		return nilRes(p)
	}},
	{"bls12_381.G1", 2, func(i []int64, b [][]byte) Res { // decode two points, add, encode
		p, q := bls12_381.NullOwcryptG1(), bls12_381.NullOwcryptG1()
		if err := p.UnmarshalBinary(at(b, 0)); err != nil {
			return errRes(err)
		}
		if err := q.UnmarshalBinary(at(b, 1)); err != nil {
			return errRes(err)
		}
		s := bls12_381.NullOwcryptG1()
		s.Add(p, q)
		o, err := s.MarshalBinary()
		return errRes(err, o)
	}},
	{"bls12_381.G2", 2, func(i []int64, b [][]byte) Res {
		p, q := bls12_381.NullOwcryptG2(), bls12_381.NullOwcryptG2()
		if err := p.UnmarshalBinary(at(b, 0)); err != nil {
			return errRes(err)
		}
		if err := q.UnmarshalBinary(at(b, 1)); err != nil {
			return errRes(err)
		}
		s := bls12_381.NullOwcryptG2()
		s.Add(p, q)
		o, err := s.MarshalBinary()
		return errRes(err, o)
	}},
	{"eddsa.genPub", 1, func(i []int64, b [][]byte) Res {
		f := []func(a []byte) ([]byte, error){eddsa.CURVE25519_genPub, eddsa.ED25519_genPub, eddsa.X25519_genPub, eddsa.CURVE25519_sha256_genPub}[int(uint64(in(i, 0)))&3]
		p, err := f(at(b, 0))
		return errRes(err, p)
	}},
	{"eddsa.IsPoint", 1, func(i []int64, b [][]byte) Res { return boolRes(eddsa.IsPoint(at(b, 0))) }},
	{"eddsa.convert", 1, func(i []int64, b [][]byte) Res {
		var a [32]byte
		copy(a[:], at(b, 0))
		f := eddsa.ConvertXToEd
		if in(i, 0)&1 == 1 {
			f = eddsa.ConvertEdToX
		}
		o, err := f(a)
		if err != nil {
			return errRes(err)
		}
		return errRes(err, o[:])
	}},
}

func weName(i int64) string {
	switch i {
	case cK1:
		return "secp256k1"
	case cR1:
		return "secp256r1"
	case cSM2:
		return "sm2_std"
	}
	return "no such curve"
}

var serviceByName = func() map[string]*Service {
	m := map[string]*Service{}
	for i := range services {
		m[services[i].Name] = &services[i]
	}
	return m
}()

// do runs one call of the code under test.
func do(name string, i []int64, b [][]byte) Res {
	s := serviceByName[name]
	if s == nil {
		panic("unknown service " + name)
	}
	return s.Call(i, b)
}
