package ref

import (
	"bytes"
	"crypto/rand"
	"math/big"
	"os"
	"testing"

	oc "github.com/blocktree/go-owcrypt"
)

func key(t *testing.T) []byte {
	k := make([]byte, 32)
	rand.Read(k)
	k[0] &= 0x0f
	k[31] |= 1
	k[31] &= 0x1f
	return k
}

func pub(t *testing.T, k []byte, c uint32) []byte {
	p, r := oc.GenPubkey(k, c)
	if r != oc.SUCCESS {
		t.Fatalf("pub %x %x", c, r)
	}
	return p
}
func sig(t *testing.T, k, id, m []byte, c uint32) ([]byte, byte) {
	p, v, r := oc.Signature(k, id, m, c)
	if r != oc.SUCCESS {
		t.Fatalf("sig %x %x", c, r)
	}
	return p, v
}

func TestLib(t *testing.T) {
	h := make([]byte, 32)
	id := []byte("1234567812345678")
	for i := 0; i < 6; i++ {
		rand.Read(h)
		for _, x := range []struct {
			c  *Curve
			id uint32
		}{{K1, oc.ECC_CURVE_SECP256K1}, {R1, oc.ECC_CURVE_SECP256R1}} {
			k := key(t)
			p := pub(t, k, x.id)
			if !bytes.Equal(p, x.c.Base(new(big.Int).SetBytes(k)).Bytes()) {
				t.Error("pub", x.id)
			}
			s, v := sig(t, k, nil, h, x.id)
			if !ECDSAVerify(x.c, p, h, s) {
				t.Errorf("ecdsa %x", x.id)
			}
			if q := ECDSARecover(x.c, s, v, h); q == nil || !bytes.Equal(q.Bytes(), p) {
				t.Errorf("rec %x %v", x.id, v)
			}
			n := ECDSANonce(x.c, new(big.Int).SetBytes(k), h, s)
			if q := x.c.Base(n); !bytes.Equal(B32(q.X), s[:32]) {
				t.Error("nonce")
			}
			h[3] ^= 1
			if ECDSAVerify(x.c, p, h, s) {
				t.Error("bad")
			}
		}
		k := key(t)
		p := pub(t, k, oc.ECC_CURVE_SM2_STANDARD)
		s, _ := sig(t, k, id, h, oc.ECC_CURVE_SM2_STANDARD)
		if !SM2Verify(p, id, h, s) || SM2Verify(p, id[1:], h, s) {
			t.Error("sm2")
		}
		_ = SM2Nonce(new(big.Int).SetBytes(k), s)
		ct, _ := oc.Encryption(p, h, oc.ECC_CURVE_SM2_STANDARD)
		pt, err := SM2Decrypt(new(big.Int).SetBytes(k), ct)
		if err != nil || !bytes.Equal(pt, h) {
			t.Error("sm2 dec", err)
		}
		ct = SM2Encrypt(p, h, big.NewInt(12345678901))
		pt, r := oc.Decryption(k, ct, oc.ECC_CURVE_SM2_STANDARD)
		if r != oc.SUCCESS || !bytes.Equal(pt, h) {
			t.Error("sm2 enc", r)
		}
		for _, c := range []uint32{oc.ECC_CURVE_ED25519, oc.ECC_CURVE_ED25519_NORMAL} {
			k[0] &= 248
			k[31] |= 64
			p = pub(t, k, c)
			s, _ = sig(t, k, nil, h, c)
			if !EdVerify(p, h, s) {
				t.Errorf("ed %x", c)
			}
			if c == oc.ECC_CURVE_ED25519 {
				if !bytes.Equal(p, EdPub(LE(k))) {
					t.Error("edpub")
				}
				if !bytes.Equal(EdSign(LE(k), h, EdNonce(LE(k), h, s)), s) {
					t.Error("edsign")
				}
			} else {
				if !bytes.Equal(p, SeedPub(k)) || !bytes.Equal(p, EdPub(SeedScalar(k))) {
					t.Error("seedpub")
				}
			}
		}
		k[0] &= 248
		k[31] = k[31]&127 | 64
		p = pub(t, k, oc.ECC_CURVE_X25519)
		s, _ = sig(t, k, nil, h, oc.ECC_CURVE_X25519)
		if !XEdVerify(p, h, s) {
			t.Errorf("xed")
		}
		if !bytes.Equal(p, XPub(LE(k))) {
			t.Error("xpub")
		}
		if !bytes.Equal(EdPub(XNonce(LE(k), h, s)), s[:32]) {
			t.Error("xnonce")
		}
		rand.Read(k)
		p = pub(t, k, oc.ECC_CURVE_CURVE25519_SHA256)
		s, _ = sig(t, k, nil, h, oc.ECC_CURVE_CURVE25519_SHA256)
		if ok, _ := KCDSAVerify(p, h, s); !ok {
			t.Error("kcdsa")
		}
		if !bytes.Equal(p, KCDSAPub(k)) {
			t.Error("kcpub")
		}
		for _, aug := range []bool{false, true} {
			c := oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL
			if aug {
				c = oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG
			}
			k = key(t)
			p = pub(t, k, uint32(c))
			if !bytes.Equal(p, BlsPub(new(big.Int).SetBytes(k))) {
				t.Error("blspub")
			}
			s, _ = sig(t, k, nil, h, uint32(c))
			if !bytes.Equal(s, BlsSign(aug, new(big.Int).SetBytes(k), h)) {
				t.Error("blssign", aug)
			}
			if _, ok := G2Parse(s, true); !ok {
				t.Error("g2parse")
			}
			if _, ok := G1Parse(p, true); !ok {
				t.Error("g1parse")
			}
		}
		k = key(t)
		p = pub(t, k, oc.ECC_CURVE_PASTA)
		msg := minaMsgForTest(t)
		s, _ = sig(t, k, nil, msg, oc.ECC_CURVE_PASTA)
		if !MinaVerify(p, msg, s) {
			t.Error("mina")
		}
		nn := MinaNonce(new(big.Int).SetBytes(k), msg, s)
		if !bytes.Equal(MinaSign(new(big.Int).SetBytes(k), msg, nn), s) {
			t.Errorf("minasign %x %x", MinaSign(new(big.Int).SetBytes(k), msg, nn), s)
		}
	}
}
func minaMsgForTest(t *testing.T) []byte {
	b, _ := os.ReadFile("/tmp/mina.json")
	return b
}

func TestHashToG1(t *testing.T) {
	dst := []byte("QUUX-V01-CS02-with-BLS12381G1_XMD:SHA-256_SSWU_RO_")
	p := HashToG1(nil, dst, true)
	if p.X.Cmp(hx("052926add2207b76ca4fa57a8734416c8dc95e24501772c814278700eed6d1e4e8cf62d9c09db0fac349612b759e79a1")) != 0 || p.Y.Cmp(hx("08ba738453bfed09cb546dbb0783dbb3a5f1f566ed67bb6be0e8c67e2e81a4cc68ee29813bb7994998f3eae0c9c6a265")) != 0 {
		t.Error("HashToG1", p)
	}
}
