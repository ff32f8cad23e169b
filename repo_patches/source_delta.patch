From 2994728e02ede160352e3ab51fcd530a54f19b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 01/45] fix: sm3 Sum appends to its argument and leaves the
 stream usable

---
 sm3/sm3.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 997f47a..8f0db7f 100755
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -159,24 +159,17 @@ func (sm3 *SM3) Write(p []byte) (int, error) {
 }
 
 func (sm3 *SM3) Sum(in []byte) []byte {
-	sm3.Write(in)
-	msg := sm3.pad()
-
-	sm3.update(msg, len(msg)/sm3.BlockSize())
-
-	needed := sm3.Size()
-	if cap(in)-len(in) < needed {
-		newIn := make([]byte, len(in), len(in)+needed)
-		copy(newIn, in)
-		in = newIn
-	}
-	out := in[len(in) : len(in)+needed]
+	// Pad a copy, so that the caller can keep writing and summing.
+	d := *sm3
+	d.unhandleMsg = append([]byte{}, sm3.unhandleMsg...)
+	msg := d.pad()
+	d.update(msg, len(msg)/d.BlockSize())
 
+	var out [32]byte
 	for i := 0; i < 8; i++ {
-		binary.BigEndian.PutUint32(out[i*4:], sm3.digest[i])
+		binary.BigEndian.PutUint32(out[i*4:], d.digest[i])
 	}
-	return out
-
+	return append(in, out[:]...)
 }
 
 func Sm3Sum(data []byte) []byte {
-- 
2.43.0


From 81a28ac064974c59166e9a01d92ab7114e0b74c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 02/45] fix: sha3 clone taken while squeezing continues at the
 right position

---
 sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sha3/sha3.go b/sha3/sha3.go
index 65b5031..2d82e1b 100755
--- a/sha3/sha3.go
+++ b/sha3/sha3.go
@@ -69,7 +69,7 @@ func (d *state) clone() *state {
 	if ret.state == spongeAbsorbing {
 		ret.buf = ret.storage[:len(ret.buf)]
 	} else {
-		ret.buf = ret.storage[d.rate-cap(d.buf) : d.rate]
+		ret.buf = ret.storage[d.rate-len(d.buf) : d.rate]
 	}
 
 	return &ret
-- 
2.43.0


From 38d0b7861008d2ab64ea83d9878a9c5ab114f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 03/45] fix: ed25519 and x25519 keys sign with the scalar their
 public key is made of

---
 eddsa/ed25519.go | 16 +++++++++++-----
 eddsa/x25519.go  |  3 +--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 1a81267..6479a52 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -32,8 +32,7 @@ func ED25519_genPub(prikey []byte) ([]byte, error) {
 	}
 
 	var A edwards25519.ExtendedGroupElement
-	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	hBytes := reduceScalar(prikey)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
@@ -42,6 +41,15 @@ func ED25519_genPub(prikey []byte) ([]byte, error) {
 	return publicKeyBytes[:], nil
 }
 
+// reduceScalar reduces a 32-byte little-endian scalar modulo the group order,
+// as the fixed-base multiplication only takes scalars below 2^255.
+func reduceScalar(scalar []byte) (reduced [32]byte) {
+	var wide [64]byte
+	copy(wide[:], scalar)
+	edwards25519.ScReduce(&reduced, &wide)
+	return
+}
+
 
 func ED25519_sign(prikey, message []byte) ([]byte, error) {
 
@@ -56,10 +64,8 @@ func ED25519_sign(prikey, message []byte) ([]byte, error) {
 	var expandedSecretKey, digest1 [32]byte
 	var messageDigest, hramDigest [64]byte
 
+	// the same scalar as in ED25519_genPub: a derived key is not clamped
 	copy(expandedSecretKey[:], prikey[:])
-	expandedSecretKey[0] &= 248
-	expandedSecretKey[31] &= 63
-	expandedSecretKey[31] |= 64
 	rand.Read(digest1[:])
 	h := sha512.New()
 	h.Write(digest1[:])
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 8129c64..704e3df 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -27,8 +27,7 @@ func X25519_genPub(prikey []byte) ([]byte, error) {
 	}
 
 	var A edwards25519.ExtendedGroupElement
-	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	hBytes := reduceScalar(prikey)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
-- 
2.43.0


From c31c8abacd665a7dc068a25fd0310dd2af3d8d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 04/45] fix: ed25519 and x25519 signing report an entropy
 failure

---
 eddsa/ed25519.go | 4 +++-
 eddsa/x25519.go  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 6479a52..c1b0b02 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -66,7 +66,9 @@ func ED25519_sign(prikey, message []byte) ([]byte, error) {
 
 	// the same scalar as in ED25519_genPub: a derived key is not clamped
 	copy(expandedSecretKey[:], prikey[:])
-	rand.Read(digest1[:])
+	if _, err := rand.Read(digest1[:]); err != nil {
+		return nil, err
+	}
 	h := sha512.New()
 	h.Write(digest1[:])
 	h.Write(message)
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 704e3df..28f1e7b 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -442,7 +442,9 @@ func X25519_sign(prikey, message []byte) ([]byte, error) {
 	signbit := ed_pubkey[31] & 0x80
 	sm := make([]byte, len(message) + 128)
 	random := make([]byte, 64)
-	rand.Read(random)
+	if _, err := rand.Read(random); err != nil {
+		return nil, err
+	}
 
 	signature := sign_modify(sm, message, prikey, ed_pubkey, random)
 
-- 
2.43.0


From 10fecf00a2e9c2956c5ce70ad868c00b1ad9ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 05/45] fix: ed25519 nonce depends on the private key

---
 eddsa/ed25519.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index c1b0b02..1c7f137 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -69,8 +69,11 @@ func ED25519_sign(prikey, message []byte) ([]byte, error) {
 	if _, err := rand.Read(digest1[:]); err != nil {
 		return nil, err
 	}
+	// the private key is part of the nonce, so that repeated entropy never
+	// makes two keys share one
 	h := sha512.New()
 	h.Write(digest1[:])
+	h.Write(prikey)
 	h.Write(message)
 	h.Sum(messageDigest[:0])
 
-- 
2.43.0


From 97bd56bec781542539b176ff2289c3276dfc2f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 06/45] fix: curve25519-sha256 leaves the caller's private key
 buffer alone

---
 eddsa/curve25519_sha256.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index 96d94ef..2241301 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -24,7 +24,8 @@ func CURVE25519_sha256_genPub(prikey []byte) ([]byte, error) {
 
 	pubkey := make([]byte, 32)
 
-	Keygen(pubkey, nil, prikey)
+	// Keygen clamps the key in place
+	Keygen(pubkey, nil, append([]byte{}, prikey...))
 
 	return pubkey, nil
 }
@@ -37,7 +38,8 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 	pubkey := make([]byte, 32)
 	s := make([]byte, 32)
 
-	Keygen(pubkey, s, prikey)
+	// Keygen clamps the key in place
+	Keygen(pubkey, s, append([]byte{}, prikey...))
 
 	digest := sha256.New()
 	digest.Write(message)
-- 
2.43.0


From 84fd334798389a1b533bad2e0adbdfe7f7d35407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 07/45] fix: x25519 and curve25519-sha256 verify signatures
 over the empty message

---
 eddsa/curve25519_sha256.go | 2 +-
 eddsa/x25519.go            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index 2241301..aeebdbc 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -69,7 +69,7 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 }
 
 func CURVE25519_sha256_verify(pubkey, message,signature []byte) bool {
-	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 || message == nil || len(message) == 0 {
+	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 {
 		return false
 	}
 
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 28f1e7b..0a0ae18 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -606,7 +606,7 @@ func verify_modify(message, sm, pubkey []byte) bool {
 
 func X25519_verify(pubkey, message,signature []byte) bool {
 
-	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 || message == nil || len(message) == 0 {
+	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 {
 		return false
 	}
 
-- 
2.43.0


From b411a62b6429630b5c36757effd77f84f42d10aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 08/45] fix: Ed25519-style verification rejects s outside the
 group order

---
 eddsa/curve25519.go | 2 +-
 eddsa/ed25519.go    | 2 +-
 eddsa/x25519.go     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eddsa/curve25519.go b/eddsa/curve25519.go
index 1735074..7fa7d0f 100644
--- a/eddsa/curve25519.go
+++ b/eddsa/curve25519.go
@@ -102,7 +102,7 @@ func CURVE25519_verify(pubkey, message, sig []byte) bool {
 		return false
 	}
 
-	if len(sig) != 64 || sig[63]&224 != 0 {
+	if len(sig) != 64 || !IsCanonicalSignature(sig[32:]) {
 		return false
 	}
 
diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 1c7f137..eb9b1b8 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -110,7 +110,7 @@ func ED25519_verify(pubkey, message, sig []byte) bool {
 		return false
 	}
 
-	if len(sig) != 64 || sig[63]&224 != 0 {
+	if len(sig) != 64 || !IsCanonicalSignature(sig[32:]) {
 		return false
 	}
 
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 0a0ae18..9cb9da0 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -573,7 +573,7 @@ func verify_modify(message, sm, pubkey []byte) bool {
 	var A edwards25519.ExtendedGroupElement
 	var R edwards25519.ProjectiveGroupElement
 
-	if sm[63] & 224 != 0 {
+	if !IsCanonicalSignature(sm[32:64]) {
 		return false
 	}
 	var pk [32]byte
-- 
2.43.0


From ef0072eb9b83df1c3668363749674f8a6fe0b5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 09/45] fix: SM2 nonce depends on the identity

---
 sm2_std.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm2_std.go b/sm2_std.go
index 8e719cf..8e7abde 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1046,6 +1046,8 @@ func sm2_std_sign(priv *ecdsa.PrivateKey, hash, uid []byte) (r, s *big.Int, v by
 	md.Write(priv.D.Bytes())
 	md.Write(entropy)
 	md.Write(hash)
+	// e binds the identity: repeated entropy never makes two identities share a nonce
+	md.Write(e.Bytes())
 	key := md.Sum(nil)[:32]
 
 	block, err := aes.NewCipher(key)
-- 
2.43.0


From 939d891800be0541eab1593fdc1d70c9e6d0bc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 10/45] fix: SM2 signing rejects the private key N-1 and
 retries on r+k=N

---
 ecdsa.go   | 3 ++-
 sm2_std.go | 5 +----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/ecdsa.go b/ecdsa.go
index 6f5ef48..346a024 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -151,7 +151,8 @@ func sign(privateKey, ID, hash []byte, name string) ([]byte, byte, error) {
 	} else if name == "sm2_std" {
 		sm2Curve = sm2_std
 
-		if privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
+		// 1 + d must have an inverse, so N-1 is no signing key either
+		if privateKeyBig.Cmp(new(big.Int).Sub(sm2Curve.Params().N, big.NewInt(1))) >= 0 {
 			return nil, 0, ErrPrivateKeyIllegal
 		}
 
diff --git a/sm2_std.go b/sm2_std.go
index 8e7abde..c3d940b 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1084,10 +1084,7 @@ func sm2_std_sign(priv *ecdsa.PrivateKey, hash, uid []byte) (r, s *big.Int, v by
 				v = 0x00
 			}
 
-			if r.Sign() != 0 {
-				break
-			}
-			if t := new(big.Int).Add(r, k); t.Cmp(N) == 0 {
+			if t := new(big.Int).Add(r, k); r.Sign() != 0 && t.Cmp(N) != 0 {
 				break
 			}
 		}
-- 
2.43.0


From 69e4709448d24cf640e4be892d7e2622c9fe7694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 11/45] fix: Mina signing reports entropy failure and uses
 full-width nonces

---
 pasta/pasta.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index 1c77dcb..524a26e 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -26,14 +26,19 @@ func Sign(privateKey, msg []byte) ([]byte, error) {
 	var kBytes [32]byte
 
 	var k Scalar
-	for {
-		rand.Read(kBytes[:])
-		kBytes[0] &= 0x03
+	for retry := 0; ; retry++ {
+		if _, err = rand.Read(kBytes[:]); err != nil {
+			return nil, err
+		}
+		kBytes[0] &= 0x3F
 
 		k.Set(BigEndianBytesToFqMontgomeryArray(kBytes[:]))
 		var k_nonzero uint64
 		FiatPastaFqNonZero(&k_nonzero, k.ToU64Array())
 		if k_nonzero == 0 {
+			if retry >= 16 {
+				return nil, errors.New("random source returns no usable nonce")
+			}
 			continue
 		} else {
 			break
-- 
2.43.0


From 4db80e6e9fe4574d5d4c8c946faadf415bbb8ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 12/45] fix: Mina private keys are accepted exactly in [1, q)

---
 pasta/pasta.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index 524a26e..5948c0f 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -3,13 +3,16 @@ package pasta
 import (
 	"crypto/rand"
 	"errors"
+	"math/big"
 )
 
+var fqModulus, _ = new(big.Int).SetString("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001", 16)
+
 // privateKey : big endian
 // publicKey  : big endian X || Y
 // all data is in big int field
 func GenPublicKey(privateKey []byte) ([]byte, error) {
-	if privateKey == nil || len(privateKey) != 32 || privateKey[0]&0xC0 != 0 {
+	if privateKey == nil || len(privateKey) != 32 || !isScalarInRange(privateKey) {
 		return nil, errors.New("invalid private key")
 	}
 
@@ -18,6 +21,12 @@ func GenPublicKey(privateKey []byte) ([]byte, error) {
 	return publicKey.ToBigEndianBytes(), nil
 }
 
+// isScalarInRange : 0 < scalar < q
+func isScalarInRange(scalar []byte) bool {
+	k := new(big.Int).SetBytes(scalar)
+	return k.Sign() > 0 && k.Cmp(fqModulus) < 0
+}
+
 func Sign(privateKey, msg []byte) ([]byte, error) {
 	pubBytes, err := GenPublicKey(privateKey)
 	if err != nil {
@@ -131,12 +140,10 @@ func PointMulBaseGAdd(pointin, scalar []byte) ([]byte, error) {
 	if pointin == nil || scalar == nil || len(scalar) != 32 {
 		return nil, errors.New("invalid input data")
 	}
-	pointTmp, err := GenPublicKey(scalar)
-	if err != nil {
-		return nil, err
-	}
+	var tmp Affine
+	GeneratePubkey(&tmp, BigEndianBytesToFqMontgomeryArray(scalar))
 
-	return PointAdd(pointTmp, pointin)
+	return PointAdd(tmp.ToBigEndianBytes(), pointin)
 }
 
 func PointAdd(point1, point2 []byte) ([]byte, error) {
-- 
2.43.0


From 584d6360f4812b148e6b9083316ec8337efd4b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 13/45] fix: Mina points and signatures are validated before
 use

---
 pasta/crypto.go | 24 +++++++++++++++++-------
 pasta/pasta.go  | 25 +++++++++++++++++++++----
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index d955aca..f3402e0 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -80,7 +80,9 @@ func (a *Affine) FromBigEndianBytes(p []byte) error {
 		if err != nil {
 			return err
 		}
-		Decompress(a, compressed)
+		if !Decompress(a, compressed) {
+			return errors.New("invalid input data p, not a compressed point")
+		}
 	} else {
 		var x_mont, y_mont [4]uint64
 		var tmp [32]byte
@@ -89,14 +91,19 @@ func (a *Affine) FromBigEndianBytes(p []byte) error {
 				return errors.New("invalid input data p, first byte is not 0x04")
 			}
 			p = p[1:]
-		} else {
-			copy(tmp[:], reverseBytes(p[:32]))
-			FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
-			copy(tmp[:], reverseBytes(p[32:]))
-			FiatPastaFpToMontgomery(&y_mont, BytesArrayToU64Array(tmp))
 		}
+		if !isFieldElement(p[:32]) || !isFieldElement(p[32:]) {
+			return errors.New("invalid input data p, coordinate out of range")
+		}
+		copy(tmp[:], reverseBytes(p[:32]))
+		FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
+		copy(tmp[:], reverseBytes(p[32:]))
+		FiatPastaFpToMontgomery(&y_mont, BytesArrayToU64Array(tmp))
 		a.X.Set(x_mont)
 		a.Y.Set(y_mont)
+		if AffineIsZero(*a) == 1 || !AffineIsOnCurve(*a) {
+			return errors.New("invalid input data p, not on the curve")
+		}
 	}
 
 	return nil
@@ -133,7 +140,10 @@ func (c *Compressed) FromBigEndianBytes(p []byte) error {
 	} else if p[0] == 0x03 {
 		c.IsOdd = true
 	} else {
-		errors.New("invalid input data p, first byte is not 0x02 or 0x03")
+		return errors.New("invalid input data p, first byte is not 0x02 or 0x03")
+	}
+	if !isFieldElement(p[1:]) {
+		return errors.New("invalid input data p, coordinate out of range")
 	}
 
 	var tmp [32]byte
diff --git a/pasta/pasta.go b/pasta/pasta.go
index 5948c0f..331e14c 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 )
 
+var fpModulus, _ = new(big.Int).SetString("40000000000000000000000000000000224698fc094cf91b992d30ed00000001", 16)
 var fqModulus, _ = new(big.Int).SetString("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001", 16)
 
 // privateKey : big endian
@@ -27,6 +28,11 @@ func isScalarInRange(scalar []byte) bool {
 	return k.Sign() > 0 && k.Cmp(fqModulus) < 0
 }
 
+// isFieldElement : 0 <= coordinate < p
+func isFieldElement(coordinate []byte) bool {
+	return new(big.Int).SetBytes(coordinate).Cmp(fpModulus) < 0
+}
+
 func Sign(privateKey, msg []byte) ([]byte, error) {
 	pubBytes, err := GenPublicKey(privateKey)
 	if err != nil {
@@ -91,6 +97,10 @@ func Verify(publicKey, msg, sig []byte) bool {
 		return false
 	}
 
+	if !isFieldElement(sig[:32]) || new(big.Int).SetBytes(sig[32:]).Cmp(fqModulus) >= 0 {
+		return false
+	}
+
 	var r_mont, s_mont Scalar
 	r_mont.Set(BigEndianBytesToFpMontgomeryArray(sig[:32]))
 	s_mont.Set(BigEndianBytesToFqMontgomeryArray(sig[32:]))
@@ -125,6 +135,9 @@ func Verify(publicKey, msg, sig []byte) bool {
 	var r Group
 	GroupAdd(&r, sg, neg_epub)
 
+	if IsZero(r) == 1 {
+		return false
+	}
 	var raff Affine
 	AffineFromGroup(&raff, r)
 
@@ -140,10 +153,14 @@ func PointMulBaseGAdd(pointin, scalar []byte) ([]byte, error) {
 	if pointin == nil || scalar == nil || len(scalar) != 32 {
 		return nil, errors.New("invalid input data")
 	}
-	var tmp Affine
-	GeneratePubkey(&tmp, BigEndianBytesToFqMontgomeryArray(scalar))
-
-	return PointAdd(tmp.ToBigEndianBytes(), pointin)
+	var r, p, q Affine
+	err := p.FromBigEndianBytes(pointin)
+	if err != nil {
+		return nil, err
+	}
+	GeneratePubkey(&q, BigEndianBytesToFqMontgomeryArray(scalar))
+	AffineAdd(&r, q, p)
+	return r.ToBigEndianBytes(), nil
 }
 
 func PointAdd(point1, point2 []byte) ([]byte, error) {
-- 
2.43.0


From 743bf76bcc65021b36573fc568e1e1069bbedc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 14/45] fix: Mina messages with unreduced field elements are
 rejected

---
 pasta/mina.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pasta/mina.go b/pasta/mina.go
index 4fe6b6a..c50bd4b 100644
--- a/pasta/mina.go
+++ b/pasta/mina.go
@@ -1,6 +1,9 @@
 package pasta
 
-import "encoding/json"
+import (
+	"encoding/json"
+	"errors"
+)
 
 type MinaMessage struct {
 	TransactionPrefix []Field  `json:"transactionPrefix"`
@@ -22,6 +25,13 @@ func NewMinaMessage(input []byte) (*MinaMessage, error) {
 	if err != nil {
 		return nil, err
 	}
+	for _, fields := range [][]Field{minaMessage.TransactionPrefix, minaMessage.TransactionSuffix, minaMessage.SpongeIV[:]} {
+		for _, f := range fields {
+			if !isFieldElement(f.ToBigEndianBytes()) {
+				return nil, errors.New("invalid message, field element out of range")
+			}
+		}
+	}
 	return &minaMessage, nil
 }
 
-- 
2.43.0


From a627bb1c123c6e2126d66b05d488686c7edbedb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 15/45] fix: Mina point services report failure and infinity

---
 eccset.go      | 14 ++++++++++----
 pasta/pasta.go | 13 ++++++++++++-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/eccset.go b/eccset.go
index ea7ea3e..07702b6 100644
--- a/eccset.go
+++ b/eccset.go
@@ -416,8 +416,8 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		return bls12_381.ScalarMultBaseAdd(pointin, scalar)
 		break
 	case ECC_CURVE_PASTA:
-		pointout, _ := pasta.PointMulBaseGAdd(pointin, scalar)
-		return pointout, false
+		pointout, err := pasta.PointMulBaseGAdd(pointin, scalar)
+		return pointout, err == pasta.ErrInfinity
 	default:
 		return nil, false
 	}
@@ -479,7 +479,10 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		return P[:], SUCCESS
 		break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointAdd(point1, point2)
+		pout, err := pasta.PointAdd(point1, point2)
+		if err != nil {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
@@ -539,7 +542,10 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	//	return P[:], SUCCESS
 	//	break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointMul(pointin, scalar)
+		pout, err := pasta.PointMul(pointin, scalar)
+		if err != nil {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
diff --git a/pasta/pasta.go b/pasta/pasta.go
index 331e14c..0454661 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -6,6 +6,9 @@ import (
 	"math/big"
 )
 
+// ErrInfinity : the result of a point operation is the point at infinity
+var ErrInfinity = errors.New("point at infinity")
+
 var fpModulus, _ = new(big.Int).SetString("40000000000000000000000000000000224698fc094cf91b992d30ed00000001", 16)
 var fqModulus, _ = new(big.Int).SetString("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001", 16)
 
@@ -160,6 +163,9 @@ func PointMulBaseGAdd(pointin, scalar []byte) ([]byte, error) {
 	}
 	GeneratePubkey(&q, BigEndianBytesToFqMontgomeryArray(scalar))
 	AffineAdd(&r, q, p)
+	if AffineIsZero(r) == 1 {
+		return nil, ErrInfinity
+	}
 	return r.ToBigEndianBytes(), nil
 }
 
@@ -178,6 +184,9 @@ func PointAdd(point1, point2 []byte) ([]byte, error) {
 		return nil, err
 	}
 	AffineAdd(&r, p, q)
+	if AffineIsZero(r) == 1 {
+		return nil, ErrInfinity
+	}
 	return r.ToBigEndianBytes(), nil
 }
 
@@ -193,7 +202,9 @@ func PointMul(pointin, scalar []byte) ([]byte, error) {
 		return nil, err
 	}
 	AffineScalarMul(&r, BigEndianBytesToFqMontgomeryArray(scalar), p)
-
+	if AffineIsZero(r) == 1 {
+		return nil, ErrInfinity
+	}
 	return r.ToBigEndianBytes(), nil
 }
 
-- 
2.43.0


From 781126d63bf1e09af1a4db26d54590e5c2d3ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 16/45] fix: ECDSA and SM2 verification validates the public
 key

---
 sm2_std.go |  3 +++
 utils.go   | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/sm2_std.go b/sm2_std.go
index c3d940b..4644b52 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1102,6 +1102,9 @@ func sm2_std_sign(priv *ecdsa.PrivateKey, hash, uid []byte) (r, s *big.Int, v by
 }
 
 func sm2_std_verify(pub *ecdsa.PublicKey, hash, uid []byte, r, s *big.Int) bool {
+	if !isCurvePoint(pub.Curve, pub.X, pub.Y) {
+		return false
+	}
 
 	var e *big.Int
 	if uid == nil {
diff --git a/utils.go b/utils.go
index a28b04e..faaae9a 100644
--- a/utils.go
+++ b/utils.go
@@ -48,6 +48,13 @@ func randFieldElement(c elliptic.Curve, rand io.Reader) (k *big.Int, err error)
 	return
 }
 
+// isCurvePoint reports whether (x, y) are the canonical affine coordinates of a
+// point on c, the point at infinity excluded.
+func isCurvePoint(c elliptic.Curve, x, y *big.Int) bool {
+	P := c.Params().P
+	return x.Cmp(P) < 0 && y.Cmp(P) < 0 && c.IsOnCurve(x, y)
+}
+
 type invertible interface {
 	Inverse(k *big.Int) *big.Int
 }
@@ -193,6 +200,9 @@ func verifyesdsa(pub *ecdsa.PublicKey, hash []byte, r, s *big.Int) bool {
 	if r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
 		return false
 	}
+	if !isCurvePoint(c, pub.X, pub.Y) {
+		return false
+	}
 	e := hashToInt(hash, c)
 	return verifyGeneric(pub, c, e, r, s)
 }
-- 
2.43.0


From 9354fca8162e8142c7650b255e4f46ca75b0908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 17/45] fix: PointDecompress rejects X without a point and
 unreduced X

---
 secp256k1.go | 7 ++++++-
 secp256r1.go | 7 ++++++-
 sm2_std.go   | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/secp256k1.go b/secp256k1.go
index b8a0149..e597626 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -252,6 +252,9 @@ func secp256k1_decompress(in []byte) ([]byte, error) {
 
 	c := secp256k1
 
+	if x.Cmp(c.P) >= 0 {
+		return nil, errors.New("incorrectly encoded X")
+	}
 	// y^2 = x^3 + b
 	// y   = sqrt(x^3 + b)
 	var y, x3b big.Int
@@ -259,7 +262,9 @@ func secp256k1_decompress(in []byte) ([]byte, error) {
 	x3b.Mul(&x3b, x)
 	x3b.Add(&x3b, c.B)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("no point with this X")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
diff --git a/secp256r1.go b/secp256r1.go
index c3aba71..ed79df7 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -48,6 +48,9 @@ func secp256r1_decompress(in []byte) ([]byte, error) {
 
 	c := secp256r1
 
+	if x.Cmp(c.P) >= 0 {
+		return nil, errors.New("incorrectly encoded X")
+	}
 	var y, x3b, xa big.Int
 	x3b.Mul(x, x)
 	x3b.Mul(&x3b, x)
@@ -56,7 +59,9 @@ func secp256r1_decompress(in []byte) ([]byte, error) {
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("no point with this X")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
diff --git a/sm2_std.go b/sm2_std.go
index 4644b52..e6dcc16 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1621,6 +1621,9 @@ func sm2_std_decompress(in []byte) ([]byte, error){
 
 	c := sm2_std
 
+	if x.Cmp(c.P) >= 0 {
+		return nil, errors.New("incorrectly encoded X")
+	}
 	var y, x3b, xa big.Int
 	x3b.Mul(x, x)
 	x3b.Mul(&x3b, x)
@@ -1629,7 +1632,9 @@ func sm2_std_decompress(in []byte) ([]byte, error){
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("no point with this X")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
-- 
2.43.0


From cf679e5879a01f8d6774472609522fae4777287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 18/45] fix: SM2 addition of equal points doubles

---
 sm2_std.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm2_std.go b/sm2_std.go
index e6dcc16..586390b 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -472,7 +472,8 @@ func sm2_stdPointAdd(x1, y1, z1, x2, y2, z2, x3, y3, z3 *sm2_stdFieldElement) {
 
 	if sm2_stdToBig(&u1).Cmp(sm2_stdToBig(&u2)) == 0 &&
 		sm2_stdToBig(&s1).Cmp(sm2_stdToBig(&s2)) == 0 {
-		sm2_stdPointDouble(x1, y1, z1, x1, y1, z1)
+		sm2_stdPointDouble(x3, y3, z3, x1, y1, z1)
+		return
 	}
 
 	sm2_stdSub(&h, &u2, &u1)
-- 
2.43.0


From d1fd5cf61f2936a8835f8d161c39ca1c286be5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 19/45] fix: ECDSA public-key recovery fails cleanly on bad
 input

---
 secp256k1.go | 7 +++++++
 secp256r1.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/secp256k1.go b/secp256k1.go
index e597626..48336b6 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -300,6 +300,9 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := secp256k1
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil {
+		return nil, errors.New("invalid data")
+	}
 
 	G.Curve = curve
 	G.X = curve.Gx
@@ -327,6 +330,9 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256K1)
+		if buf1 == nil {
+			continue
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
@@ -341,6 +347,7 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
diff --git a/secp256r1.go b/secp256r1.go
index ed79df7..b9b66e4 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -97,6 +97,9 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := secp256r1
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil {
+		return nil, errors.New("invalid data")
+	}
 	G.Curve = curve
 	G.X = curve.Gx
 	G.Y = curve.Gy
@@ -123,6 +126,9 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256R1)
+		if buf1 == nil {
+			continue
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
@@ -135,6 +141,7 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.Curve = curve
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
-- 
2.43.0


From ca146ef779dc6e1ef173ecb9bc8dd267fbe7eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 20/45] fix: SM2 public-key recovery

---
 sm2_std.go | 105 ++++++++++++++++++++---------------------------------
 1 file changed, 39 insertions(+), 66 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 586390b..af4d61f 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1657,75 +1657,48 @@ func sm2_std_decompress(in []byte) ([]byte, error){
 
 func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 
-	if sig == nil || msg == nil || len(sig) != 65 || len(msg) != 32 {
+	if sig == nil || msg == nil || len(sig) != 65 || len(msg) != 32 || sig[64] > 1 {
 		return nil, errors.New("invalid data")
 	}
 
-	buf2 := make([]byte, 33)
-	hash := make([]byte, 32)
-	s := new(big.Int)
-	R := new(ecdsa.PublicKey)
-	G := new(ecdsa.PublicKey)
-
-	copy(hash, msg)
-	copy(buf2[1:], sig[:32])
-
 	curve := sm2_std
+	r := new(big.Int).SetBytes(sig[:32])
+	s := new(big.Int).SetBytes(sig[32:64])
 
-	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
-	G.Curve = curve
-	G.X = curve.Gx
-	G.Y = curve.Gy
-
-	for k := 0; k < 2; k ++ {
-		if k == 0 {
-			buf2[0] = 0x02
-		}
-
-		if k == 1 {
-			buf2[0] = 0x03
-		}
-
-		if k == 0 {
-			if sig[64] == 1 {
-				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
-			}
-		}
-
-		if k == 1 {
-			if sig[64] == 0 {
-				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
-			}
-		}
-
-		buf1 := PointDecompress(buf2, ECC_CURVE_SM2_STANDARD)
-
-		R.Curve = curve
-		R.X = new(big.Int).SetBytes(buf1[1:33])
-		R.Y = new(big.Int).SetBytes(buf1[33:])
-
-		point1 := new(ecdsa.PublicKey)
-		point1.Curve = curve
-		point1.X, point1.Y = curve.ScalarMult(R.X, R.Y, s.Bytes())
-
-		point2 := new(ecdsa.PublicKey)
-		point2.Curve = curve
-		point2.X, point2.Y = curve.ScalarBaseMult(hash)
-
-		point2.Y = point2.Y.Sub(curve.P, point2.Y)
-
-		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
-		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
-
-		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
-			pubkey := make([]byte, 64)
-			x := point2.X.Bytes()
-			y := point2.Y.Bytes()
-			copy(pubkey[32-len(x):32], x)
-			copy(pubkey[64-len(y):], y)
-
-			return pubkey, nil
-		}
+	// R = k * G = s * G + (r + s) * P, and its X is r - e
+	x := new(big.Int).Sub(r, new(big.Int).SetBytes(msg))
+	x.Mod(x, curve.N)
+	t := new(big.Int).Add(r, s)
+	t_inv := t.ModInverse(t, curve.N)
+	if t_inv == nil {
+		return nil, errors.New("invalid data")
 	}
-	return nil, errors.New("failed to decompress")
-}
\ No newline at end of file
+
+	buf := make([]byte, 33)
+	buf[0] = 0x02 + sig[64]
+	xBytes := x.Bytes()
+	copy(buf[33-len(xBytes):], xBytes)
+	point := PointDecompress(buf, ECC_CURVE_SM2_STANDARD)
+	if point == nil {
+		return nil, errors.New("failed to decompress")
+	}
+
+	// P = (r + s)^-1 * (R - s * G)
+	pub := new(ecdsa.PublicKey)
+	pub.Curve = curve
+	x1, y1 := curve.ScalarBaseMult(sig[32:64])
+	y1.Sub(curve.P, y1)
+	y1.Mod(y1, curve.P)
+	x1, y1 = curve.Add(new(big.Int).SetBytes(point[1:33]), new(big.Int).SetBytes(point[33:]), x1, y1)
+	pub.X, pub.Y = curve.ScalarMult(x1, y1, t_inv.Bytes())
+	if !sm2_std_verify(pub, msg, nil, r, s) {
+		return nil, errors.New("failed to recover")
+	}
+
+	pubkey := make([]byte, 64)
+	xBytes = pub.X.Bytes()
+	copy(pubkey[32-len(xBytes):32], xBytes)
+	yBytes := pub.Y.Bytes()
+	copy(pubkey[64-len(yBytes):], yBytes)
+	return pubkey, nil
+}
-- 
2.43.0


From 21a15661ffeef3ccaa80f307beba9be6ffaa92ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 21/45] fix: Ed25519 point services reject what is no point

---
 eccset.go        |  6 ++++++
 eddsa/ed25519.go | 11 ++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/eccset.go b/eccset.go
index 07702b6..d55fcc6 100644
--- a/eccset.go
+++ b/eccset.go
@@ -403,6 +403,9 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		return MulBaseG_Add(pointin, scalar, "sm2_std")
 		break
 	case ECC_CURVE_ED25519:
+		if !eddsa.IsPoint(pointin) {
+			return nil, false
+		}
 		var point1, s, point2 [32]byte
 		copy(point1[:], pointin)
 		copy(s[:], scalar)
@@ -469,6 +472,9 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		return point, SUCCESS
 		break
 	case ECC_CURVE_ED25519:
+		if !eddsa.IsPoint(point1) || !eddsa.IsPoint(point2) {
+			return nil, FAILURE
+		}
 		var P1, P2, P [32]byte
 		copy(P1[:], point1)
 		copy(P2[:], point2)
diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index eb9b1b8..b34bebe 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -167,6 +167,14 @@ func feIsOne(f edwards25519.FieldElement) bool {
 	return true
 }
 
+// IsPoint reports whether point decodes to a point of the curve.
+func IsPoint(point []byte) bool {
+	var P edwards25519.ExtendedGroupElement
+	var p [32]byte
+	copy(p[:], point)
+	return len(point) == 32 && P.FromBytes(&p)
+}
+
 func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 	var (
 		P1    edwards25519.ExtendedGroupElement   //p3
@@ -178,7 +186,8 @@ func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 	)
 	P1.FromBytes(point1)
 	one[0] = 1
-	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, scalar)
+	s := reduceScalar(scalar[:])
+	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, &s)
 
 	edwards25519.FeInvert(&recip, &R.Z)
 	edwards25519.FeMul(&x, &R.X, &recip)
-- 
2.43.0


From 06111ce4f1db60df25e381c7d76fb7576edf26d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 22/45] fix: point services validate their points

---
 eccset.go | 27 +++++++++++++++------------
 ecdsa.go  | 29 ++++++++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/eccset.go b/eccset.go
index d55fcc6..f954956 100644
--- a/eccset.go
+++ b/eccset.go
@@ -434,16 +434,18 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 	} else {
 		if len(point1) == 33 {
-			point1 = PointDecompress(point1, typeChoose)[1:]
-		} else if len(point1) == 65 {
+			point1 = PointDecompress(point1, typeChoose)
+		}
+		if len(point1) == 65 && point1[0] == 0x04 {
 			point1 = point1[1:]
 		} else if len(point1) != 64 {
 			return nil, FAILURE
 		}
 
 		if len(point2) == 33 {
-			point2 = PointDecompress(point2, typeChoose)[1:]
-		} else if len(point2) == 65 {
+			point2 = PointDecompress(point2, typeChoose)
+		}
+		if len(point2) == 65 && point2[0] == 0x04 {
 			point2 = point2[1:]
 		} else if len(point2) != 64 {
 			return nil, FAILURE
@@ -452,21 +454,21 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Add(point1, point2, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Add(point1, point2, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Add(point1, point2, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
@@ -504,8 +506,9 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 	} else {
 		if len(pointin) == 33 {
-			pointin = PointDecompress(pointin, typeChoose)[1:]
-		} else if len(pointin) == 65 {
+			pointin = PointDecompress(pointin, typeChoose)
+		}
+		if len(pointin) == 65 && pointin[0] == 0x04 {
 			pointin = pointin[1:]
 		} else if len(pointin) != 64 {
 			return nil, FAILURE
@@ -518,21 +521,21 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Mul(pointin, scalar, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Mul(pointin, scalar, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Mul(pointin, scalar, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
diff --git a/ecdsa.go b/ecdsa.go
index 346a024..db1cb04 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -287,7 +287,28 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 	return sm2_std_decrypt(priv, cipher)
 }
 
+// isPointOf reports whether point is X || Y of a point on the named curve.
+func isPointOf(point []byte, name string) bool {
+	if len(point) != 64 {
+		return false
+	}
+	x := new(big.Int).SetBytes(point[:32])
+	y := new(big.Int).SetBytes(point[32:])
+	switch name {
+	case "secp256k1":
+		return isCurvePoint(secp256k1, x, y)
+	case "secp256r1":
+		return isCurvePoint(secp256r1, x, y)
+	case "sm2_std":
+		return isCurvePoint(sm2_std, x, y)
+	}
+	return false
+}
+
 func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
+	if !isPointOf(pointin, name) {
+		return nil, false
+	}
 
 	var curve *curveParam
 	var k1curve *secp256k1Curve
@@ -354,6 +375,9 @@ func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity
 }
 
 func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
+	if !isPointOf(point1, name) || !isPointOf(point2, name) {
+		return nil, false
+	}
 	var curve *curveParam
 	var k1curve *secp256k1Curve
 	var sm2Curve *sm2_stdCurve
@@ -381,7 +405,7 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 		return nil, false
 	}
 
-	if x_big.Cmp(big.NewInt(0)) == 0 && x_big.Cmp(big.NewInt(0)) == 0 {
+	if x_big.Cmp(big.NewInt(0)) == 0 && y_big.Cmp(big.NewInt(0)) == 0 {
 		return nil, true
 	}
 
@@ -400,6 +424,9 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 }
 
 func Mul(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
+	if !isPointOf(pointin, name) {
+		return nil, false
+	}
 
 	var curve *curveParam
 	var k1curve *secp256k1Curve
-- 
2.43.0


From bc776e12fa39e36e1254b294f6ee5a65d627361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 23/45] fix: SM2 encryption and decryption report every failure

---
 eccset.go  |  6 ++++++
 ecdsa.go   |  6 +++++-
 sm2_std.go | 11 +++++++++--
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/eccset.go b/eccset.go
index f954956..74f6712 100644
--- a/eccset.go
+++ b/eccset.go
@@ -218,6 +218,9 @@ func Encryption(pubkey []byte, plain []byte, typeChoose uint32) (cipher []byte,
 		return nil, ECC_WRONG_TYPE
 		break
 	}
+	if err != nil {
+		return nil, FAILURE
+	}
 
 	ret = SUCCESS
 	return
@@ -245,6 +248,9 @@ func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte,
 		return nil, ECC_WRONG_TYPE
 		break
 	}
+	if err != nil {
+		return nil, FAILURE
+	}
 
 	ret = SUCCESS
 	return
diff --git a/ecdsa.go b/ecdsa.go
index db1cb04..68fde7b 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -252,6 +252,10 @@ func encrypt(pubkey []byte, plain []byte, name string) ([]byte, error) {
 	pubk.X = new(big.Int).SetBytes(pubkey[:32])
 	pubk.Y = new(big.Int).SetBytes(pubkey[32:])
 
+	if !isCurvePoint(sm2_std, pubk.X, pubk.Y) {
+		return nil, ErrPublicKeyIllegal
+	}
+
 	return sm2_std_encrypt(pubk, plain)
 }
 
@@ -276,7 +280,7 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 	priv.D = privateKeyBig
 	sm2Curve = sm2_std
 
-	if privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
+	if privateKeyBig.Sign() == 0 || privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
 		return nil, ErrPrivateKeyIllegal
 	}
 
diff --git a/sm2_std.go b/sm2_std.go
index af4d61f..f85137e 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1186,7 +1186,7 @@ func kdf(x, y []byte, length int) ([]byte, bool) {
 
 func sm2_std_encrypt(pub *ecdsa.PublicKey, data []byte) ([]byte, error) {
 	length := len(data)
-	for {
+	for retry := 0; retry < 64; retry++ {
 		c := []byte{}
 		curve := pub.Curve
 		k, err := randFieldElement(curve, rand.Reader)
@@ -1228,14 +1228,21 @@ func sm2_std_encrypt(pub *ecdsa.PublicKey, data []byte) ([]byte, error) {
 		}
 		return append([]byte{0x04}, c...), nil
 	}
+	return nil, errors.New("Encrypt: random source returns no usable nonce")
 }
 
 func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
+	if len(data) < 98 || data[0] != 0x04 {
+		return nil, ErrMessageIllegal
+	}
 	data = data[1:]
 	length := len(data) - 96
 	curve := priv.Curve
 	x := new(big.Int).SetBytes(data[:32])
 	y := new(big.Int).SetBytes(data[32:64])
+	if !isCurvePoint(curve, x, y) {
+		return nil, ErrMessageIllegal
+	}
 	x2, y2 := curve.ScalarMult(x, y, priv.D.Bytes())
 
 	x2Buf := make([]byte, 32)
@@ -1259,7 +1266,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	tm = append(tm, y2Buf...)
 	h := sm3.Sm3Sum(tm)
 	if bytes.Compare(h, data[64:96]) != 0 {
-		return c, errors.New("Decrypt: failed to decrypt")
+		return nil, errors.New("Decrypt: failed to decrypt")
 	}
 	return c, nil
 }
-- 
2.43.0


From 3c4cdc999cdca866986e589b161b5bf8bb8a7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 24/45] fix: SM2 key agreement checks its inputs and results

---
 eccset.go  | 12 +++++------
 sm2_std.go | 58 ++++++++++++++++++++++++++++++++++++------------------
 2 files changed, 45 insertions(+), 25 deletions(-)

diff --git a/eccset.go b/eccset.go
index 74f6712..dd443d5 100644
--- a/eccset.go
+++ b/eccset.go
@@ -258,6 +258,9 @@ func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte,
 
 ///////////////////////////////////////////////////////////密钥协商////////////////////////////////////////////////////////
 func KeyAgreement_initiator_step1(typeChoose uint32) (tmpPrikeyInitiator, tmpPubkeyInitiator []byte) {
+	if typeChoose != ECC_CURVE_SM2_STANDARD {
+		return nil, nil
+	}
 	tmpPrikeyInitiator, tmpPubkeyInitiator = sm2_std_ka_initiaor_step1()
 	return
 }
@@ -281,8 +284,7 @@ func KeyAgreement_initiator_step2(IDinitiator []byte,
 	var err error
 	key, Sout, err = sm2_std_ka_initiator_step2(IDinitiator, IDresponder, prikeyInitiator, pubkeyInitiator, pubkeyResponder, tmpPrikeyInitiator, tmpPubkeyInitiator, tmpPubkeyResponder, Sin, keylen)
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -308,8 +310,7 @@ func KeyAgreement_responder_step1(IDinitiator []byte,
 	key, tmpPubkeyResponder, Sinner, Souter, err = sm2_std_ka_responder_step1(IDinitiator, IDresponder, prikeyResponder, pubkeyResponder, pubkeyInitiator, tmpPubkeyInitiator, nil, keylen)
 
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -336,8 +337,7 @@ func KeyAgreement_responder_ElGamal_step1(IDinitiator []byte,
 	key, tmpPubkeyResponder, Sinner, Souter, err = sm2_std_ka_responder_step1(IDinitiator, IDresponder, prikeyResponder, pubkeyResponder, pubkeyInitiator, tmpPubkeyInitiator, random, keylen)
 
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
diff --git a/sm2_std.go b/sm2_std.go
index f85137e..080dd1c 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -112,6 +112,9 @@ func (curve sm2_stdCurve) ScalarMult(x1, y1 *big.Int, k []byte) (*big.Int, *big.
 	var scalarReversed [32]byte
 	var X, Y, Z, X1, Y1 sm2_stdFieldElement
 
+	if x1.Sign() == 0 && y1.Sign() == 0 {
+		return new(big.Int), new(big.Int)
+	}
 	sm2_stdFromBig(&X1, x1)
 	sm2_stdFromBig(&Y1, y1)
 	sm2_stdGetScalar(&scalarReversed, k)
@@ -1271,7 +1274,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	return c, nil
 }
 
-func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint16) (key []byte) {
+func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint32) (key []byte) {
 
 	x := make([]byte, 32)
 	y := make([]byte, 32)
@@ -1286,9 +1289,9 @@ func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit
 	var hlen1 uint32
 
 	if keyLengthbit % 256 == 0 {
-		hlen1 = uint32(keyLengthbit / 256)
+		hlen1 = keyLengthbit / 256
 	} else {
-		hlen1 = uint32(keyLengthbit / 256) + 1
+		hlen1 = keyLengthbit / 256 + 1
 	}
 
 	for i := uint32(1); i <= hlen1; i ++ {
@@ -1347,14 +1350,19 @@ func sm2_std_ka_initiaor_step1() (tmpPrikeyInitiator, tmpPubkeyInitiator []byte)
 	tmpPrikeyInitiator = make([]byte, 32)
 
 	random := make([]byte, 32)
-	rand.Read(random)
+	if _, err := rand.Read(random); err != nil {
+		return nil, nil
+	}
 	randbig := new(big.Int).SetBytes(random)
 	randbig.Mod(randbig, sm2_std.N)
 	random = randbig.Bytes()
 	copy(tmpPrikeyInitiator[32-len(random):], random)
-	tmpPubkeyInitiator, _ = genPublicKey(tmpPrikeyInitiator, "sm2_std")
+	tmpPubkeyInitiator, err := genPublicKey(tmpPrikeyInitiator, "sm2_std")
+	if err != nil {
+		return nil, nil
+	}
 
-	return
+	return tmpPrikeyInitiator, tmpPubkeyInitiator
 }
 
 func sm2_std_ka_initiator_step2(IDinitiator []byte,
@@ -1373,15 +1381,16 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 		return
 	}
 
-	var x, y big.Int
-	x.SetBytes(tmpPubkeyResponder[:32])
-	y.SetBytes(tmpPubkeyResponder[32:])
-
-	if !sm2_std.IsOnCurve(&x, &y) {
+	if !isPointOf(tmpPubkeyResponder, "sm2_std") {
 		err = errors.New("invalid responder's tmp public key")
 		return
 	}
 
+	if !isPointOf(pubkeyInitiator, "sm2_std") || !isPointOf(pubkeyResponder, "sm2_std") {
+		err = errors.New("invalid public key")
+		return
+	}
+
 	if tmpPubkeyInitiator == nil || len(tmpPubkeyInitiator) != 64 {
 		err = errors.New("invalid initiator's tmp public key")
 		return
@@ -1419,6 +1428,10 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
+	if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+		err = errors.New("shared point is the point at infinity")
+		return
+	}
 
 	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
 		err = errors.New("invalid initiator public key")
@@ -1452,7 +1465,7 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 		return nil, nil, err
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	s_check := ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 
@@ -1486,20 +1499,23 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 		return
 	}
 
-	var x, y big.Int
-	x.SetBytes(tmpPubkeyInitiator[:32])
-	y.SetBytes(tmpPubkeyInitiator[32:])
-
-	if !sm2_std.IsOnCurve(&x, &y) {
+	if !isPointOf(tmpPubkeyInitiator, "sm2_std") {
 		err = errors.New("invalid initiator's tmp public key")
 		return
 	}
 
+	if !isPointOf(pubkeyInitiator, "sm2_std") || !isPointOf(pubkeyResponder, "sm2_std") {
+		err = errors.New("invalid public key")
+		return
+	}
+
 	tmpPriResponder := make([]byte, 32)
 
 	if random == nil {
 		tmp := make([]byte, 32)
-		rand.Read(tmp)
+		if _, err = rand.Read(tmp); err != nil {
+			return
+		}
 		randbig := new(big.Int).SetBytes(tmp)
 		randbig.Mod(randbig, sm2_std.N)
 		tmp = randbig.Bytes()
@@ -1550,6 +1566,10 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
+	if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+		err = errors.New("shared point is the point at infinity")
+		return
+	}
 
 	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
 		err = errors.New("invalid initiator public key")
@@ -1583,7 +1603,7 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 		return
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	Sinner = ka_check(0x03, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 	Souter = ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
-- 
2.43.0


From 715249fb53681eb7b083d79541d937bd7119b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 25/45] fix: BLAKE2s digest length is checked

---
 hashset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashset.go b/hashset.go
index 12890fe..6d8547a 100644
--- a/hashset.go
+++ b/hashset.go
@@ -224,6 +224,9 @@ func Hash(data []byte, digestLen uint16, typeChoose uint32) []byte {
 		break
 
 	case HASH_ALG_BLAKE2S:
+		if digestLen > blake2s.Size {
+			return nil
+		}
 		h := blake2s.NewMAC(uint8(digestLen), nil)
 
 		_, err := h.Write(data)
-- 
2.43.0


From f320e38a3691e446c1e773219f9aa39533e51ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 26/45] fix: blake2s.New leaves the caller's Config alone

---
 blake2s/blake2s.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blake2s/blake2s.go b/blake2s/blake2s.go
index ad22625..6e56595 100644
--- a/blake2s/blake2s.go
+++ b/blake2s/blake2s.go
@@ -96,7 +96,9 @@ func New(c *Config) (hash.Hash, error) {
 		c = defaultConfig
 	} else {
 		if c.Size == 0 {
-			c.Size = Size
+			sized := *c
+			sized.Size = Size
+			c = &sized
 		}
 		if err := verifyConfig(c); err != nil {
 			return nil, err
-- 
2.43.0


From 7f48007c2379aacc23d8dbf08f0c0162feea1ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 27/45] fix: BLS verification does not write behind the public
 key

---
 eccset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eccset.go b/eccset.go
index dd443d5..66240c2 100644
--- a/eccset.go
+++ b/eccset.go
@@ -178,7 +178,7 @@ func Verify(pubkey []byte, ID []byte, message []byte, signature []byte, typeChoo
 		pass = bls12_381.Verify(pubkey, message, signature)
 		break
 	case ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG:
-		message = append(pubkey, message...)
+		message = append(append([]byte{}, pubkey...), message...)
 		message = append([]byte(AUG_SCHEME_DST), message...)
 		pass = bls12_381.Verify(pubkey, message, signature)
 		break
-- 
2.43.0


From 76162a2d6040765799bd948ac65b49e0e47b9b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 28/45] fix: BLS verification rejects invalid public keys

---
 bls12_381/bls12-381.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index df04c7e..792b8a9 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -56,8 +56,11 @@ func Verify(publicKey, message, signature []byte) bool {
 		return false
 	}
 	pk := NullOwcryptG1()
-	pk.UnmarshalBinary(publicKey)
-	err := scheme.Verify(pk, message, signature)
+	err := pk.UnmarshalBinary(publicKey)
+	if err != nil || pk.Equal(pk.Null()) {
+		return false
+	}
+	err = scheme.Verify(pk, message, signature)
 
 	if err != nil {
 		return false
-- 
2.43.0


From 805509ed50672b16606687e2d7dac3329e5dec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 29/45] fix: BLS keys and points are checked

---
 bls12_381/bls12-381.go | 24 ++++++++++++++++++++----
 eccset.go              |  5 ++++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index 792b8a9..65d9639 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -18,11 +18,15 @@ func isScalarLegal(scalar []byte) bool {
 	return true
 }
 
+func isPrivateKeyLegal(privateKey []byte) bool {
+	return isScalarLegal(privateKey) && new(big.Int).SetBytes(privateKey).Sign() != 0
+}
+
 func GenPublicKey(privateKey []byte) ([]byte, error) {
 	if len(privateKey) != 32 {
 		return nil, errors.New("invalid private key length")
 	}
-	if !isScalarLegal(privateKey) {
+	if !isPrivateKeyLegal(privateKey) {
 		return nil, errors.New("invalid private key data")
 	}
 	publicKey := g1pubs.PrivToPub(newSK(privateKey))
@@ -43,6 +47,9 @@ func Sign(privateKey, message []byte) ([]byte, error) {
 	if len(privateKey) != 32 {
 		return nil, errors.New("invalid private key lenth!")
 	}
+	if !isPrivateKeyLegal(privateKey) {
+		return nil, errors.New("invalid private key data")
+	}
 	prikey := NewScalar(privateKey)
 
 	return scheme.Sign(prikey, message)
@@ -101,15 +108,24 @@ func scalarMulG(scalar []byte) (*g1pubs.PublicKey, error) {
 
 func ScalarMultBaseAdd(pointin, scalar []byte) ([]byte, bool) {
 
-	pin, _ := newPK(pointin)
+	if len(pointin) != 48 || NullOwcryptG1().UnmarshalBinary(pointin) != nil {
+		return nil, false
+	}
+	pin, err := newPK(pointin)
+	if err != nil {
+		return nil, false
+	}
 
-	pScalar, _ := scalarMulG(scalar)
+	pScalar, err := scalarMulG(scalar)
+	if err != nil {
+		return nil, false
+	}
 
 	pout := g1pubs.NewPublicKeyFromG1(pin.GetPoint().Add(pScalar.GetPoint()).ToAffine())
 
 	poutBytes := pout.Serialize()
 
-	if new(big.Int).SetBytes(poutBytes[:]).Cmp(big.NewInt(0)) == 0 {
+	if poutBytes[0]&0x40 != 0 {
 		return nil, true
 	}
 	return poutBytes[:], false
diff --git a/eccset.go b/eccset.go
index 66240c2..e1e2444 100644
--- a/eccset.go
+++ b/eccset.go
@@ -98,7 +98,10 @@ func Signature(prikey []byte, ID []byte, message []byte, typeChoose uint32) (sig
 		signature, err = bls12_381.Sign(prikey, message)
 		break
 	case ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG:
-		pubkey, _ := GenPubkey(prikey, typeChoose)
+		pubkey, pubret := GenPubkey(prikey, typeChoose)
+		if pubret != SUCCESS {
+			return nil, 0, pubret
+		}
 		message = append(pubkey, message...)
 		message = append([]byte(AUG_SCHEME_DST), message...)
 		signature, err = bls12_381.Sign(prikey, message)
-- 
2.43.0


From 0fb53711d79066af7de6371212b7eee34bd5e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 30/45] fix: BLS aggregation rejects over-long contributions

---
 bls12_381/bls12-381.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index 65d9639..441be5c 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -79,6 +79,11 @@ func AggregateSignatures(sigs ...[]byte) ([]byte, error) {
 	pairing := NewBLS12381Suite()
 	scheme := sig.NewSchemeOnG2(pairing)
 
+	for _, s := range sigs {
+		if len(s) != 96 {
+			return nil, errors.New("invalid signature length")
+		}
+	}
 	return scheme.AggregateSignatures(sigs...)
 }
 
-- 
2.43.0


From 5f53a97acd773e33713dffdcb31b98efa40e9a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 31/45] fix: SM2 field reduction borrows only when it must

---
 sm2_std.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 080dd1c..9c8eb50 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -826,7 +826,7 @@ func sm2_stdReduceDegree(a *sm2_stdFieldElement, b *sm2_stdLargeFieldElement) {
 				tmp[i+7] -= set7
 				tmp[i+7] -= (x << 24) & bottom28Bits
 				tmp[i+8] += (x << 28) & bottom29Bits
-				if tmp[i+8] < 0x20000000 {
+				if tmp[i+8] < 1+(x>>4) {
 					tmp[i+8] += 0x20000000 & xMask
 					tmp[i+8] -= 1
 					tmp[i+8] -= x >> 4
@@ -840,7 +840,7 @@ func sm2_stdReduceDegree(a *sm2_stdFieldElement, b *sm2_stdLargeFieldElement) {
 				tmp[i+7] -= set7
 				tmp[i+7] -= (x << 24) & bottom28Bits
 				tmp[i+8] += (x << 28) & bottom29Bits
-				if tmp[i+8] < 0x20000000 {
+				if tmp[i+8] < x>>4 {
 					tmp[i+8] += 0x20000000 & xMask
 					tmp[i+8] -= x >> 4
 					tmp[i+9] += ((x >> 1) - 1) & xMask
-- 
2.43.0


From b468331595ab3196c00914ca71cfda201bd2d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:14 +0000
Subject: [PATCH 32/45] fix: SM2 scalars with leading zero bytes beyond 32 are
 accepted

---
 sm2_std.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 9c8eb50..f13a3e2 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -196,15 +196,11 @@ var sm2_stdPrecomputed = [9 * 2 * 15 * 2]uint32{
 }
 
 func sm2_stdGetScalar(b *[32]byte, a []byte) {
-	var scalarBytes []byte
-
 	n := new(big.Int).SetBytes(a)
 	if n.Cmp(sm2_std.N) >= 0 {
 		n.Mod(n, sm2_std.N)
-		scalarBytes = n.Bytes()
-	} else {
-		scalarBytes = a
 	}
+	scalarBytes := n.Bytes()
 	for i, v := range scalarBytes {
 		b[len(scalarBytes)-(1+i)] = v
 	}
-- 
2.43.0


From 1173dddf34f16e2beef7657cf24a12d6a3ff3cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 33/45] fix: BLS signatures need a message with a ciphersuite
 tag

---
 bls12_381/bls12-381.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index 441be5c..a917efd 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -1,6 +1,7 @@
 package bls12_381
 
 import (
+	"bytes"
 	"errors"
 	sig "github.com/drand/kyber/sign/bls"
 	"github.com/phoreproject/bls/g1pubs"
@@ -41,6 +42,12 @@ func newSK(skBytes []byte) *g1pubs.SecretKey {
 	return g1pubs.DeserializeSecretKey(sk)
 }
 
+// hasScheme reports whether message starts with the tag of a ciphersuite. Without
+// one it hashes to no point, and every signature over it would be the same.
+func hasScheme(message []byte) bool {
+	return bytes.HasPrefix(message, []byte(basic_scheme_dst)) || bytes.HasPrefix(message, []byte(aug_scheme_dst))
+}
+
 func Sign(privateKey, message []byte) ([]byte, error) {
 	pairing := NewBLS12381Suite()
 	scheme := sig.NewSchemeOnG2(pairing)
@@ -50,6 +57,9 @@ func Sign(privateKey, message []byte) ([]byte, error) {
 	if !isPrivateKeyLegal(privateKey) {
 		return nil, errors.New("invalid private key data")
 	}
+	if !hasScheme(message) {
+		return nil, errors.New("invalid message, no ciphersuite tag")
+	}
 	prikey := NewScalar(privateKey)
 
 	return scheme.Sign(prikey, message)
@@ -59,7 +69,7 @@ func Verify(publicKey, message, signature []byte) bool {
 	pairing := NewBLS12381Suite()
 	scheme := sig.NewSchemeOnG2(pairing)
 
-	if len(publicKey) != 48 || len(message) == 0 || len(signature) != 96 {
+	if len(publicKey) != 48 || !hasScheme(message) || len(signature) != 96 {
 		return false
 	}
 	pk := NullOwcryptG1()
-- 
2.43.0


From 5b98b57ebc361ed48a9c43173ffb0baa53108c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:15 +0000
Subject: [PATCH 34/45] fix: pairing does not modify the points it is given

---
 bls12_381/bls/pairing.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bls12_381/bls/pairing.go b/bls12_381/bls/pairing.go
index 97adc55..3982f6c 100644
--- a/bls12_381/bls/pairing.go
+++ b/bls12_381/bls/pairing.go
@@ -52,7 +52,7 @@ func newEngineTemp() pairingEngineTemp {
 
 // AddPair adds a g1, g2 point pair to pairing engine
 func (e *Engine) AddPair(g1 *PointG1, g2 *PointG2) *Engine {
-	p := newPair(g1, g2)
+	p := newPair(e.G1.New().Set(g1), e.G2.New().Set(g2))
 	if !e.isZero(p) {
 		e.affine(p)
 		e.pairs = append(e.pairs, p)
@@ -62,8 +62,8 @@ func (e *Engine) AddPair(g1 *PointG1, g2 *PointG2) *Engine {
 
 // AddPairInv adds a G1, G2 point pair to pairing engine. G1 point is negated.
 func (e *Engine) AddPairInv(g1 *PointG1, g2 *PointG2) *Engine {
-	e.G1.Neg(g1, g1)
-	e.AddPair(g1, g2)
+	ng1 := e.G1.Neg(e.G1.New(), g1)
+	e.AddPair(ng1, g2)
 	return e
 }
 
-- 
2.43.0


From 6049a6ed0abfc2b20919dd873f6e4316f7bceef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 35/45] fix: encoding a point does not write to it

---
 bls12_381/bls/g1.go | 6 +++---
 bls12_381/bls/g2.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bls12_381/bls/g1.go b/bls12_381/bls/g1.go
index a273890..954eea0 100644
--- a/bls12_381/bls/g1.go
+++ b/bls12_381/bls/g1.go
@@ -101,7 +101,7 @@ func (g *G1) ToUncompressed(p *PointG1) []byte {
 		out[0] |= 1 << 6
 		return out
 	}
-	g.Affine(p)
+	p = g.Affine(g.New().Set(p))
 	copy(out[:48], toBytes(&p[0]))
 	copy(out[48:], toBytes(&p[1]))
 	return out
@@ -160,7 +160,7 @@ func (g *G1) FromCompressed(compressed []byte) (*PointG1, error) {
 // https://docs.rs/bls12_381/0.1.1/bls12_381/notes/serialization/index.html
 func (g *G1) ToCompressed(p *PointG1) []byte {
 	out := make([]byte, 48)
-	g.Affine(p)
+	p = g.Affine(g.New().Set(p))
 	if g.IsZero(p) {
 		out[0] |= 1 << 6
 	} else {
@@ -223,7 +223,7 @@ func (g *G1) ToBytes(p *PointG1) []byte {
 	if g.IsZero(p) {
 		return out
 	}
-	g.Affine(p)
+	p = g.Affine(g.New().Set(p))
 	copy(out[:48], toBytes(&p[0]))
 	copy(out[48:], toBytes(&p[1]))
 	return out
diff --git a/bls12_381/bls/g2.go b/bls12_381/bls/g2.go
index 99feffd..a58df91 100644
--- a/bls12_381/bls/g2.go
+++ b/bls12_381/bls/g2.go
@@ -105,7 +105,7 @@ func (g *G2) FromUncompressed(uncompressed []byte) (*PointG2, error) {
 // https://docs.rs/bls12_381/0.1.1/bls12_381/notes/serialization/index.html
 func (g *G2) ToUncompressed(p *PointG2) []byte {
 	out := make([]byte, 192)
-	g.Affine(p)
+	p = g.Affine(g.New().Set(p))
 	if g.IsZero(p) {
 		out[0] |= 1 << 6
 		return out
@@ -168,7 +168,7 @@ func (g *G2) FromCompressed(compressed []byte) (*PointG2, error) {
 // https://docs.rs/bls12_381/0.1.1/bls12_381/notes/serialization/index.html
 func (g *G2) ToCompressed(p *PointG2) []byte {
 	out := make([]byte, 96)
-	g.Affine(p)
+	p = g.Affine(g.New().Set(p))
 	if g.IsZero(p) {
 		out[0] |= 1 << 6
 	} else {
@@ -231,7 +231,7 @@ func (g *G2) ToBytes(p *PointG2) []byte {
 	if g.IsZero(p) {
 		return out
 	}
-	g.Affine(p)
+	p = g.Affine(g.New().Set(p))
 	copy(out[:96], g.f.toBytes(&p[0]))
 	copy(out[96:], g.f.toBytes(&p[1]))
 	return out
-- 
2.43.0


From 324d0f4a7b394a0b9f1998efe71356aea5bd43ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 36/45] fix: a refused encoding leaves the point as it was

---
 bls12_381/g1.go | 9 ++++++---
 bls12_381/g2.go | 9 ++++++---
 bls12_381/gt.go | 5 ++++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/bls12_381/g1.go b/bls12_381/g1.go
index 7824caa..c865d43 100644
--- a/bls12_381/g1.go
+++ b/bls12_381/g1.go
@@ -97,9 +97,12 @@ func (k *OwcryptG1) MarshalBinary() ([]byte, error) {
 }
 
 func (k *OwcryptG1) UnmarshalBinary(buff []byte) error {
-	var err error
-	k.p, err = bls.NewG1().FromCompressed(buff)
-	return err
+	p, err := bls.NewG1().FromCompressed(buff)
+	if err != nil {
+		return err
+	}
+	k.p = p
+	return nil
 }
 
 func (k *OwcryptG1) MarshalTo(w io.Writer) (int, error) {
diff --git a/bls12_381/g2.go b/bls12_381/g2.go
index c445d50..88417f8 100644
--- a/bls12_381/g2.go
+++ b/bls12_381/g2.go
@@ -103,9 +103,12 @@ func (k *OwcryptG2) MarshalBinary() ([]byte, error) {
 }
 
 func (k *OwcryptG2) UnmarshalBinary(buff []byte) error {
-	var err error
-	k.p, err = bls.NewG2(nil).FromCompressed(buff)
-	return err
+	p, err := bls.NewG2(nil).FromCompressed(buff)
+	if err != nil {
+		return err
+	}
+	k.p = p
+	return nil
 }
 
 func (k *OwcryptG2) MarshalTo(w io.Writer) (int, error) {
diff --git a/bls12_381/gt.go b/bls12_381/gt.go
index 5d3b11a..522fe1f 100644
--- a/bls12_381/gt.go
+++ b/bls12_381/gt.go
@@ -89,8 +89,11 @@ func (k *OwcryptGT) MarshalTo(w io.Writer) (int, error) {
 
 func (k *OwcryptGT) UnmarshalBinary(buf []byte) error {
 	fe12, err := bls.NewGT().FromBytes(buf)
+	if err != nil {
+		return err
+	}
 	k.f = fe12
-	return err
+	return nil
 }
 
 func (k *OwcryptGT) UnmarshalFrom(r io.Reader) (int, error) {
-- 
2.43.0


From 5d11938389b30a9fd6184abe4e5418b2df13e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:18 +0000
Subject: [PATCH 37/45] fix: GT.Null is the neutral element and GT.Sub divides

---
 bls12_381/gt.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bls12_381/gt.go b/bls12_381/gt.go
index 522fe1f..d4f2fdf 100644
--- a/bls12_381/gt.go
+++ b/bls12_381/gt.go
@@ -26,11 +26,8 @@ func (k *OwcryptGT) Equal(kk kyber.Point) bool {
 	return k.f.Equal(kk.(*OwcryptGT).f)
 }
 
-const gtLength = 576
-
 func (k *OwcryptGT) Null() kyber.Point {
-	var zero [gtLength]byte
-	k.f, _ = bls.NewGT().FromBytes(zero[:])
+	k.f = bls.NewGT().One()
 	return k
 }
 
@@ -63,7 +60,9 @@ func (k *OwcryptGT) Add(a, b kyber.Point) kyber.Point {
 func (k *OwcryptGT) Sub(a, b kyber.Point) kyber.Point {
 	aa := a.(*OwcryptGT)
 	bb := b.(*OwcryptGT)
-	bls.NewGT().Sub(k.f, aa.f, bb.f)
+	inv := bls.NewGT().New()
+	bls.NewGT().Inverse(inv, bb.f)
+	bls.NewGT().Mul(k.f, aa.f, inv)
 	return k
 }
 
-- 
2.43.0


From 724baa646f59418de78923e5f2b6e2bc4caa31e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 38/45] fix: G2 hashes messages without a ciphersuite tag

---
 bls12_381/g2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bls12_381/g2.go b/bls12_381/g2.go
index 88417f8..d107b24 100644
--- a/bls12_381/g2.go
+++ b/bls12_381/g2.go
@@ -149,6 +149,9 @@ func (k *OwcryptG2) Hash(m []byte) kyber.Point {
 	} else if strings.Index(string(m), aug_scheme_dst) == 0 {
 		pg2, _ := bls.NewG2(nil).HashToCurve(m[len(aug_scheme_dst):], m[:len(aug_scheme_dst)])
 		k.p = pg2
+	} else {
+		pg2, _ := bls.NewG2(nil).HashToCurve(m, Domain)
+		k.p = pg2
 	}
 
 	return k
-- 
2.43.0


From 55a78404363d05e3cfd55c2ea9eccfd9ac5497bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 39/45] fix: Pasta negation negates

---
 pasta/crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index f3402e0..bed5035 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -512,7 +512,7 @@ func GroupScalarMul(r *Group, k Scalar, p Group) {
 
 func GroupNegate(q *Group, p Group) {
 	FieldCopy(&q.X, p.X)
-	FieldCopy(&q.Y, p.Y)
+	FieldNegate(&q.Y, p.Y)
 	FieldCopy(&q.Z, p.Z)
 }
 
-- 
2.43.0


From 4876ca680be8b8b95ab9d7aa3e23755fe9dd7b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:56 +0000
Subject: [PATCH 40/45] fix: bls hashing refuses domains longer than 255 bytes

---
 bls12_381/bls/hash_to_field.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bls12_381/bls/hash_to_field.go b/bls12_381/bls/hash_to_field.go
index 60f8234..bd46fdb 100644
--- a/bls12_381/bls/hash_to_field.go
+++ b/bls12_381/bls/hash_to_field.go
@@ -22,10 +22,10 @@ func hashToFpXMDSHA256(msg []byte, domain []byte, count int) ([]*fe, error) {
 
 func expandMsgSHA256XMD(msg []byte, domain []byte, outLen int) ([]byte, error) {
 	h := sha256.New()
-	domainLen := uint8(len(domain))
-	if domainLen > 255 {
+	if len(domain) > 255 {
 		return nil, fmt.Errorf("invalid domain length")
 	}
+	domainLen := uint8(len(domain))
 	// DST_prime = DST || I2OSP(len(DST), 1)
 	// b_0 = H(Z_pad || msg || l_i_b_str || I2OSP(0, 1) || DST_prime)
 	_, _ = h.Write(make([]byte, h.BlockSize()))
-- 
2.43.0


From 40ffb3bebd46c6743d25928acacb200496ef45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 41/45] fix: bls MultiExp keeps the caller's scalars

---
 bls12_381/bls/g1.go | 2 ++
 bls12_381/bls/g2.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bls12_381/bls/g1.go b/bls12_381/bls/g1.go
index 954eea0..d465343 100644
--- a/bls12_381/bls/g1.go
+++ b/bls12_381/bls/g1.go
@@ -455,6 +455,8 @@ func (g *G1) MultiExp(r *PointG1, points []*PointG1, powers []*big.Int) (*PointG
 	if len(points) != len(powers) {
 		return nil, fmt.Errorf("point and scalar vectors should be in same length")
 	}
+	// powers are shifted below, keep the vector of the caller
+	powers = append([]*big.Int{}, powers...)
 	var c uint32 = 3
 	if len(powers) >= 32 {
 		c = uint32(math.Ceil(math.Log10(float64(len(powers)))))
diff --git a/bls12_381/bls/g2.go b/bls12_381/bls/g2.go
index a58df91..2effcc0 100644
--- a/bls12_381/bls/g2.go
+++ b/bls12_381/bls/g2.go
@@ -459,6 +459,8 @@ func (g *G2) MultiExp(r *PointG2, points []*PointG2, powers []*big.Int) (*PointG
 	if len(points) != len(powers) {
 		return nil, fmt.Errorf("point and scalar vectors should be in same length")
 	}
+	// powers are shifted below, keep the vector of the caller
+	powers = append([]*big.Int{}, powers...)
 	var c uint32 = 3
 	if len(powers) >= 32 {
 		c = uint32(math.Ceil(math.Log10(float64(len(powers)))))
-- 
2.43.0


From 74f0d894546171a327e080e8cc7295f064bc76f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:36 +0000
Subject: [PATCH 42/45] fix: pasta big-endian inputs of odd length keep their
 middle byte

---
 pasta/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasta/utils.go b/pasta/utils.go
index 0bdc01b..75d3161 100644
--- a/pasta/utils.go
+++ b/pasta/utils.go
@@ -60,7 +60,7 @@ func BytesArrayTo32LengthBytesArray(in []byte) [32]byte {
 
 func reverseBytes(s []byte) []byte {
 	out := make([]byte, 32)
-	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
+	for i, j := 0, len(s)-1; i <= j; i, j = i+1, j-1 {
 		out[i], out[j] = s[j], s[i]
 	}
 	return out
-- 
2.43.0


From 891860953c9b5ea11d7ca563a266d97e81eb3d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 43/45] fix: pasta GroupAdd doubles a point given in two forms

---
 pasta/crypto.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index bed5035..be6e5e8 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -452,6 +452,11 @@ func GroupAdd(r *Group, p, q Group) {
 
 	var h, i, j, w, v Field
 	FieldSub(&h, u2, u1)
+	if FieldEq(h, FieldZero) == 1 && FieldEq(s1, s2) == 1 {
+		// the same point with another Z
+		GroupDbl(r, p)
+		return
+	}
 	FieldAdd(&r.Z, h, h)
 	FieldSq(&i, r.Z)
 	FieldMul(&j, h, i)
-- 
2.43.0


From 45a3ff5c03b986ab8169b53758804ab92630a07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:38 +0000
Subject: [PATCH 44/45] fix: pasta compressed points survive compression and
 re-encoding

---
 pasta/crypto.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index be6e5e8..6171367 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -128,7 +128,7 @@ func (c Compressed) ToBigEndianBytes() []byte {
 		out = append(out, 0x02)
 	}
 
-	return append(out, c.X.ToBigEndianBytes()...)
+	return append(out, FpMontgomeryArrayToBigEndianBytes(c.X.ToU64Array())...)
 }
 
 func (c *Compressed) FromBigEndianBytes(p []byte) error {
@@ -560,10 +560,9 @@ func GeneratePubkey(pub_key *Affine, priv_key Scalar) {
 }
 
 func Compress(compressed *Compressed, pt Affine) {
-	var out, y_bigint [4]uint64
-	FiatPastaFpFromMontgomery(&out, pt.X.ToU64Array())
+	var y_bigint [4]uint64
 	FiatPastaFpFromMontgomery(&y_bigint, pt.Y.ToU64Array())
-	compressed.X.Set(out)
+	compressed.X.Set(pt.X.ToU64Array())
 	if y_bigint[0]&0x01 == 1 {
 		compressed.IsOdd = true
 	} else {
-- 
2.43.0


From 83be430edad05166afcf22d0c370c53d61a0cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:35 +0000
Subject: [PATCH 45/45] fix: sm2 verification refuses the point at infinity

---
 sm2_std.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index f13a3e2..3173fdf 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1140,10 +1140,12 @@ func sm2_std_verify(pub *ecdsa.PublicKey, hash, uid []byte, r, s *big.Int) bool
 		return false
 	}
 
-	var x *big.Int
 	x1, y1 := c.ScalarBaseMult(s.Bytes())
 	x2, y2 := c.ScalarMult(pub.X, pub.Y, t.Bytes())
-	x, _ = c.Add(x1, y1, x2, y2)
+	x, y := c.Add(x1, y1, x2, y2)
+	if x.Sign() == 0 && y.Sign() == 0 {
+		return false
+	}
 
 	x.Add(x, e)
 	x.Mod(x, N)
-- 
2.43.0

