#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one source of truth for the property texts).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        observe_at=observe,hook_needed=hook)))

p("C01","Concurrent and earlier calls never change what a call returns",
 "Whatever other library calls run at the same time in other threads, and whatever calls ran earlier in the process, every call returns exactly what it returns when it runs alone in a fresh process with the same arguments and the same entropy bytes; threads may share argument buffers (read-only) but not hash objects. This includes the very first calls of a process, and calls that fail.",
 ["schedules","histories"],
 "all interleavings of calls from several threads at statement granularity, over all public operations of the curve, hash and aggregate services, with shared operands, in cold and warm processes, and all earlier call histories",
 "The tests call each function once, from one goroutine, in a warm process: no interleaving and no history is ever exercised, and even the race detector would only see the ones that happened.",
 ["eccset.go","hashset.go","ecdsa.go","secp256k1.go","secp256r1.go","sm2_std.go","utils.go","eddsa/","bls12_381/","pasta/","blake256/","blake512/","blake2s/","sha3/","sm3/"],
 [("curve parameters are package variables written once, before any call, and only read afterwards","init.go:init; secp256k1.go:initsecp256k1Param; secp256r1.go:initsecp256r1Param; sm2_std.go:initsm2_stdParam"),
  ("point and field arithmetic works on freshly allocated or local temporaries","secp256k1.go; sm2_std.go; bls12_381/bls; pasta/crypto.go; eddsa/edwards25519"),
  ("shared constant tables are never written","pasta/poseidon_3w.go; eddsa/edwards25519/const.go; bls12_381/bls/isogeny.go; sm2_std.go precomputed table")],
 ["return values of every exported operation, per thread"],
 [("curve parameter objects","P, N, B, G of each curve, shared by all threads","secp256k1.go, secp256r1.go, sm2_std.go"),("constant tables","round constants, precomputed points, moduli","pasta, bls12_381/bls, eddsa/edwards25519, sha3, blake*")])

p("C02","Caller-owned memory is never written, retained or shared",
 "No call writes a single byte of a buffer the caller passed in, nor of the spare capacity behind that buffer, not even temporarily, so read-only memory can be passed everywhere (destination arguments excepted). After a call returns the caller may overwrite its arguments and any returned buffer at any time without changing the result of any other call, past or future.",
 ["inputs","histories","schedules"],
 "every public operation, valid and invalid arguments, every placement of the argument (end of a read-only page, middle of a larger buffer), and every later recycling of argument and result buffers between and after calls",
 "Tests never look at their arguments after a call and always pass exact-length private slices, so in-place edits, appends into spare capacity and retained references are invisible to them.",
 ["eccset.go","hashset.go","ecdsa.go","sm2_std.go","eddsa/","bls12_381/","pasta/","blake2s/","sm3/","sha3/","blake256/","blake512/"],
 [("arguments are copied before they are modified (clamping, padding, prefixing)","eddsa/*.go, eccset.go Signature/Verify/PointCompress, sm2_std.go"),
  ("results are freshly allocated","eccset.go, ecdsa.go")],
 ["argument buffers and the bytes around them during and after every call","results of later calls"])

p("C03","A streaming digest depends only on the bytes written since reset",
 "For every digest, salted/personalised digest and keyed digest the library offers as a stream, asking for the digest returns the given prefix followed by the algorithm's standard digest of exactly the bytes written since creation or the last reset: however the bytes were chunked, however often digests were taken in between, and for messages beyond 2^32 bits as well. Every write consumes all its bytes, asking for a digest never disturbs the stream, and the one-shot and HMAC services agree with the stream. Parameters beyond the limits of the algorithm give no stream and no digest.",
 ["histories","inputs","fault_sequences"],
 "all histories of write/digest/reset on several live streams at once, all chunkings produced by short, empty, failing and resumed source reads, all message lengths including those that carry between counter words",
 "Most of these digests have no test at all and the others hash one short literal in one write; chunk boundaries, digest-then-continue, reset after use and counter carries are never reached.",
 ["blake256/","blake512/","blake2s/","sm3/","sha3/","hashset.go"],
 [("partial blocks are buffered and complete blocks compressed in order","blake256/blake256.go:Write, blake512/blake512.go:Write, blake2s/blake2s.go:Write, sm3/sm3.go:Write, sha3/sha3.go:Write"),
  ("the digest is finalised on a copy of the state","Sum in each package"),
  ("reset restores the initial chaining value, counter, salt and key","Reset in each package")],
 ["Sum, Write, Reset, Size, BlockSize of every constructor; the one-shot and HMAC services"],
 [("chaining value, byte counter, partial block","streaming state of one digest object","digest/state/SM3 structs")])

p("C04","Signing is correct or fails cleanly under any entropy fault",
 "Whatever the entropy source does - errors, short or empty reads, stuck, constant, repeated or replayed output, at any read - a signing call with a valid key and message either reports failure and returns no signature, or reports success with a signature that an independent verifier of that scheme accepts for exactly that key, message and identity. On the two ECDSA curves a successful signature is 64 bytes, low-s, with both components in canonical range (top bit clear, no redundant leading zero byte), and with its recovery flag it recovers exactly the signer's public key. With a working source signing succeeds, and no fault makes a signing or key-generation call run forever.",
 ["fault_sequences","inputs","histories"],
 "all entropy fault sequences at every read position, all keys/messages/identities including edge values, for every signature scheme",
 "The tests sign one or two fixed messages with the real system entropy, which never fails or repeats; no error path of any entropy read is ever executed.",
 ["eccset.go","ecdsa.go","utils.go","sm2_std.go","eddsa/ed25519.go","eddsa/x25519.go","eddsa/curve25519.go","eddsa/curve25519_sha256.go","pasta/pasta.go","bls12_381/bls12-381.go"],
 [("entropy errors are propagated","utils.go:signecdsa, sm2_std.go:sm2_std_sign, eddsa/*.go, pasta/pasta.go:Sign"),
  ("retry until r and s are non-zero, low-s and canonical, tracking the recovery bit","utils.go:signGeneric"),
  ("recovery flag","secp256k1.go:secp256k1_recover_public, secp256r1.go:secp256r1_recover_public")],
 ["return code, signature and recovery flag of the signing service; the recovery service"],
 [("nonce generator state","AES-CTR stream seeded from key, entropy and message","utils.go:signecdsa, sm2_std.go:sm2_std_sign")])

p("C05","Signature nonces never repeat, leak or lose bits",
 "For every scheme whose signature consumes a secret per-signature nonce, two successful signatures by one key over different messages (for SM2 also different identities) never share a nonce, and two different keys never share one, even when the entropy source is stuck, repeats or replays earlier output, or the process is restored from a snapshot; the raw-random Mina scheme needs a source that does not repeat. A nonce is never computable without the private key or the entropy that was actually delivered, and with a working source no bit of the nonce is constant or biased.",
 ["histories","fault_sequences","crash_points"],
 "all histories of signing requests across crashes, snapshot restores and stuck or failing entropy, for ECDSA on both curves, SM2, the Edwards schemes and Mina",
 "A nonce collision or a dropped nonce bit leaves every single signature perfectly valid, so sign-then-verify tests with real entropy cannot see it; it only shows across a history of signatures under a misbehaving source.",
 ["utils.go","sm2_std.go","eddsa/ed25519.go","eddsa/x25519.go","eddsa/curve25519.go","eddsa/curve25519_sha256.go","pasta/pasta.go"],
 [("hedged nonce: hash of private key, entropy and message keys the nonce generator","utils.go:signecdsa; sm2_std.go:sm2_std_sign"),
  ("derived nonce: hash of secret prefix (and entropy) and message","eddsa/*.go"),
  ("uniform random nonce","pasta/pasta.go:Sign")],
 ["nonce recomputed from each signature and the known private key"],
 [("entropy position","what the source has delivered so far; survives neither crash nor snapshot restore","crypto/rand behind the simulator")])

p("C06","SM2 key agreement: both sides accept only the same, right key",
 "If the initiator completes a session and the responder confirms it, both hold the same key of exactly the requested length, equal to the key the SM2 standard defines for their identities, static keys and exchanged ephemeral keys, whatever the network dropped, duplicated, delayed, reordered, mixed between sessions or corrupted and whichever party restarted. A party that receives an altered, foreign or malformed message reports failure and never a key that its peer could be said to share, and a fault-free session always completes; an entropy failure never yields an ephemeral key made without entropy.",
 ["fault_sequences","schedules","crash_points","inputs"],
 "all message fault sequences and interleavings of concurrent sessions between several parties, all identities and key lengths, restarts of either party at any step, entropy faults at any read",
 "The repository has no test of the key agreement at all, and a test would run one honest session; tampering, cross-session mixing, restarts, odd key lengths and entropy failure need an adversarial network.",
 ["sm2_std.go","eccset.go"],
 [("confirmation tags over the transcript are compared before success is reported","sm2_std.go:sm2_std_ka_initiator_step2, sm2_std_ka_responder_step2, ka_check"),
  ("received ephemeral keys are checked to be on the curve","sm2_std.go:sm2_std_ka_initiator_step2, sm2_std_ka_responder_step1"),
  ("key derivation","sm2_std.go:ka_kdf")],
 ["return codes, keys and tags of the key-agreement services"],
 [("session state","ephemeral key pair, responder's expected tag","held by the caller between steps")])

p("C07","SM2 decryption returns the plaintext that was encrypted, or fails",
 "Whatever a store or network does to a ciphertext - flipped, zeroed, truncated, extended, torn between two ciphertexts, delivered to the wrong key - decryption reports success only with exactly the plaintext that was encrypted for that key, and otherwise reports a failure and returns no data. Encrypting any non-empty plaintext for a valid key succeeds with a working entropy source and decrypts back; under entropy failure or for an invalid public key it reports failure and no ciphertext, two encryptions that drew different entropy never share their ephemeral key, and independent implementations of the standard agree on the result.",
 ["fault_sequences","inputs"],
 "all plaintext lengths, all single and compound corruptions of stored or transmitted ciphertexts, all keys, all entropy fault sequences during encryption",
 "There is no test of encryption or decryption in the suite; a round-trip test would still never present a damaged ciphertext or a failing entropy source.",
 ["sm2_std.go","ecdsa.go","eccset.go"],
 [("integrity digest over shared point and plaintext is checked before plaintext is released","sm2_std.go:sm2_std_decrypt"),
  ("error mapping to return codes","eccset.go:Encryption, Decryption")],
 ["return code and data of the encryption and decryption services"])

p("C08","BLS aggregation: order-free, exact, and tamper-evident",
 "Aggregating a collection of BLS signatures gives one result independent of the order of arrival and of any grouping into partial aggregates, and for signatures on one message it is accepted under the sum of the signers' public keys exactly when every signer's genuine signature was included exactly once. If any contribution is missing, duplicated, replaced or corrupted in transit, aggregation reports failure or yields an aggregate that is not accepted; no contribution makes aggregation or verification crash.",
 ["fault_sequences","schedules","inputs"],
 "all signer sets, arrival orders, tree-shaped partial aggregations at intermediate nodes, message loss, duplication, replacement and corruption, and aggregator restarts",
 "The only test aggregates two constant signatures and prints the result; it asserts nothing and tries no other order, multiplicity or damaged contribution.",
 ["eccset.go","bls12_381/bls12-381.go","bls12_381/g1.go","bls12_381/g2.go","bls12_381/bls/"],
 [("aggregate is the group sum of the decoded signatures","bls12_381/bls12-381.go:AggregateSignatures"),
  ("decoding checks flags, field range, curve and subgroup membership","bls12_381/g2.go, bls12_381/bls/g2.go")],
 ["aggregate bytes and return codes; verification under the summed key"])

p("C09","Verification accepts genuine signatures and nothing that was altered",
 "For every scheme, a genuine signature over a message (and identity) - made by the library, or by anyone else following the scheme - is accepted under the public key that key generation gives the signer, and after any transmission fault - bits flipped, bytes lost, zeroed, duplicated, fields swapped with another session's, truncation or extension of signature, message, identity or key - it is rejected, unless an independent verifier of the scheme accepts the altered triple as well. Keys that are not valid points of the scheme's group, components out of range, and zero components where the scheme excludes them, are never accepted, so nobody without the private key can produce an accepted signature for them.",
 ["fault_sequences","inputs"],
 "all honestly produced triples of every scheme, all wire fault sequences on each component, cross-session mixing, and byzantine senders using degenerate keys and components",
 "The tests verify a handful of honest signatures (several with the verdict only printed); hardly any negative case is asserted, and none over damaged keys, identities or mixed sessions.",
 ["eccset.go","ecdsa.go","utils.go","sm2_std.go","eddsa/","pasta/pasta.go","bls12_381/bls12-381.go"],
 [("range checks on signature components and equation check","utils.go:verifyesdsa, sm2_std.go:sm2_std_verify, eddsa/*.go, pasta/pasta.go:Verify"),
  ("public key decoding and validation","ecdsa.go:verify, eddsa/edwards25519, pasta/crypto.go, bls12_381/g1.go")],
 ["return code of the verification service"])

p("C10","Malformed or damaged input never crashes or hangs a caller",
 "No byte string, of any length or content, passed as key, point, scalar, signature, message, identity, ciphertext or protocol message to any of the public curve, hash and aggregation services makes the calling process crash or fail to return; the call reports failure through its documented return value instead. A call that reports failure returns no result data, and no call succeeds for a curve type the library does not know.",
 ["inputs","fault_sequences"],
 "every public service with every argument torn, truncated, extended, zeroed, bit-flipped, swapped, missing or random, under working and failing entropy",
 "The tests pass well-formed arguments only; decode failures, off-curve points, short buffers and zero values are never exercised.",
 ["eccset.go","hashset.go","ecdsa.go","secp256k1.go","secp256r1.go","sm2_std.go","eddsa/","pasta/","bls12_381/"],
 [("length and nil checks at the service boundary","eccset.go, ecdsa.go"),
  ("decode errors are propagated","PointDecompress, FromBigEndianBytes, UnmarshalBinary paths")],
 ["panics, non-termination, return codes and data of every service"])

p("C11","Public-key recovery returns the signer or an error",
 "Given an untampered signature with its recovery flag and the signed digest, recovery returns exactly the signer's public key. Given any altered signature, flag or digest it reports failure or returns a valid curve point under which that very signature verifies for that very digest, and it never crashes.",
 ["fault_sequences","inputs"],
 "all signatures of the two ECDSA curves and SM2, all wire fault sequences on signature, flag and digest, including components that are zero, out of range or not an x-coordinate of the curve",
 "The suite recovers from one or two fixed signatures; damaged flags, digests and components are never tried, and half of all r values are not even reachable by a fixed vector.",
 ["secp256k1.go","secp256r1.go","sm2_std.go","eccset.go"],
 [("candidate key is re-verified before it is returned","secp256k1.go:secp256k1_recover_public, secp256r1.go:secp256r1_recover_public, sm2_std.go:sm2_std_recover_public")],
 ["return code and key of the recovery service"])

p("C12","An extendable-output stream is one fixed stream, however it is read",
 "The output of an extendable-output hash is a single byte stream determined only by the bytes absorbed: any sequence of read sizes yields its consecutive segments, and a clone taken at any moment - while absorbing or in the middle of reading - continues exactly where the original stood, independently of it. Reset at any moment gives a fresh stream.",
 ["histories","schedules"],
 "all histories of write/read/clone/reset over several live streams and their clones, all chunkings, on the assembly and the portable permutation",
 "No test reads an extendable output at all, let alone clones one halfway through a block.",
 ["sha3/shake.go","sha3/sha3.go","sha3/keccakf.go","sha3/keccakf_amd64.s"],
 [("squeeze buffer and position","sha3/sha3.go:Read, permute"),("clone copies state and re-points the buffer","sha3/sha3.go:clone")],
 ["bytes returned by Read on each stream and clone"],
 [("sponge state, buffer position, direction","absorbing or squeezing position","sha3/sha3.go:state")])

p("C13","A damaged stored key never decodes to something that is not a key",
 "Decoding a compressed public key that was damaged in storage or transit either reports failure or returns a valid point of the curve whose compressed form is exactly the damaged input; an undamaged one always decodes to the original point. Services that take points in compressed form reject the same inputs, and never compute with something that is not on the curve.",
 ["fault_sequences","inputs"],
 "all public keys of the four curves with compressed encodings, all storage fault sequences (flips, torn and lost writes, mixing two records), through decompression and through the point services that decompress internally",
 "The suite decompresses a few intact constants; about half of all damaged encodings have no point behind them and none of those is ever tried.",
 ["eccset.go","secp256k1.go","secp256r1.go","sm2_std.go","pasta/crypto.go","pasta/pasta.go"],
 [("square root existence and parity check","secp256k1.go:secp256k1_decompress, secp256r1.go:secp256r1_decompress, sm2_std.go:sm2_std_decompress, pasta/crypto.go:Decompress")],
 ["result of decompression, point addition and point multiplication services"])

p("C14","Key shares combine to the same group key in any order, grouping and encoding",
 "On every curve, parties that add their public key shares or blind them by a scalar reach the public key of the combined private scalar whatever the order and grouping of the operations, whichever encoding (plain or compressed) each share arrives in, and whichever service (key generation, base-point multiplication, point addition, scalar multiplication) produced it. A combination that vanishes is reported as the point at infinity and never returned as a key, and a share that is not a point of the curve is refused.",
 ["inputs","schedules","fault_sequences","histories"],
 "all sets of shares, all orders and groupings in which they are combined by concurrently running parties, all message losses, duplications, reorderings and corruptions on the way, including equal, opposite and vanishing shares, on all curves with a point service",
 "The tests add and multiply a few constants in one order; that another order, grouping, doubling, cancellation or encoding reaches the same point is never asked.",
 ["eccset.go","ecdsa.go","secp256k1.go","secp256r1.go","sm2_std.go","pasta/","eddsa/ed25519.go","eddsa/edwards25519","bls12_381/bls"],
 [("group arithmetic","secp256k1.go:secp256k1_add_public/secp256k1_mul, secp256r1.go, sm2_std.go, eddsa/ed25519.go, pasta/crypto.go:GroupAdd/GroupScale"),
  ("dispatch and infinity report","eccset.go:Point_mul/Point_add/Point_mulBaseG/Point_mulBaseG_add")],
 ["point and key services: return code and point"])
p("C15","One-shot digests equal their published standards",
 "For every supported algorithm and input the one-shot hash equals the published standard, and an unsupported algorithm or output size yields no digest.",
 ["inputs"],"all algorithms, inputs and digest lengths","Tests print or compare a few digests.",
 ["hashset.go"],[("dispatch","hashset.go:Hash")],["hash service"])
p("C16","A key converted between Edwards and Montgomery form stays the same key",
 "Converting an Edwards public key to Montgomery form agrees with the birational map, converting back yields the same key up to its sign bit, and along any chain of conversions between parties the key stays the public key of the same private scalar: signatures made with that scalar verify under the converted-back key. Points outside the curve, non-canonical coordinates and wrong-length inputs are refused at every hop.",
 ["inputs","histories","fault_sequences"],
 "all public keys, all chains of conversions between the two forms, all storage and transport damage on the way, and the keys with no image (the identity and the points of small order)",
 "One constant is converted once; half of all Montgomery coordinates belong to the twist and are never tried, nor is any chain of conversions.",
 ["eddsa/x25519.go","eddsa/convert.go","eddsa/ed25519.go","eccset.go"],
 [("birational map","eddsa:ConvertXToEd/ConvertEdToX, eccset.go:CURVE25519 conversion services")],
 ["conversion services, X25519 signature verification"])
p("C17","Watch-only derivation reaches the signer's keys",
 "A wallet that holds only a parent public key and adds scalar multiples of the base point to it reaches, after any sequence of derivations and through any restarts from its stored compressed keys, exactly the public key of the signer's private key plus the same scalars modulo the published curve order; the signer's signatures verify under the wallet's child key and under no sibling. A derivation that reaches the point at infinity is reported as such on the wallet's side.",
 ["inputs","histories","fault_sequences"],
 "all parent keys, all derivation paths and tweak values (zero, the order, beyond the order, values cancelling the parent), all crash/restart points with only the stored records surviving, torn records included",
 "A few constants are derived once; no path, no cancellation, no tweak near the group order and no restart in the middle is ever tried.",
 ["eccset.go","ecdsa.go","secp256k1.go","secp256r1.go","sm2_std.go","eddsa/ed25519.go"],
 [("multiply base and add","eccset.go:Point_mulBaseG_add"),("published order","eccset.go:GetCurveOrder"),("stored form","eccset.go:PointCompress/PointDecompress")],
 ["derivation, compression and signature services"])
p("C18","Pairing-suite objects always stand for the group element their history denotes",
 "Whatever sequence of operations is applied to the points of the exported pairing suite - destinations aliasing operands, clones edited independently, encodings sent and re-read through short or failing sources and sinks, points shared read-only by several threads - every point encodes as the group element that history denotes, and an operation changes nothing but its destination. Equality, pairing and pairing checks answer accordingly (bilinear, non-degenerate), an encoding that is damaged or no group element is refused and leaves the destination as it was, and any t of n holders of a shared key produce, whatever partial signatures are lost, repeated, reordered or forged, exactly the signature of the group's key.",
 ["histories","schedules","inputs","fault_sequences"],
 "all histories of operations over several points per thread with any aliasing, all interleavings of threads that share points, all damage and short or failing transfers of encodings, all sets, orders and corruptions of partial signatures",
 "No test touches the suite's group objects: the tests sign and verify fixed messages with fresh objects, so aliasing, re-use after a pairing check, sharing, failed decodes and every target-group operation are unexplored.",
 ["bls12_381/g1.go","bls12_381/g2.go","bls12_381/gt.go","bls12_381/group.go","bls12_381/scalar.go","bls12_381/bls"],
 [("group objects wrap points of the arithmetic package","bls12_381/g1.go, g2.go, gt.go"),("pairing engine","bls12_381/bls/pairing.go"),("encodings with subgroup checks","bls12_381/bls/g1.go, g2.go, gt.go")],
 ["encodings, equality and pairing verdicts of the suite's points"],
 [("point objects","a group element in projective coordinates","bls12_381/bls PointG1/PointG2/E")])
p("C19","A BLS12-381 engine's answer depends only on its operands",
 "Whatever an engine of the BLS12-381 arithmetic package computed before - refused decodes, hashes, multi-exponentiations, pairing products begun, checked, taken and reset - and however destinations alias operands, each result is the group element the operation denotes on its operands: sums, multiples and multi-exponentiations of points in or outside the prime-order groups, cofactor clearing, the standard hash-to-curve and encode-to-curve maps (a domain longer than 255 bytes is an error), products in the target group, predicates and pairing checks (bilinear; Check keeps the product, Result takes it). Operands, scalar vectors and byte strings keep their values. Encodings are the standard ones; a damaged encoding is refused, leaving everything as it was, or is decoded as exactly the element it encodes (compressed and uncompressed forms: only elements of the prime-order group). Engines in different threads that read the same points do not influence each other.",
 ["histories","schedules","inputs","fault_sequences"],
 "all histories of operations on engines and points with any aliasing, all scalars, vectors, messages and domains, all interleavings of threads with own engines over shared points, all damage of encodings",
 "Engines keep temporaries, a pair list and scratch field elements between calls and write results in place; tests use fresh engines and operands from fixed vectors, never one engine across mixed, refused, aliased or unfinished work.",
 ["bls12_381/bls"],
 [("G1/G2 arithmetic with temporaries","bls12_381/bls/g1.go, g2.go"),("pairing engine with a pair list","bls12_381/bls/pairing.go"),("hash to field and maps","bls12_381/bls/hash_to_field.go, swu.go, isogeny.go"),("target group","bls12_381/bls/gt.go, fp12.go")],
 ["encodings of points and target-group elements, verdicts of predicates and pairing checks"],
 [("engine","temporaries and the pairs of the product begun","bls12_381/bls Engine/G1/G2/GT")])
p("C20","Mina sponges, messages and Pasta objects hold what their history denotes",
 "However a Poseidon sponge is fed - in any pieces, through copies taken at any moment and continued independently, or re-fed after its context was lost - its digest is the Poseidon hash of the elements absorbed since it was set up, and a message hash is that of prefix, public key, nonce coordinate and suffix. Whatever sequence of operations is applied to Pasta field elements, scalars, affine and projective points (in any of a point's projective forms, with destinations aliasing operands), each object holds the number or group element that history denotes, and predicates, roots and encodings answer accordingly. Points, compressed points, scalars and messages that were stored or sent read back as what was written; damaged ones are refused or are exactly what the bytes denote. Inputs are left as they were and threads do not influence each other.",
 ["histories","schedules","inputs","fault_sequences"],
 "all ways to split, copy, lose and re-feed sponge input, all histories of operations on field elements, scalars and points with any aliasing and any projective form, all damage of encodings and stored messages, all interleavings of threads",
 "The only test of the sponge absorbs one element and ignores the digest; no test of the repository touches fields, scalars, projective points or compressed points.",
 ["pasta/crypto.go","pasta/poseidon.go","pasta/poseidon_3w.go","pasta/mina.go","pasta/utils.go","pasta/pasta_fp.go","pasta/pasta_fq.go"],
 [("sponge context with a position","pasta/poseidon.go:PoseidonUpdate/PoseidonDigest"),("projective arithmetic","pasta/crypto.go:GroupAdd/GroupDbl/GroupScalarMul"),("encodings","pasta/crypto.go:Compress/Decompress/FromBigEndianBytes"),("stored messages","pasta/mina.go:ToBytes/NewMinaMessage")],
 ["digests, values, encodings and predicates of Pasta objects"],
 [("sponge","three field elements and a position","pasta.PoseidonCtx"),("points","a group element in projective coordinates","pasta.Group")])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
