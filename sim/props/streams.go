// Package props holds the workloads and oracles, one file per property family.
package props

import (
	"bytes"
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"fmt"
	"hash"
	"io"

	oc "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/blake256"
	"github.com/blocktree/go-owcrypt/blake2s"
	"github.com/blocktree/go-owcrypt/blake512"
	"github.com/blocktree/go-owcrypt/sha3"
	"github.com/blocktree/go-owcrypt/sm3"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/md4"
	"golang.org/x/crypto/ripemd160"
	xsha3 "golang.org/x/crypto/sha3"

	"verifsim/engine"
	"verifsim/ref"
	"verifsim/simrt"
)

type hashParams struct {
	key, salt, person []byte
	size              int
	tree              []int64 // fanout, depth, leaf, offset, nodeDepth, inner, last
}

type alg struct {
	name  string
	block int
	size  func(p hashParams) int
	mk    func(p hashParams) hash.Hash
	ref   func(p hashParams, m []byte) []byte
	shot  func(p hashParams, m []byte) []byte // one-shot service, nil if none
}

func fixed(n int) func(hashParams) int { return func(hashParams) int { return n } }

func xs(f func() hash.Hash) func(hashParams, []byte) []byte {
	return func(_ hashParams, m []byte) []byte { h := f(); h.Write(m); return h.Sum(nil) }
}

func cat(ps [][]byte) []byte {
	var b []byte
	for _, p := range ps {
		b = append(b, p...)
	}
	return b
}

func b2sConfig(p hashParams) *blake2s.Config {
	c := &blake2s.Config{Size: uint8(p.size), Key: p.key, Salt: p.salt, Person: p.person}
	if len(p.tree) == 7 {
		c.Tree = &blake2s.Tree{Fanout: uint8(p.tree[0]), MaxDepth: uint8(p.tree[1]), LeafSize: uint32(p.tree[2]),
			NodeOffset: uint64(p.tree[3]), NodeDepth: uint8(p.tree[4]), InnerHashSize: uint8(p.tree[5]), IsLastNode: p.tree[6] != 0}
	}
	return c
}

func b2sRef(p hashParams) ref.Blake2sParams {
	r := ref.Blake2sParams{Size: p.size, Key: p.key, Salt: p.salt, Person: p.person}
	if r.Size == 0 {
		r.Size = 32
	}
	if len(p.tree) == 7 {
		r.Tree = true
		r.Fanout, r.MaxDepth, r.LeafSize, r.NodeOffset = uint8(p.tree[0]), uint8(p.tree[1]), uint32(p.tree[2]), uint64(p.tree[3])
		r.NodeDepth, r.Inner, r.LastNode = uint8(p.tree[4]), uint8(p.tree[5]), p.tree[6] != 0
	}
	return r
}

func oneShot(a uint32) func(hashParams, []byte) []byte {
	return func(p hashParams, m []byte) []byte { return oc.Hash(m, uint16(p.size), a) }
}

func refBlake256(parts ...[]byte) []byte { return ref.Blake32(256, nil, cat(parts)) }
func refBlake512(parts ...[]byte) []byte { return ref.Blake64(512, nil, cat(parts)) }
func refSha3(parts ...[]byte) []byte     { x := xsha3.Sum256(cat(parts)); return x[:] }

var algs = []alg{
	{"blake256", 64, fixed(32), func(hashParams) hash.Hash { return blake256.New() },
		func(_ hashParams, m []byte) []byte { return ref.Blake32(256, nil, m) }, oneShot(oc.HASH_ALG_BLAKE256)},
	{"blake224", 64, fixed(28), func(hashParams) hash.Hash { return blake256.New224() },
		func(_ hashParams, m []byte) []byte { return ref.Blake32(224, nil, m) }, nil},
	{"blake256-salt", 64, fixed(32), func(p hashParams) hash.Hash { return blake256.NewSalt(p.salt) },
		func(p hashParams, m []byte) []byte { return ref.Blake32(256, p.salt, m) }, nil},
	{"blake224-salt", 64, fixed(28), func(p hashParams) hash.Hash { return blake256.New224Salt(p.salt) },
		func(p hashParams, m []byte) []byte { return ref.Blake32(224, p.salt, m) }, nil},
	{"blake512", 128, fixed(64), func(hashParams) hash.Hash { return blake512.New() },
		func(_ hashParams, m []byte) []byte { return ref.Blake64(512, nil, m) }, oneShot(oc.HASH_ALG_BLAKE512)},
	{"blake384", 128, fixed(48), func(hashParams) hash.Hash { return blake512.New384() },
		func(_ hashParams, m []byte) []byte { return ref.Blake64(384, nil, m) }, nil},
	{"blake512-salt", 128, fixed(64), func(p hashParams) hash.Hash { return blake512.NewSalt(p.salt) },
		func(p hashParams, m []byte) []byte { return ref.Blake64(512, p.salt, m) }, nil},
	{"blake384-salt", 128, fixed(48), func(p hashParams) hash.Hash { return blake512.New384Salt(p.salt) },
		func(p hashParams, m []byte) []byte { return ref.Blake64(384, p.salt, m) }, nil},
	{"blake2s", 64, fixed(32), func(hashParams) hash.Hash { return blake2s.New256() },
		func(_ hashParams, m []byte) []byte { return ref.Blake2s(ref.Blake2sParams{Size: 32}, m) },
		shots(func(_ hashParams, m []byte) []byte { return oc.Hash(m, 32, oc.HASH_ALG_BLAKE2S) },
			func(_ hashParams, m []byte) []byte { x := blake2s.Sum256(m); return x[:] })},
	{"blake2s-sized", 64, func(p hashParams) int { return p.size }, func(p hashParams) hash.Hash { return blake2s.NewMAC(uint8(p.size), nil) },
		func(p hashParams, m []byte) []byte { return ref.Blake2s(ref.Blake2sParams{Size: p.size}, m) }, oneShot(oc.HASH_ALG_BLAKE2S)},
	{"blake2s-default", 64, fixed(32), func(hashParams) hash.Hash {
		h, err := blake2s.New(nil)
		if err != nil {
			panic(err)
		}
		return h
	}, func(_ hashParams, m []byte) []byte { return ref.Blake2s(ref.Blake2sParams{Size: 32}, m) }, nil},
	{"blake2s-mac", 64, func(p hashParams) int { return p.size }, func(p hashParams) hash.Hash { return blake2s.NewMAC(uint8(p.size), p.key) },
		func(p hashParams, m []byte) []byte {
			return ref.Blake2s(ref.Blake2sParams{Size: p.size, Key: p.key}, m)
		}, nil},
	{"blake2s-config", 64, func(p hashParams) int { return b2sRef(p).Size }, func(p hashParams) hash.Hash {
		h, err := blake2s.New(b2sConfig(p))
		if err != nil {
			panic(err)
		}
		return h
	}, func(p hashParams, m []byte) []byte { return ref.Blake2s(b2sRef(p), m) }, nil},
	{"sm3", 64, fixed(32), func(hashParams) hash.Hash { return sm3.New() },
		func(_ hashParams, m []byte) []byte { return ref.SM3(m) },
		shots(oneShot(oc.HASH_ALG_SM3), func(_ hashParams, m []byte) []byte { return sm3.Sm3Sum(m) })},
	{"sha3-224", 144, fixed(28), func(hashParams) hash.Hash { return sha3.New224() }, xs(xsha3.New224),
		func(_ hashParams, m []byte) []byte { x := sha3.Sum224(m); return x[:] }},
	{"sha3-256", 136, fixed(32), func(hashParams) hash.Hash { return sha3.New256() }, xs(xsha3.New256),
		shots(oneShot(oc.HASH_ALG_SHA3_256), func(_ hashParams, m []byte) []byte { x := sha3.Sum256(m); return x[:] })},
	{"sha3-384", 104, fixed(48), func(hashParams) hash.Hash { return sha3.New384() }, xs(xsha3.New384),
		func(_ hashParams, m []byte) []byte { x := sha3.Sum384(m); return x[:] }},
	{"sha3-512", 72, fixed(64), func(hashParams) hash.Hash { return sha3.New512() }, xs(xsha3.New512),
		shots(oneShot(oc.HASH_ALG_SHA3_512), func(_ hashParams, m []byte) []byte { x := sha3.Sum512(m); return x[:] })},
	{"keccak256", 136, fixed(32), func(hashParams) hash.Hash { return sha3.NewKeccak256() }, xs(xsha3.NewLegacyKeccak256), oneShot(oc.HASH_ALG_KECCAK256)},
	{"keccak512", 72, fixed(64), func(hashParams) hash.Hash { return sha3.NewKeccak512() }, xs(xsha3.NewLegacyKeccak512), oneShot(oc.HASH_ALG_KECCAK512)},
	{"hmac-sm3", 64, fixed(32), func(p hashParams) hash.Hash { return hmac.New(sm3.New, p.key) },
		func(p hashParams, m []byte) []byte { return ref.HMAC(ref.SM3, 64, p.key, m) },
		func(p hashParams, m []byte) []byte { return oc.Hmac(p.key, m, oc.HMAC_SM3_ALG) }},
	{"hmac-blake256", 64, fixed(32), func(p hashParams) hash.Hash { return hmac.New(blake256.New, p.key) },
		func(p hashParams, m []byte) []byte { return ref.HMAC(refBlake256, 64, p.key, m) }, nil},
	{"hmac-blake512", 128, fixed(64), func(p hashParams) hash.Hash { return hmac.New(blake512.New, p.key) },
		func(p hashParams, m []byte) []byte { return ref.HMAC(refBlake512, 128, p.key, m) }, nil},
	{"hmac-sha3-256", 136, fixed(32), func(p hashParams) hash.Hash { return hmac.New(sha3.New256, p.key) },
		func(p hashParams, m []byte) []byte { return ref.HMAC(refSha3, 136, p.key, m) }, nil},
	{"hmac-sha256", 64, fixed(32), func(p hashParams) hash.Hash { return hmac.New(sha256.New, p.key) },
		func(p hashParams, m []byte) []byte {
			return ref.HMAC(func(x ...[]byte) []byte { s := sha256.Sum256(cat(x)); return s[:] }, 64, p.key, m)
		},
		func(p hashParams, m []byte) []byte { return oc.Hmac(p.key, m, oc.HMAC_SHA256_ALG) }},
	{"hmac-sha512", 128, fixed(64), func(p hashParams) hash.Hash { return hmac.New(sha512.New, p.key) },
		func(p hashParams, m []byte) []byte {
			return ref.HMAC(func(x ...[]byte) []byte { s := sha512.Sum512(cat(x)); return s[:] }, 128, p.key, m)
		},
		func(p hashParams, m []byte) []byte { return oc.Hmac(p.key, m, oc.HMAC_SHA512_ALG) }},
	// one-shot services over streams of the standard library
	std("md4", 64, 16, md4.New, nil, oc.HASH_ALG_MD4),
	std("md5", 64, 16, md5.New, nil, oc.HASH_ALG_MD5),
	std("sha1", 64, 20, sha1.New, nil, oc.HASH_ALG_SHA1),
	std("ripemd160", 64, 20, ripemd160.New, nil, oc.HASH_ALG_RIPEMD160),
	std("sha256", 64, 32, sha256.New, nil, oc.HASH_ALG_SHA256),
	std("sha512", 128, 64, sha512.New, nil, oc.HASH_ALG_SHA512),
	std("double-sha256", 64, 32, sha256.New, sha256.New, oc.HASH_ALG_DOUBLE_SHA256),
	std("hash160", 64, 20, sha256.New, ripemd160.New, oc.HASH_ALG_HASH160),
	// and over two streams
	over("keccak256-ripemd160", 136, 20, func() hash.Hash { return sha3.NewKeccak256() }, xsha3.NewLegacyKeccak256, ripemd160.New, oc.HASH_ALG_KECCAK256_RIPEMD160),
	over("sha3-256-ripemd160", 136, 20, func() hash.Hash { return sha3.New256() }, xsha3.New256, ripemd160.New, oc.HASH_ALG_SHA3_256_RIPEMD160),
	{"blake2b", 128, func(p hashParams) int { return p.size }, func(p hashParams) hash.Hash {
		h, err := blake2b.New(p.size, nil)
		if err != nil {
			panic(err)
		}
		return h
	}, func(p hashParams, m []byte) []byte {
		h, _ := blake2b.New(p.size, nil)
		h.Write(m)
		return h.Sum(nil)
	}, oneShot(oc.HASH_ALG_BLAKE2B)},
}

// shots is several one-shot services: their common answer, or one that differs.
func shots(fs ...func(hashParams, []byte) []byte) func(hashParams, []byte) []byte {
	return func(p hashParams, m []byte) []byte {
		a := fs[0](p, m)
		for _, f := range fs[1:] {
			if b := f(p, m); !bytes.Equal(a, b) {
				return append(append(a, " or "...), b...)
			}
		}
		return a
	}
}

// twice is the digest of a digest.
type twice struct {
	hash.Hash
	outer func() hash.Hash
}

func (t twice) Sum(b []byte) []byte {
	h := t.outer()
	h.Write(t.Hash.Sum(nil))
	return h.Sum(b)
}

func (t twice) Size() int { return t.outer().Size() }

func over(name string, block, size int, mk, trusted, outer func() hash.Hash, service uint32) alg {
	two := func(f func() hash.Hash) func() hash.Hash {
		if outer == nil {
			return f
		}
		return func() hash.Hash { return twice{f(), outer} }
	}
	return alg{name, block, fixed(size), func(hashParams) hash.Hash { return two(mk)() }, xs(two(trusted)), oneShot(service)}
}

func std(name string, block, size int, mk, outer func() hash.Hash, service uint32) alg {
	return over(name, block, size, mk, mk, outer, service)
}

func algIndex(name string) int {
	for i, a := range algs {
		if a.name == name {
			return i
		}
	}
	panic(name)
}

// ---------------------------------------------------------------- C03

type c03 struct{}

func init() { engine.Register(c03{}) }

func (c03) ID() string { return "C03" }

func (c03) Info() engine.Info {
	return engine.Info{Quick: 36000, Thorough: 400000, Chunk: 60, PlainQuick: 3, PlainThorough: 6, PlainFirst: true,
		Rule:  "one episode = 1..4 live streams of random algorithms/parameters, each driven by its own simulated thread through a history of write/feed-from-faulty-source/digest/reset/crash-and-refeed, scheduled at statement granularity; lengths are biased to block boundaries. Non-trivial: at least one digest was taken over a message written in two or more pieces, or after a reset or an earlier digest. Distinct by the hash of the event log.",
		Real:  []string{"blake256", "blake512", "blake2s", "sm3", "sha3 (assembly and portable permutation)", "hash and HMAC services", "crypto/hmac (std)"},
		Stubs: []string{"byte source feeding the stream (simulated reader with faults)", "thread scheduler"},
		Assumptions: []string{"golang.org/x/crypto/sha3 and the standard library are correct", "the reference models in /verif/sim/ref are independent (validated against published vectors)",
			"BLAKE-512's 2^64-bit counter carry is out of reach of any run"},
		MinProbes: map[string]int64{"fault:read-short": 20, "fault:read-error": 20, "fault:read-empty": 10, "fault:crash": 20, "digest-after-digest": 50, "digest-after-reset": 50, "misconfigured": 20},
	}
}

func streamParams(r *engine.Rand, ai int) (b []engine.Hex, i []int64) {
	a := algs[ai]
	var key, salt, person []byte
	size := a.size(hashParams{size: 32})
	tree := []int64(nil)
	switch a.name {
	case "blake256-salt", "blake224-salt":
		salt = r.Bytes(16)
	case "blake512-salt", "blake384-salt":
		salt = r.Bytes(32)
	case "blake2b":
		size = engine.PickInt(r, 20, 28, 32, 48, 64, 1+r.Intn(64))
	case "blake2s-sized":
		size = 1 + r.Intn(32)
	case "blake2s-mac":
		size = 1 + r.Intn(32)
		key = r.Bytes(r.Intn(33))
	case "blake2s-config":
		size = r.Intn(33)
		if r.Intn(2) == 0 {
			key = r.Bytes(r.Intn(33))
		}
		if r.Intn(2) == 0 {
			salt = r.Bytes(r.Intn(9))
		}
		if r.Intn(2) == 0 {
			person = r.Bytes(r.Intn(9))
		}
		if r.Intn(3) == 0 {
			tree = []int64{int64(r.Intn(256)), int64(r.Intn(256)), int64(uint32(r.U64())), int64(r.U64() & (1<<48 - 1)), int64(r.Intn(256)), int64(r.Intn(33)), int64(r.Intn(2))}
		}
	}
	if len(a.name) > 4 && a.name[:4] == "hmac" {
		n := engine.PickInt(r, 0, 1, 16, 31, 32, 33, a.block-1, a.block, a.block+1, 2*a.block, 200)
		key = r.Bytes(n)
	}
	return []engine.Hex{key, salt, person}, append([]int64{int64(ai), int64(size)}, tree...)
}

func (c03) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C03", seed, idx)
	p := &engine.Plan{Prop: "C03", Seed: seed, Idx: idx, Kind: "histories"}
	if idx >= engine.PlainBase {
		p.Kind = "long"
		p.P = map[string]int64{"which": int64(idx - engine.PlainBase)}
		// chunk sizes for feeding
		for k := 0; k < 6; k++ {
			p.Ops = append(p.Ops, engine.Op{N: "chunk", I: []int64{int64(engine.LogUniform(r, 1<<22))}, K: k})
		}
		return p
	}
	ns := 1 + r.Intn(4)
	k := 0
	totals := make([]int, ns)
	alg0 := r.Intn(len(algs))
	blocks := make([]int, ns)
	for s := 0; s < ns; s++ {
		ai := alg0
		if r.Intn(2) == 0 {
			ai = r.Intn(len(algs))
		}
		b, i := streamParams(r, ai)
		blocks[s] = algs[ai].block
		p.Ops = append(p.Ops, engine.Op{T: s, N: "new", B: b, I: i, K: k})
		k++
	}
	nops := 2 + r.Intn(14)
	size := func(s int) int {
		bl := blocks[s]
		if r.Intn(160) == 0 { // beyond 64 KiB more often than not
			return 3000 + r.Intn(200000)
		}
		switch r.Intn(6) {
		case 0:
			return r.Intn(4)
		case 1: // land near a block boundary
			d := engine.PickInt(r, -9, -8, -2, -1, 0, 1, 2, 7, 8, 9, bl-9, bl-8, bl-1)
			n := (totals[s]/bl+1+r.Intn(3))*bl + d - totals[s]
			if n < 0 {
				n = 0
			}
			return n
		case 2:
			return bl * (1 + r.Intn(4))
		case 3: // padding edge positions
			e := engine.PickInt(r, 55, 56, 63, 64, 111, 112, 119, 120, 127, 128, 135, 136, 143, 144, 71, 72, 103, 104, 167, 168)
			if e > totals[s]%bl {
				return e - totals[s]%bl
			}
			return e
		case 4:
			return engine.LogUniform(r, 300)
		}
		return engine.LogUniform(r, 3000)
	}
	for n := 0; n < nops; n++ {
		s := r.Intn(ns)
		op := engine.Op{T: s, K: k}
		switch x := r.Intn(20); {
		case x < 7:
			op.N = "write"
			op.B = []engine.Hex{r.Bytes(size(s))}
			totals[s] += len(op.B[0])
		case x < 10:
			op.N = "feed"
			op.B = []engine.Hex{r.Bytes(size(s) + r.Intn(200))}
			totals[s] += len(op.B[0])
			op.I = []int64{int64(1 + engine.LogUniform(r, 300))} // copy buffer
			for f := r.Intn(4); f > 0; f-- {
				p.Faults = append(p.Faults, engine.Fault{Kind: engine.Pick(r, "read-short", "read-error", "read-empty", "read-eof-with-data", "read-partial-error"), At: k, N: r.Intn(6), A: int64(r.Intn(300))})
			}
		case x < 15:
			op.N = "sum"
			op.B = []engine.Hex{r.Bytes(engine.PickInt(r, 0, 0, 1, 3, 32, 64))}
			op.I = []int64{int64(engine.PickInt(r, 0, 0, 1, 31, 32, 64, 100))}
		case x < 17:
			op.N = "reset"
			totals[s] = 0
		case x < 18:
			op.N = "crash"
			op.I = []int64{int64(1 + engine.LogUniform(r, 200))}
			p.Faults = append(p.Faults, engine.Fault{Kind: "crash", At: k})
		default:
			op.N = "oneshot"
			if r.Intn(4) == 0 {
				op.N = "misconfigured"
				how := int64(max(0, r.Intn(14)-4))
				op.I = []int64{how, int64(1 + r.Intn(32))}
				l := []int{r.Intn(33), r.Intn(9), r.Intn(9)}
				tree := []int64{1, 1, 0, int64(r.U64() & (1<<48 - 1)), 0, int64(r.Intn(33)), 0}
				bad := r.Intn(6)
				switch how {
				case 1:
					bad %= 2
				case 2, 3:
					bad, l[1] = 6, engine.PickInt(r, 0, 1, 15, 17, 32, 64)
				case 4, 5:
					bad, l[1] = 6, engine.PickInt(r, 0, 1, 16, 31, 33, 64)
				case 6:
					bad, op.I[1] = 6, int64(engine.PickInt(r, 33, 64, 65, 255, 256, 257, 288, 65535, 33+r.Intn(65000)))
				case 7:
					bad, op.I[1] = 6, int64(engine.PickInt(r, 0, 65, 128, 255, 256, 257, 288, 320, 65535, 65+r.Intn(65000)))
				case 8:
					bad, op.I[1] = 6, hashAlgs[0]+int64(engine.PickInt(r, -1, 0x13, 0x20, 0x100, 1<<16, 1<<28, -int(hashAlgs[0])))
				case 9:
					bad, op.I[1] = 6, int64(oc.HMAC_SHA256_ALG)+int64(engine.PickInt(r, -1, 3, 16, 256, 1<<16, -int(oc.HMAC_SHA256_ALG)))
				}
				switch bad {
				case 0:
					op.I[1] = int64(33 + r.Intn(223))
				case 1, 2, 3:
					l[bad-1] = engine.PickInt(r, 33, 34, 64, 255, 256, 257, 288)
				case 4:
					tree[3] = 1<<48 + int64(r.U64()>>17)
				case 5:
					tree[5] = int64(33 + r.Intn(223))
				}
				if how == 0 && (bad > 3 || r.Intn(2) == 0) {
					op.I = append(op.I, tree...)
				}
				op.B = []engine.Hex{r.Bytes(l[0]), r.Bytes(l[1]), r.Bytes(l[2])}
			}
		}
		p.Ops = append(p.Ops, op)
		k++
	}
	for s := 0; s < ns; s++ {
		p.Ops = append(p.Ops, engine.Op{T: s, N: "sum", B: []engine.Hex{nil}, I: []int64{0}, K: k})
		k++
	}
	p.Sched = engine.Sched{Seed: r.U64(), MeanRun: int64(engine.LogUniform(r, 5000)), GlobalPct: engine.PickInt(r, 0, 30)}
	return p
}

// faultyReader serves data with the planned faults.
type faultyReader struct {
	env    *engine.Env
	data   []byte
	n      int
	faults []engine.Fault
}

var errRead = errors.New("simulated: source read error")

func (f *faultyReader) Read(p []byte) (int, error) {
	n := f.n
	f.n++
	for _, x := range f.faults {
		if x.N != n {
			continue
		}
		switch x.Kind {
		case "read-empty":
			f.env.Count("fault:read-empty")
			return 0, nil
		case "read-error":
			f.env.Count("fault:read-error")
			return 0, errRead
		case "read-partial-error":
			if len(f.data) > 0 {
				f.env.Count("fault:read-partial-error")
				m := 1 + int(x.A)%len(f.data)
				m = copy(p, f.data[:m])
				f.data = f.data[m:]
				return m, errRead
			}
		case "read-short":
			if len(f.data) > 1 && len(p) > 1 {
				f.env.Count("fault:read-short")
				m := 1 + int(x.A)%(len(p)-1)
				m = copy(p[:m], f.data)
				f.data = f.data[m:]
				return m, nil
			}
		case "read-eof-with-data":
			m := copy(p, f.data)
			f.data = f.data[m:]
			if len(f.data) == 0 && m > 0 {
				f.env.Count("fault:read-eof-with-data")
				return m, io.EOF
			}
			return m, nil
		}
	}
	if len(f.data) == 0 {
		return 0, io.EOF
	}
	m := copy(p, f.data)
	f.data = f.data[m:]
	return m, nil
}

type onlyWriter struct{ io.Writer }

type streamState struct {
	a       alg
	p       hashParams
	h       hash.Hash
	content []byte
	pieces  int
	sums    int
	resets  int
	dead    bool
	kept    [][2][]byte // returned slice, copy at return time
}

func (c c03) Exec(e *engine.Env) {
	if e.Plan.Kind == "long" {
		c.long(e)
		return
	}
	var tasks [][]engine.Op
	for _, o := range e.Plan.Ops {
		for len(tasks) <= o.T {
			tasks = append(tasks, nil)
		}
		tasks[o.T] = append(tasks[o.T], o)
	}
	nontriv := false
	var fns []func()
	for ti := range tasks {
		ops := tasks[ti]
		fns = append(fns, func() {
			st := &streamState{}
			for _, o := range ops {
				execStreamOp(e, st, o, &nontriv)
			}
			for _, k := range st.kept {
				if !bytes.Equal(k[0], k[1]) {
					e.Fail("digest-changed-later", "%s: a digest returned earlier changed from %x to %x", st.a.name, k[1], k[0])
				}
			}
		})
	}
	if len(fns) == 0 {
		return
	}
	s := e.RunSim(nil, 500e6, fns...)
	for t, m := range s.Panics {
		e.Fail("stream-panic", "stream thread %d: %s", t, engine.PanicSig(m))
	}
	e.Out.Trivial = !nontriv
}

func execStreamOp(e *engine.Env, st *streamState, o engine.Op, nontriv *bool) {
	if o.N == "new" {
		st.a = algs[o.I[0]]
		st.p = hashParams{key: o.B[0], salt: o.B[1], person: o.B[2], size: int(o.I[1])}
		if len(o.I) == 9 {
			st.p.tree = o.I[2:]
		}
		st.h = st.a.mk(st.p)
		e.Log("new %d %s", o.T, st.a.name)
		e.Count("streams:" + st.a.name)
		if st.h.Size() != st.a.size(st.p) || st.h.BlockSize() != st.a.block {
			e.Fail("stream-size", "%s: Size=%d BlockSize=%d want %d/%d", st.a.name, st.h.Size(), st.h.BlockSize(), st.a.size(st.p), st.a.block)
		}
		return
	}
	if st.h == nil {
		return
	}
	switch o.N {
	case "write":
		in := append([]byte{}, o.B[0]...)
		n, err := st.h.Write(in)
		if n != len(o.B[0]) || err != nil {
			e.Fail("write-count", "%s: Write(%d bytes) = %d, %v", st.a.name, len(o.B[0]), n, err)
		}
		if !bytes.Equal(in, o.B[0]) {
			e.Fail("write-modified-input", "%s: Write changed its argument", st.a.name)
		}
		for i := range in { // the caller recycles its buffer
			in[i] ^= 0xA5
		}
		st.content = append(st.content, o.B[0]...)
		st.pieces++
		e.Log("write %d %d", o.T, len(o.B[0]))
	case "feed":
		fr := &faultyReader{env: e, data: append([]byte{}, o.B[0]...), faults: e.FaultsAt(o.K)}
		buf := make([]byte, o.I[0])
		for tries := 0; tries < 50; tries++ {
			before := len(fr.data)
			n, err := io.CopyBuffer(onlyWriter{st.h}, fr, buf)
			if int(n) != before-len(fr.data) && err == nil {
				e.Fail("copy-count", "%s: copied %d of %d", st.a.name, n, before-len(fr.data))
			}
			if err == nil {
				break
			}
			if err != errRead {
				e.Fail("copy-error", "%s: copy failed: %v", st.a.name, err)
				break
			}
		}
		st.content = append(st.content, o.B[0]...)
		st.pieces += 2
		e.Log("feed %d %d reads=%d", o.T, len(o.B[0]), fr.n)
	case "sum":
		buf := make([]byte, len(o.B[0])+int(o.I[0]))
		copy(buf, o.B[0])
		for i := len(o.B[0]); i < len(buf); i++ {
			buf[i] = 0xCC
		}
		var in []byte
		if len(buf) > 0 {
			in = buf[:len(o.B[0])]
		}
		got := st.h.Sum(in)
		want := append(append([]byte{}, o.B[0]...), st.a.ref(st.p, st.content)...)
		if !bytes.Equal(got, want) {
			cl := "wrong-digest"
			if st.sums > 0 {
				cl = "wrong-digest-after-digest"
			} else if st.resets > 0 {
				cl = "wrong-digest-after-reset"
			}
			e.Fail(cl, "%s: Sum(prefix %d, spare %d) after %d bytes in %d pieces (%d digests, %d resets before) = %x want %x", st.a.name, len(o.B[0]), o.I[0], len(st.content), st.pieces, st.sums, st.resets, got, want)
		}
		if st.sums > 0 {
			e.Count("digest-after-digest")
		}
		if st.resets > 0 {
			e.Count("digest-after-reset")
		}
		if st.pieces >= 2 || st.sums > 0 || st.resets > 0 {
			*nontriv = true
		}
		st.sums++
		st.kept = append(st.kept, [2][]byte{got, append([]byte{}, got...)})
		e.Log("sum %d %x", o.T, got)
		e.Count("digests")
	case "reset":
		st.h.Reset()
		st.content = nil
		st.resets++
		st.pieces = 0
		e.Log("reset %d", o.T)
	case "crash":
		if len(e.FaultsAt(o.K)) == 0 {
			return
		}
		// the process hosting the stream dies; a new object is fed the journal
		e.Count("fault:crash")
		st.h = st.a.mk(st.p)
		step := int(o.I[0])
		for i := 0; i < len(st.content); i += step {
			j := i + step
			if j > len(st.content) {
				j = len(st.content)
			}
			st.h.Write(st.content[i:j])
		}
		st.sums, st.resets = 0, 0
		e.Log("crash %d", o.T)
	case "misconfigured": // somebody asks for a stream that does not exist
		p := hashParams{key: o.B[0], salt: o.B[1], person: o.B[2], size: int(o.I[1]), tree: o.I[2:]}
		var h hash.Hash
		var err error
		func() {
			defer func() { // the constructors without an error result panic
				if x := recover(); x != nil {
					err = fmt.Errorf("%v", x)
				}
			}()
			switch o.I[0] {
			case 0:
				h, err = blake2s.New(b2sConfig(p))
			case 1:
				h = blake2s.NewMAC(uint8(p.size), p.key)
			case 2:
				h = blake256.NewSalt(p.salt)
			case 3:
				h = blake256.New224Salt(p.salt)
			case 4:
				h = blake512.NewSalt(p.salt)
			case 5:
				h = blake512.New384Salt(p.salt)
			case 6, 7, 8, 9: // services; I[1] is the length or the algorithm
				var out []byte
				switch o.I[0] {
				case 6:
					out = oc.Hash(o.B[0], uint16(o.I[1]), oc.HASH_ALG_BLAKE2S)
				case 7:
					out = oc.Hash(o.B[0], uint16(o.I[1]), oc.HASH_ALG_BLAKE2B)
				case 8:
					out = oc.Hash(o.B[0], 32, uint32(o.I[1]))
				case 9:
					out = oc.Hmac(o.B[0], o.B[1], uint32(o.I[1]))
				}
				if err = errRead; out != nil {
					err = nil
				}
			}
		}()
		e.Log("misconfigured %d %d %v", o.T, o.I[0], err != nil)
		if err == nil || h != nil {
			e.Fail("misconfigured", "constructor %d gave a stream for size %d, key %d, salt %d, person %d, tree %v", o.I[0], p.size, len(p.key), len(p.salt), len(p.person), p.tree)
		}
		e.Count("misconfigured")
	case "oneshot":
		if st.a.shot == nil {
			return
		}
		got := st.a.shot(st.p, st.content)
		want := st.a.ref(st.p, st.content)
		if !bytes.Equal(got, want) {
			e.Fail("oneshot-disagrees", "%s: one-shot of %d bytes = %x want %x", st.a.name, len(st.content), got, want)
		}
		e.Log("oneshot %d %x", o.T, got)
		e.Count("oneshots")
	}
}

// ---- very long streams (uninstrumented build) ----

type longCase struct {
	alg  string
	base uint64
	offs []int64
}

var longCases = []longCase{
	{"blake256", 1 << 29, longOffs}, {"sm3", 1 << 29, longOffs}, {"blake2s", 1 << 32, longOffs},
	{"blake224", 1 << 29, longOffs}, {"blake2s-mac", 1 << 32, longOffs}, {"blake512", 1 << 29, longOffs},
}

var longOffs = []int64{-120, -65, -64, -56, -9, -1, 0, 1, 55, 56, 63, 64, 65, 129}

// longPattern is the byte at offset i of the long message.
func longBlock() []byte {
	b := make([]byte, 1<<20)
	var r simrt.Rand
	r.Seed(0x10ad)
	copy(b, r.Bytes(1<<20))
	return b
}

func (c03) long(e *engine.Env) {
	lc := longCases[int(e.Plan.P["which"])%len(longCases)]
	a := algs[algIndex(lc.alg)]
	p := hashParams{size: 32, key: []byte("a key of the long-lived mac")}
	blk := longBlock()
	var chunks []int
	for _, o := range e.Plan.Ops {
		chunks = append(chunks, int(o.I[0]))
	}
	if len(chunks) == 0 {
		chunks = []int{1 << 20}
	}
	fn := func() {
		h := a.mk(p)
		var pos uint64
		// rotate so that wrapped reads stay simple: two copies of the pattern
		big := append(append([]byte{}, blk...), blk...)
		feed := func(to uint64, sizes []int) {
			for i := 0; pos < to; i++ {
				n := uint64(sizes[i%len(sizes)])
				if n > 1<<20 {
					n = 1 << 20
				}
				if n > to-pos {
					n = to - pos
				}
				o := pos & (1<<20 - 1)
				h.Write(big[o : o+n])
				pos += n
			}
		}
		start := lc.base - 1<<18
		feed(start, []int{1 << 20, 1<<20 - 1, 1 << 19, 1<<20 - 63})
		for _, off := range lc.offs {
			at := uint64(int64(lc.base) + off)
			feed(at, chunks)
			got := h.Sum(nil)
			want := longExpected[fmt.Sprintf("%s/%d", lc.alg, at)]
			if want == "" {
				panic("no expected digest for " + lc.alg)
			}
			if fmt.Sprintf("%x", got) != want {
				e.Fail("wrong-digest-long", "%s: digest after %d bytes = %x want %s", lc.alg, at, got, want)
			}
			e.Log("long %s %d %x", lc.alg, at, got)
			e.Count("long-digests")
		}
		e.Add("long-bytes", int64(pos))
	}
	s := e.Solo(0, fn)
	for _, m := range s.Panics {
		e.Fail("stream-panic", "%s", engine.PanicSig(m))
	}
}

// LongTable computes the expected digests with the reference models.
func LongTable() map[string]string {
	out := map[string]string{}
	blk := longBlock()
	type result struct {
		k, v string
	}
	ch := make(chan []result)
	for _, lc := range longCases {
		lc := lc
		go func() {
			var rs []result
			p := hashParams{size: 32, key: []byte("a key of the long-lived mac")}
			var w io.Writer
			var sum func() []byte
			switch lc.alg {
			case "blake256", "blake224":
				d := ref.NewBlake32(map[string]int{"blake256": 256, "blake224": 224}[lc.alg], nil)
				w = wf(d.Write)
				sum = func() []byte { c := *d; c.Write(nil); return c.Sum() }
			case "sm3":
				d := ref.NewSM3()
				w = wf(d.Write)
				sum = func() []byte { c := *d; return c.Sum() }
			case "blake2s", "blake2s-mac":
				pp := ref.Blake2sParams{Size: 32}
				if lc.alg == "blake2s-mac" {
					pp.Key = p.key
				}
				d := ref.NewBlake2s(pp)
				w = wf(d.Write)
				sum = func() []byte { c := *d; return c.Sum() }
			default:
				d := ref.NewBlake64Stream(512)
				w = wf(d.Write)
				sum = func() []byte { c := *d; return c.Sum() }
			}
			var pos uint64
			for _, off := range lc.offs {
				at := uint64(int64(lc.base) + off)
				for pos < at {
					o := pos & (1<<20 - 1)
					n := uint64(1<<20) - o
					if n > at-pos {
						n = at - pos
					}
					w.Write(blk[o : o+n])
					pos += n
				}
				rs = append(rs, result{fmt.Sprintf("%s/%d", lc.alg, at), fmt.Sprintf("%x", sum())})
			}
			ch <- rs
		}()
	}
	for range longCases {
		for _, r := range <-ch {
			out[r.k] = r.v
		}
	}
	return out
}

type wf func([]byte)

func (f wf) Write(p []byte) (int, error) { f(p); return len(p), nil }
