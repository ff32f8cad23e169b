package ref

import (
	"encoding/hex"
	"testing"

	"github.com/blocktree/go-owcrypt/blake256"
	"github.com/blocktree/go-owcrypt/blake512"
	"golang.org/x/crypto/blake2s"
)

func TestKAT(t *testing.T) {
	c := func(n string, got []byte, want string) {
		if hex.EncodeToString(got) != want {
			t.Errorf("%s: %x want %s", n, got, want)
		}
	}
	c("blake256(0)", Blake32(256, nil, []byte{0}), "0ce8d4ef4dd7cd8d62dfded9d4edb0a774ae6a41929a74da23109e8f11139c87")
	z := make([]byte, 72)
	c("blake256(72)", Blake32(256, nil, z), "d419bad32d504fb7d44d460c42c5593fe544fa4c135dec31e21bd9abdcc22d41")
	c("blake512(0)", Blake64(512, nil, []byte{0}), "97961587f6d970faba6d2478045de6d1fabd09b61ae50932054d52bc29d31be4ff9102b9f69e2bbdb83be13d4b9c06091e5fa0b48bd081b634058be0ec49beb3")
	c("blake224(0)", Blake32(224, nil, []byte{0}), "4504cb0314fb2a4f7a692e696e487912fe3f2468fe312c73a5278ec5")
	c("blake384(0)", Blake64(384, nil, []byte{0}), "10281f67e135e90ae8e882251a355510a719367ad70227b137343e1bc122015c29391e8545b5272d13a7c2879da3d807")
	c("sm3", SM3([]byte("abc")), "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0")
	for n := 0; n < 300; n++ {
		m := make([]byte, n)
		for i := range m {
			m[i] = byte(i * 7)
		}
		w := blake2s.Sum256(m)
		c("b2s", Blake2s(Blake2sParams{Size: 32}, m), hex.EncodeToString(w[:]))
		k := m[:n%33]
		if n > 32 {
			k = m[:n%33]
		}
		h, _ := blake2s.New256(k)
		h.Write(m)
		c("b2sk", Blake2s(Blake2sParams{Size: 32, Key: k}, m), hex.EncodeToString(h.Sum(nil)))
		b := blake256.New()
		b.Write(m)
		c("b256", Blake32(256, nil, m), hex.EncodeToString(b.Sum(nil)))
		b = blake512.New()
		b.Write(m)
		c("b512", Blake64(512, nil, m), hex.EncodeToString(b.Sum(nil)))
	}
}

func TestG2Gen(t *testing.T) {
	if g := G2Gen(); !g.OnCurve() || g.Mul(BlsR) != nil {
		t.Fatal("G2 generator")
	}
}
