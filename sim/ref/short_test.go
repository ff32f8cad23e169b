package ref

import "testing"

func TestShort(t *testing.T) {
	n := 0
	for _, c := range []*Curve{K1, R1, SM2, Pallas} {
		for _, g := range Short(c.Name) {
			for _, k := range g {
				n++
				b := c.Base(k).Bytes()
				ok := b[0]|b[1] == 0 || b[32]|b[33] == 0 || b[30]|b[31] == 0 || b[62]|b[63] == 0 || b[0]|b[32] == 0
				if !ok {
					t.Fatalf("%s %x: %x", c.Name, k, b)
				}
			}
		}
	}
	for _, g := range Short("25519") {
		for _, k := range g {
			n++
			x, y := XPub(k), EdPub(k)
			y[31] &= 127
			ok := x[0]|x[1] == 0 || y[0]|y[1] == 0 || x[30]|x[31] == 0 || y[30]|y[31] == 0 || x[31]|y[31] == 0
			if !ok {
				t.Fatalf("25519 %x: %x %x", k, x, y)
			}
		}
	}
	t.Log(n)
}
