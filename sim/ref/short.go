package ref

import (
	"math/big"
	"strconv"
	"strings"
	"sync"
)

var (
	shortOnce sync.Once
	shortTab  map[string][][]*big.Int
)

// Short are scalars whose multiples of the base point have coordinates with
// zero bytes at an end, grouped by which coordinate, end and how many.
func Short(name string) [][]*big.Int {
	shortOnce.Do(func() {
		shortTab = map[string][][]*big.Int{}
		for _, l := range strings.Split(shortPoints, "\n") {
			f := strings.Fields(l)
			first := hx(f[1])
			at := map[string]int{}
			var g [][]*big.Int
			for _, e := range f[2:] {
				p := strings.SplitN(e, ":", 2)
				n, err := strconv.ParseInt(p[1], 10, 64)
				if err != nil {
					panic(err)
				}
				i, ok := at[p[0]]
				if !ok {
					i = len(g)
					at[p[0]] = i
					g = append(g, nil)
				}
				g[i] = append(g[i], new(big.Int).Add(first, big.NewInt(n)))
			}
			shortTab[f[0]] = g
		}
	})
	return shortTab[name]
}
