package props

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/engine"
	"verifsim/simrt"
)

// catch runs fn and reports a panic of the code under test as a violation.
func catch(e *engine.Env, pfx string, o engine.Op, fn func()) {
	defer func() {
		if v := recover(); v != nil {
			if a, ok := v.(simrt.Abort); ok {
				panic(a)
			}
			e.Fail(pfx+"-panic", "%s %v panicked: %s", o.N, o.I, engine.PanicSig(fmt.Sprint(v)))
		}
	}()
	fn()
}

// settle turns what the simulated threads died of into violations.
func settle(e *engine.Env, pfx string, s *simrt.Sim) bool {
	ok := true
	for _, t := range sortedTasks(s.Panics) {
		m := s.Panics[t]
		ok = false
		if strings.HasPrefix(m, "abort:") {
			e.Fail(pfx+"-hang", "thread %d made no progress (%s)", t, m)
		} else {
			e.Fail(pfx+"-panic", "thread %d panicked: %s", t, engine.PanicSig(m))
		}
	}
	if s.Deadlock && ok {
		e.Fail(pfx+"-hang", "all threads blocked")
		ok = false
	}
	return ok
}

func sortedTasks(m map[int]string) []int {
	var k []int
	for t := range m {
		k = append(k, t)
	}
	sort.Ints(k)
	return k
}

// longLife reports, for one plain episode in many, how many uses of the same few
// keys it makes, so that code which treats a much used key differently is reached.
func longLife(r *engine.Rand, idx, oneIn int) int {
	if idx < engine.PlainBase || r.Intn(oneIn) > 0 {
		return 0
	}
	return 20 + engine.LogUniform(r, 100)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
