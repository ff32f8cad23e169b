package props

import (
	"bytes"
	"fmt"
	"time"
	"unsafe"

	"verifsim/engine"
	"verifsim/simrt"
	"verifsim/simrt/mem"
)

// C02: callers keep their buffers in read-only pages, inside larger buffers, or
// in memory they recycle for the next call; they overwrite or take away
// arguments after each call and overwrite results.  No call may touch an
// argument, and nothing a caller does with its memory may change another call's
// result.
//
// Each operation is a call of one thread.  Faults at it: "place" (N = operand,
// A = how), "after-arg" (N, A = overwritten or taken away, B = pattern),
// "after-result" (B = pattern), and those of C10.

type memoryProp struct{}

func init() { engine.Register(memoryProp{}) }

func (memoryProp) ID() string { return "C02" }

const (
	plEnd   = iota // read-only page, ends at the end of the page
	plMid          // read-only page with read-only spare capacity
	plHeap         // writable, exact capacity
	plSpare        // writable, spare capacity
	plReuse        // the memory of an earlier operand
	nPlace
)

func (memoryProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C02", seed, idx)
	p := &engine.Plan{Prop: "C02", Seed: seed, Idx: idx, Kind: "memory"}
	th := themes[r.Intn(len(themes))]
	var seen []engine.Op
	k := 0
	add := func(t int) {
		var o engine.Op
		if th.slow == 0 && r.Intn(2) == 0 {
			o = genCall(r, "Stream")
		} else {
			o = genRelated(r, th, seen)
		}
		k++
		o.K, o.T = k, t
		if o.N == "Stream" {
			o.N = "keptstream"
			o.I[2] = int64(r.Intn(len(o.B[3]) + 1))
			o.I = append(o.I, int64(r.Intn(2)))
		}
		if o.N != "keptstream" {
			seen = append(seen, o)
		}
		p.Ops = append(p.Ops, o)
		switch r.Intn(16) {
		case 0:
			p.Faults = append(p.Faults, genRng(r, k)...)
		case 1, 2:
			if len(o.B) > 0 && o.N != "keptstream" {
				p.Faults = append(p.Faults, genWire(r, k, r.Intn(len(o.B)), max(0, min(at0(o.I), nCurves-1))))
			}
		case 3:
			if len(o.B) > 0 && o.N != "keptstream" {
				p.Faults = append(p.Faults, engine.Fault{Kind: "point", At: k, N: r.Intn(len(o.B)), A: int64(r.Intn(nBadPoint)), B: int64(r.Intn(1000))})
			}
		}
		for i := range o.B {
			if x := r.Intn(8); x > 2 {
				p.Faults = append(p.Faults, engine.Fault{Kind: "place", At: k, N: i, A: int64(engine.PickInt(r, plMid, plMid, plMid, plHeap, plSpare, plSpare, plReuse, plReuse))})
			}
			if r.Intn(3) > 0 {
				p.Faults = append(p.Faults, engine.Fault{Kind: "after-arg", At: k, N: i, A: int64(r.Intn(2)), B: int64(r.Intn(256))})
			}
		}
		if r.Intn(2) == 0 {
			p.Faults = append(p.Faults, engine.Fault{Kind: "after-result", At: k, B: int64(r.Intn(256))})
		}
	}
	if idx >= engine.PlainBase {
		for n := 2 + r.Intn(12); n > 0; n-- {
			add(1)
		}
		return p
	}
	for t := 1; t <= 2; t++ {
		m := 1 + r.Intn(2)
		if th.slow == 0 {
			m = 1 + r.Intn(4)
		}
		for ; m > 0; m-- {
			add(t)
		}
	}
	p.Sched = engine.Sched{Seed: r.U64(), MeanRun: int64(engine.PickInt(r, 3000, 30000, 300000, 3000000)), GlobalPct: engine.PickInt(r, 0, 2, 10, 40)}
	if th.slow == 0 {
		p.Sched.MeanRun = int64(engine.PickInt(r, 10, 200, 2000))
	}
	return p
}

func (memoryProp) Solo(e *engine.Env) string { return historyProp{}.Solo(e) }

// kept is a result a caller still holds.
type kept struct {
	op        engine.Op
	now, want []byte
}

func (memoryProp) Exec(e *engine.Env) {
	dev := map[int]*engine.Entropy{}
	engine.UseEntropy(func(t int) *engine.Entropy {
		if d := dev[t]; d != nil {
			return d
		}
		return e.NewEntropy("none", nil)
	})
	results := map[int]string{}
	var holding []kept
	var blocks []*mem.Block
	var spare []*mem.Block
	intact := func() {
		for i, h := range holding {
			if !bytes.Equal(h.now, h.want) {
				e.Fail("memory-result-changed", "a buffer returned by %s %v changed after the call from %s to %s", h.op.N, h.op.I, engine.Short(h.want), engine.Short(h.now))
				holding[i].want = dup(h.now)
			}
		}
	}
	place := func(o engine.Op, i int, b []byte) *mem.Block {
		how := plEnd
		for _, f := range e.FaultsAt(o.K) {
			if f.Kind == "place" && f.N == i {
				how = int(f.A)
			}
		}
		var bl *mem.Block
		switch how {
		case plMid:
			bl = mem.ReadOnly(b, false)
			e.Count("placed:read-only-spare")
		case plHeap:
			bl = mem.Heap(b, 0)
			e.Count("placed:exact")
		case plSpare:
			bl = mem.Heap(b, 40+len(b))
			e.Count("placed:spare")
		case plReuse:
			for j := len(spare) - 1; j >= 0 && bl == nil; j-- {
				if bl = spare[j].Reuse(b); bl != nil {
					spare = append(spare[:j:j], spare[j+1:]...)
					e.Count("placed:recycled")
				}
			}
			if bl == nil {
				bl = mem.Heap(b, 100)
			}
		default:
			bl = mem.ReadOnly(b, true)
			e.Count("placed:read-only-end")
		}
		blocks = append(blocks, bl)
		return bl
	}
	check := func(o engine.Op, bl []*mem.Block) bool {
		for i, b := range bl {
			if b == nil {
				continue
			}
			if off, ch := b.Changed(); ch {
				e.Fail("memory-argument-written", "%s %v changed a byte of the caller's memory at offset %d of argument %d (%d bytes)", o.N, o.I, off, i, len(b.B))
				return false
			}
		}
		return true
	}
	release := func(o engine.Op, i int, b *mem.Block) {
		for _, f := range e.FaultsAt(o.K) {
			if f.Kind == "after-arg" && f.N == i && b != nil {
				if f.A == 0 {
					b.Scribble(byte(f.B))
					e.Count("fault:argument-overwritten")
				} else {
					b.Revoke()
					e.Count("fault:argument-taken-away")
				}
				spare = append(spare, b)
			}
		}
	}
	// fault reports a write to, or a late read of, caller memory.
	fault := func(o engine.Op, v interface{}, during []*mem.Block) bool {
		a, ok := v.(interface{ Addr() uintptr })
		if !ok {
			return false
		}
		for i, b := range during {
			if b != nil && b.Contains(a.Addr()) {
				e.Fail("memory-argument-written", "%s %v writes to read-only argument %d (%d bytes)", o.N, o.I, i, len(b.B))
				return true
			}
		}
		for _, b := range blocks {
			if b.Contains(a.Addr()) {
				e.Fail("memory-argument-kept", "%s %v accesses an argument of an earlier call that has returned", o.N, o.I)
				return true
			}
		}
		return false
	}
	one := func(o engine.Op, I []int64, args []*mem.Block, B [][]byte) (res Res, out string, done bool) {
		defer func() {
			if v := recover(); v != nil {
				if fault(o, v, args) {
					return
				}
				if a, isA := v.(simrt.Abort); isA {
					if a.Why == "deadlock" || len(a.Why) > 4 && a.Why[:4] == "step" {
						panic(a)
					}
					out, done = "no progress: "+a.Why, true
					return
				}
				out, done = "panic: "+engine.PanicSig(fmt.Sprint(v)), true
			}
		}()
		res = do(o.N, I, B)
		return res, res.String(), true
	}
	run := func(o engine.Op) {
		t := simrt.CurTask()
		dev[t] = e.NewEntropy(fmt.Sprint("c", o.K), e.FaultsAt(o.K))
		if o.N == "keptstream" {
			runKept(e, o, place, check, release, fault)
			intact()
			return
		}
		I, raw := operands(e, o)
		whole := make([][]byte, len(raw)+3) // the list is the head of a longer one
		B := whole[:len(raw)]
		for i := range whole {
			whole[i] = []byte{}
		}
		args := make([]*mem.Block, len(raw))
		for i, b := range raw {
			if B[i] = nil; b == nil {
				continue
			}
			args[i] = place(o, i, b)
			B[i] = args[i].B
		}
		list := append(make([][]byte, 0, len(B)), whole...)
		res, out, done := one(o, I, args, B)
		for i := range list { // the list of arguments is the caller's, too
			if len(whole[i]) != len(list[i]) || cap(whole[i]) != cap(list[i]) || unsafe.SliceData(whole[i]) != unsafe.SliceData(list[i]) {
				e.Fail("memory-argument-written", "%s %v changed entry %d of the caller's list of arguments", o.N, o.I, i)
				return
			}
		}
		if !done {
			return
		}
		results[o.K] = out
		e.Count("calls")
		if res.OK {
			e.Count("succeeded")
		}
		check(o, args)
		intact()
		for i := range args {
			release(o, i, args[i])
		}
		if res.String() != out && done && res.Ret != "" {
			e.Fail("memory-result-shares-argument", "%s %v: its result changed when the caller overwrote the arguments", o.N, o.I)
		}
		scr := -1
		for _, f := range e.FaultsAt(o.K) {
			if f.Kind == "after-result" {
				scr = int(f.B)
			}
		}
		for _, b := range res.Outs {
			if len(b) == 0 {
				continue
			}
			if scr >= 0 {
				for i := range b {
					b[i] = byte(scr + i)
				}
				e.Count("fault:result-overwritten")
			}
			holding = append(holding, kept{o, b, dup(b)})
		}
		intact()
		for i, b := range args { // those not released
			if b != nil {
				if off, ch := b.Changed(); ch {
					e.Fail("memory-result-shares-argument", "%s %v: overwriting its result changed argument %d at offset %d", o.N, o.I, i, off)
				}
			}
		}
	}
	threads := map[int][]engine.Op{}
	var order []int
	for _, o := range e.Plan.Ops {
		if serviceByName[o.N] == nil && o.N != "keptstream" {
			continue
		}
		if _, ok := threads[o.T]; !ok {
			order = append(order, o.T)
		}
		threads[o.T] = append(threads[o.T], o)
	}
	var fns []func()
	for _, t := range order {
		ops := threads[t]
		fns = append(fns, func() {
			for _, o := range ops {
				run(o)
			}
		})
	}
	if len(fns) == 0 {
		e.Out.Trivial = true
		return
	}
	var s *simrt.Sim
	if len(fns) == 1 {
		s = e.Solo(20_000_000_000, fns[0])
	} else {
		s = e.RunSim(nil, 20_000_000_000, fns...)
	}
	settle(e, "memory", s)
	compared := 0
	for _, o := range e.Plan.Ops {
		got, ok := results[o.K]
		if !ok {
			continue
		}
		e.Log("%d %s %v %s", o.T, o.N, o.I, got)
		q := &engine.Plan{Prop: "C02", Seed: e.Plan.Seed, Idx: e.Plan.Idx, Kind: "solo", Ops: []engine.Op{o}, Faults: e.FaultsAt(o.K)}
		want, err := engine.FreshSolo(q, 60*time.Second)
		if err != nil {
			e.Count("oracle_unavailable")
			continue
		}
		compared++
		if got != want {
			e.Fail("memory-changed-result", "%s %v (thread %d) returned %s; with memory of its own it returns %s", o.N, o.I, o.T, clip(got), clip(want))
		}
	}
	for _, b := range blocks {
		b.Free()
	}
	e.Add("compared", int64(compared))
	e.Out.Trivial = e.Out.Stats["calls"]+e.Out.Stats["streams"] == 0
}

// runKept drives a stream whose parameters and pieces are recycled as soon as
// each call returns.
func runKept(e *engine.Env, o engine.Op, place func(engine.Op, int, []byte) *mem.Block, check func(engine.Op, []*mem.Block) bool,
	release func(engine.Op, int, *mem.Block), fault func(engine.Op, interface{}, []*mem.Block) bool) {
	if len(o.B) < 4 || len(o.I) < 4 {
		return
	}
	a := algs[int(o.I[0])%len(algs)]
	own := hashParams{key: dup(o.B[0]), salt: dup(o.B[1]), person: dup(o.B[2]), size: int(o.I[1])}
	m := dup(o.B[3])
	cut := int(o.I[2])
	if cut > len(m) {
		cut = len(m)
	}
	var during []*mem.Block
	defer func() {
		if v := recover(); v != nil {
			if fault(o, v, during) {
				return
			}
			panic(v)
		}
	}()
	var par [3]*mem.Block
	p := own
	for i, b := range [][]byte{own.key, own.salt, own.person} {
		if b != nil {
			par[i] = place(o, i, b)
			during = append(during, par[i])
			switch i {
			case 0:
				p.key = par[i].B
			case 1:
				p.salt = par[i].B
			case 2:
				p.person = par[i].B
			}
		}
	}
	h := a.mk(p)
	check(o, during)
	for i := range par {
		release(o, i, par[i])
	}
	write := func(b []byte) {
		x := place(o, 3, b)
		during = []*mem.Block{x}
		h.Write(x.B)
		check(o, during)
		release(o, 3, x)
		during = nil
	}
	sum := func(what string, want []byte) {
		got := h.Sum(nil)
		if !bytes.Equal(got, want) {
			e.Fail("memory-changed-digest", "%s: %s digest is %x, not %x, after the caller recycled its buffers", a.name, what, got, want)
		}
		e.Log("%s %s %x", a.name, what, got)
		for i := range got {
			got[i] ^= 0x5a
		}
	}
	full := a.ref(own, m)
	write(m[:cut])
	sum("first", a.ref(own, m[:cut]))
	write(m[cut:])
	sum("full", full)
	if o.I[3] == 1 {
		h.Reset()
		write(m)
		sum("after reset", full)
	}
	e.Count("streams")
}

func (memoryProp) Info() engine.Info {
	return engine.Info{Quick: 2000, Thorough: 50000, Chunk: 1, PlainQuick: 4000, PlainThorough: 150000, PlainChunk: 1, QuickSecs: 75, ThoroughSecs: 700, Timeout: 120,
		Rule:        "an episode counts when at least one call ran with its operands in simulated memory; distinct = distinct event logs",
		Real:        []string{"all services of the root package, the exported entry points of eddsa, pasta and bls12_381, the hash packages"},
		Stubs:       []string{"the caller's memory (protected pages, guard bytes, recycling)", "thread scheduler", "entropy device"},
		Assumptions: []string{"a write through a pointer derived from an argument faults in a read-only page: any write, even of the same value, is seen", "the solo run uses the uninstrumented build"},
		MinProbes: map[string]int64{"calls": 5000, "succeeded": 2000, "streams": 200, "compared": 5000, "placed:read-only-end": 2000, "placed:read-only-spare": 1000, "placed:spare": 500, "placed:recycled": 300,
			"fault:argument-overwritten": 1000, "fault:argument-taken-away": 1000, "fault:result-overwritten": 1000},
	}
}
