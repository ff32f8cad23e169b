package props

import (
	"bytes"

	"github.com/blocktree/go-owcrypt/sha3"
	xsha3 "golang.org/x/crypto/sha3"

	"verifsim/engine"
)

// C12: an extendable-output stream is one fixed stream, however it is read.

type xofProp struct{}

func init() { engine.Register(xofProp{}) }

func (xofProp) ID() string { return "C12" }

// An operation works on handle I[0]; K numbers it.
//
//	new     I=[h, which]          a new hash (which: 128 or 256)
//	write   I=[h, off], B[0]      absorb B[0] from a buffer at address offset off
//	read    I=[h, n, off]         squeeze n bytes
//	clone   I=[h, new]            continue h in a copy
//	reset   I=[h]
//	shot    I=[which, n], B[0]    one-shot
//
// Op.T says which thread runs it; a handle belongs to one thread, except
// that it may be created (new/clone) in the set-up phase T = 0.
func (xofProp) Gen(seed uint64, idx int, tier string) *engine.Plan {
	r := engine.NewRand("C12", seed, idx)
	p := &engine.Plan{Prop: "C12", Seed: seed, Idx: idx, Kind: "xof", P: map[string]int64{}}
	tasks := engine.PickInt(r, 1, 1, 2, 3)
	p.Sched = engine.Sched{Seed: r.U64(), MeanRun: int64(1 + r.Intn(400)), GlobalPct: r.Intn(100)}
	nh := 0
	type hs struct {
		rate   int
		sq     bool
		pos    int // bytes in the current block
		task   int
		allpos int
	}
	var hsx []hs
	k := 0
	add := func(t string, task int, b [][]byte, i ...int64) {
		k++
		o := engine.Op{T: task, N: t, I: i, K: k}
		for _, x := range b {
			o.B = append(o.B, engine.Hex(x))
		}
		p.Ops = append(p.Ops, o)
	}
	newH := func(task int) {
		w := engine.PickInt(r, 128, 256)
		add("new", task, nil, int64(nh), int64(w))
		hsx = append(hsx, hs{rate: map[int]int{128: 168, 256: 136}[w], task: task})
		nh++
	}
	length := func(h *hs) int {
		if r.Intn(150) == 0 {
			return r.Intn(70000)
		}
		switch r.Intn(8) {
		case 0:
			return 0
		case 1: // exactly to the end of the block, or one off
			return h.rate - h.pos + r.Intn(3) - 1
		case 2:
			return h.rate*(1+r.Intn(3)) + r.Intn(3) - 1
		case 3:
			return 1 + r.Intn(9)
		case 4:
			return r.Intn(1200)
		default:
			return r.Intn(2 * h.rate)
		}
	}
	step := func(task int) {
		var own []int
		for i := range hsx {
			if hsx[i].task == task {
				own = append(own, i)
			}
		}
		if len(own) == 0 || r.Intn(25) == 0 {
			newH(task)
			return
		}
		i := own[r.Intn(len(own))]
		if r.Intn(3) > 0 {
			i = own[len(own)-1]
		}
		h := &hsx[i]
		c := r.Intn(100)
		switch {
		case c < 30 && !h.sq:
			n := length(h)
			add("write", task, [][]byte{r.Bytes(n)}, int64(i), int64(r.Intn(9)))
			h.pos = (h.pos + n) % h.rate
		case c < 32:
			add("shot", task, [][]byte{r.Bytes(length(h))}, int64(engine.PickInt(r, 128, 256)), int64(r.Intn(400)))
		case c < 36:
			add("reset", task, nil, int64(i))
			h.sq, h.pos = false, 0
		case c < 62 && nh < 14:
			add("clone", task, nil, int64(i), int64(nh))
			g := *h
			hsx = append(hsx, g)
			nh++
		case !h.sq && c < 80:
			n := length(h)
			add("write", task, [][]byte{r.Bytes(n)}, int64(i), int64(r.Intn(9)))
			h.pos = (h.pos + n) % h.rate
		default:
			n := length(h)
			if !h.sq {
				h.sq, h.pos = true, 0
			}
			add("read", task, nil, int64(i), int64(n), int64(r.Intn(9)))
			h.pos = (h.pos + n) % h.rate
		}
	}
	for i, n := 0, 1+r.Intn(14); i < n; i++ {
		step(0)
	}
	if tasks > 1 {
		for i := range hsx {
			hsx[i].task = 1 + r.Intn(tasks)
		}
		for i, n := 0, tasks*(2+r.Intn(7)); i < n; i++ {
			step(1 + r.Intn(tasks))
		}
	} else {
		for i, n := 0, r.Intn(14); i < n; i++ {
			step(0)
		}
	}
	p.P["tasks"] = int64(tasks)
	return p
}

type xofH struct {
	h    sha3.ShakeHash
	w    int
	abs  []byte
	pos  int
	sq   bool
	full []byte // cached expected output
}

func (x *xofH) want(n int) []byte {
	need := x.pos + n
	if len(x.full) < need {
		x.full = make([]byte, need+512)
		if x.w == 128 {
			xsha3.ShakeSum128(x.full, x.abs)
		} else {
			xsha3.ShakeSum256(x.full, x.abs)
		}
	}
	return x.full[x.pos:need]
}

func (xofProp) Exec(e *engine.Env) {
	one := func(o engine.Op, hs map[int64]*xofH, concurrent bool) {
		h := int64(0)
		if len(o.I) > 0 {
			h = o.I[0]
		}
		x := hs[h]
		if x == nil && o.N != "new" && o.N != "shot" {
			return
		}
		switch o.N {
		case "new":
			y := &xofH{w: int(o.I[1])}
			if y.w == 128 {
				y.h = sha3.NewShake128()
			} else {
				y.h = sha3.NewShake256()
			}
			hs[h] = y
		case "write":
			if x.sq {
				return
			}
			b := make([]byte, int(o.I[1])+len(o.B[0]))[int(o.I[1]):]
			copy(b, o.B[0])
			n, err := x.h.Write(b)
			if n != len(b) || err != nil {
				e.Fail("xof-write", "Write of %d bytes returned %d, %v", len(b), n, err)
			}
			if !bytes.Equal(b, o.B[0]) {
				e.Fail("xof-write-modified", "Write changed its argument")
			}
			for i := range b {
				b[i] ^= 0xa5
			}
			x.abs = append(x.abs[:len(x.abs):len(x.abs)], o.B[0]...)
			x.full = nil
		case "read":
			n, off := int(o.I[1]), int(o.I[2])
			buf := bytes.Repeat([]byte{0xcc}, off+n+16)
			got, err := x.h.Read(buf[off : off+n])
			x.sq = true
			if got != n || err != nil {
				e.Fail("xof-read", "Read of %d bytes returned %d, %v", n, got, err)
			}
			for i, c := range buf {
				if (i < off || i >= off+n) && c != 0xcc {
					e.Fail("xof-read-overrun", "Read of %d bytes wrote outside the destination", n)
					break
				}
			}
			w := x.want(n)
			if !bytes.Equal(buf[off:off+n], w) {
				e.Fail("xof-stream", "SHAKE%d handle %d: %d bytes at stream position %d after absorbing %d bytes: got %s, the stream has %s", x.w, h, n, x.pos, len(x.abs), engine.Short(buf[off:off+n]), engine.Short(w))
			}
			x.pos += n
			e.Count("reads")
			if concurrent {
				e.Count("concurrent_reads")
			}
			e.Log("r %d %d %s", h, n, engine.Short(buf[off:off+n]))
		case "clone":
			y := &xofH{h: x.h.Clone(), w: x.w, abs: x.abs, pos: x.pos, sq: x.sq, full: x.full}
			hs[o.I[1]] = y
			e.Count("clones")
			if x.sq {
				e.Count("clones_while_squeezing")
			}
		case "reset":
			x.h.Reset()
			x.abs, x.pos, x.sq, x.full = nil, 0, false, nil
		case "shot":
			out := make([]byte, int(o.I[1]))
			y := &xofH{w: int(o.I[0]), abs: o.B[0]}
			if y.w == 128 {
				sha3.ShakeSum128(out, o.B[0])
			} else {
				sha3.ShakeSum256(out, o.B[0])
			}
			if !bytes.Equal(out, y.want(len(out))) {
				e.Fail("xof-oneshot", "ShakeSum%d of %d bytes differs from the stream", y.w, len(o.B[0]))
			}
		}
	}
	run := func(ops []engine.Op, hs map[int64]*xofH, concurrent bool) func() {
		return func() {
			for _, o := range ops {
				catch(e, "xof", o, func() { one(o, hs, concurrent) })
			}
		}
	}
	by := map[int][]engine.Op{}
	for _, o := range e.Plan.Ops {
		by[o.T] = append(by[o.T], o)
	}
	base := map[int64]*xofH{}
	settle(e, "xof", e.Solo(50_000_000, run(by[0], base, false)))
	var fns []func()
	for t := 1; t <= int(e.Plan.P["tasks"]); t++ {
		if len(by[t]) == 0 {
			continue
		}
		// a handle is used by one thread only: the first that names it
		hs := map[int64]*xofH{}
		for _, o := range by[t] {
			if o.N != "shot" && base[o.I[0]] != nil {
				hs[o.I[0]] = base[o.I[0]]
				delete(base, o.I[0])
			}
		}
		fns = append(fns, run(by[t], hs, true))
	}
	if len(fns) > 1 {
		e.Count("concurrent_episodes")
	}
	if len(fns) > 0 {
		settle(e, "xof", e.RunSim(nil, 50_000_000, fns...))
	}
	e.Out.Trivial = e.Out.Stats["reads"] == 0
}

func (xofProp) Info() engine.Info {
	return engine.Info{Quick: 250000, Thorough: 8000000, Chunk: 500, QuickSecs: 60, ThoroughSecs: 600,
		Rule:        "an episode counts when at least one stream read was compared; distinct = distinct event logs",
		Real:        []string{"sha3 (assembly and portable permutation, aligned and unaligned absorb/squeeze)"},
		Stubs:       []string{"thread scheduler", "buffer placement"},
		Assumptions: []string{"golang.org/x/crypto/sha3 computes SHAKE128 and SHAKE256"},
		MinProbes:   map[string]int64{"reads": 1000, "clones_while_squeezing": 100, "concurrent_episodes": 100},
	}
}
