// Package engine turns seeds into simulated executions, checks them, minimises
// failures and writes the evidence.
package engine

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"regexp"
	"sort"
	"strings"

	"verifsim/simrt"
	simrand "verifsim/simrt/rand"
)

// Hex is a byte string that is written as hex in replay files; nil stays nil.
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) {
	if h == nil {
		return []byte("null"), nil
	}
	return []byte(`"` + hex.EncodeToString(h) + `"`), nil
}
func (h *Hex) UnmarshalJSON(b []byte) error {
	if string(b) == "null" {
		*h = nil
		return nil
	}
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	if err != nil {
		return err
	}
	if d == nil {
		d = []byte{}
	}
	*h = d
	return nil
}

// Op is one step of a workload.
type Op struct {
	T int     `json:"t,omitempty"` // thread / party
	N string  `json:"n"`           // what
	B []Hex   `json:"b,omitempty"` // byte operands
	I []int64 `json:"i,omitempty"` // integer operands
	K int     `json:"k"`           // stable identity within the plan (survives minimisation)
}

// Fault is one injected fault.
type Fault struct {
	Kind string `json:"kind"`
	At   int    `json:"at"`          // operation identity (Op.K) or message number it hits
	N    int    `json:"n,omitempty"` // ordinal inside the operation (e.g. which entropy read)
	A    int64  `json:"a,omitempty"`
	B    int64  `json:"b,omitempty"`
	D    Hex    `json:"d,omitempty"`
}

// Sched is the scheduling configuration of the concurrent part of a plan.
type Sched struct {
	Seed      uint64           `json:"seed"`
	MeanRun   int64            `json:"mean_run"`
	GlobalPct int              `json:"global_pct"`
	Explicit  bool             `json:"explicit,omitempty"`
	Decisions []simrt.Decision `json:"decisions,omitempty"`
}

// Plan is a complete description of one simulated execution.
type Plan struct {
	Prop   string           `json:"property"`
	Seed   uint64           `json:"seed"`
	Idx    int              `json:"episode"`
	Kind   string           `json:"kind"`
	Ops    []Op             `json:"ops"`
	Faults []Fault          `json:"faults,omitempty"`
	Sched  Sched            `json:"sched"`
	P      map[string]int64 `json:"params,omitempty"`
	V      map[string]Hex   `json:"values,omitempty"`
}

// Violation is one broken expectation.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Outcome is what one execution produced.
type Outcome struct {
	Viol      []Violation
	Decisions []simrt.Decision
	Stats     map[string]int64 // counters: faults fired, ops, probes
	State     string           // distinct-state / interleaving key
	Trivial   bool
	LogHash   string
	Log       []string
}

// Env is handed to a property's Exec.
type Env struct {
	Plan    *Plan
	Out     *Outcome
	Cold    bool
	Tier    string
	Verbose bool
	h       []byte
	opFault map[int][]Fault
}

func NewEnv(p *Plan) *Env {
	e := &Env{Plan: p, Out: &Outcome{Stats: map[string]int64{}}}
	e.h = make([]byte, 32)
	e.opFault = map[int][]Fault{}
	for _, f := range p.Faults {
		e.opFault[f.At] = append(e.opFault[f.At], f)
	}
	return e
}

// FaultsAt returns the faults planned for operation k.
func (e *Env) FaultsAt(k int) []Fault { return e.opFault[k] }

// Log appends to the event log (and its running hash).
func (e *Env) Log(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	x := sha256.Sum256(append(append([]byte{}, e.h...), s...))
	copy(e.h, x[:])
	if e.Verbose {
		e.Out.Log = append(e.Out.Log, s)
	}
}

func (e *Env) LogHash() string { return hex.EncodeToString(e.h[:12]) }

// Count bumps a counter.
func (e *Env) Count(k string)        { e.Out.Stats[k]++ }
func (e *Env) Add(k string, n int64) { e.Out.Stats[k] += n }

// Fail records a violation.
func (e *Env) Fail(class, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	if len(d) > 2000 {
		d = d[:2000]
	}
	e.Log("VIOLATION %s %s", class, d)
	e.Out.Viol = append(e.Out.Viol, Violation{class, d})
}

// RunSim executes fns under the plan's schedule.
func (e *Env) RunSim(monitor func(int, int64, int), limit int64, fns ...func()) *simrt.Sim {
	c := e.Plan.Sched
	s := simrt.Run(simrt.Config{Seed: c.Seed, MeanRun: c.MeanRun, GlobalPct: c.GlobalPct,
		UseReplay: c.Explicit, Replay: c.Decisions, StepLimit: limit, Monitor: monitor}, fns...)
	e.Out.Decisions = s.Decisions
	e.Add("yield_points", s.TotalStep)
	e.Add("context_switches", int64(s.Switches))
	for _, d := range s.Decisions {
		e.Log("sched %d@%d->%d", d.Task, d.At, d.Next)
	}
	if s.Deadlock {
		e.Count("deadlocks")
	}
	return s
}

// Solo runs fn as the only simulated thread.
func (e *Env) Solo(limit int64, fn func()) *simrt.Sim {
	s := simrt.Run(simrt.Config{StepLimit: limit}, fn)
	e.Add("yield_points", s.TotalStep)
	return s
}

// ---- entropy ----

// Entropy is a simulated entropy device.  Each read returns bytes of a keyed
// stream; faults change individual reads.
type Entropy struct {
	key     [32]byte
	pos     uint64
	reads   int
	last    []byte
	hist    [][]byte
	Faults  []Fault // N = read ordinal, -1 = every read
	e       *Env
	Fired   map[string]int
	Total   int // bytes delivered
	Trace   []string
	dead    error
	empties int
}

func (e *Env) NewEntropy(label string, faults []Fault) *Entropy {
	k := sha256.Sum256([]byte(fmt.Sprintf("entropy|%d|%d|%s", e.Plan.Seed, e.Plan.Idx, label)))
	return &Entropy{key: k, Faults: faults, e: e, Fired: map[string]int{}}
}

func (d *Entropy) stream(p []byte) {
	var b [8]byte
	for i := range p {
		if d.pos%32 == 0 || i == 0 {
			binary.BigEndian.PutUint64(b[:], d.pos/32)
			blk := sha256.Sum256(append(d.key[:], b[:]...))
			d.last = blk[:]
		}
		p[i] = d.last[d.pos%32]
		d.pos++
	}
}

// Snapshot and Restore model a virtual machine snapshot of the device.
func (d *Entropy) Snapshot() uint64 { return d.pos }
func (d *Entropy) Restore(p uint64) { d.pos = p }
func (d *Entropy) Reads() int       { return d.reads }

var ErrEntropy = errors.New("simulated: entropy device failed")

func (d *Entropy) Read(p []byte) (int, error) {
	n := d.reads
	d.reads++
	if n > 100000 {
		// a caller that keeps polling a dead device forever
		panic(simrt.Abort{Why: "entropy polled over 100000 times: no progress"})
	}
	for _, f := range d.Faults {
		hit := f.N == n || f.N == -1 || (f.N < -1 && n >= -f.N-2)
		if !hit {
			continue
		}
		switch f.Kind {
		case "rng-error":
			d.fire(f.Kind)
			return 0, ErrEntropy
		case "rng-partial-error":
			d.fire(f.Kind)
			m := int(f.A) % (len(p) + 1)
			d.stream(p[:m])
			return m, ErrEntropy
		case "rng-eof":
			d.fire(f.Kind)
			return 0, io.EOF
		case "rng-short":
			if len(p) > 1 {
				d.fire(f.Kind)
				m := 1 + int(f.A)%(len(p)-1)
				d.stream(p[:m])
				return m, nil
			}
		case "rng-empty":
			// a read that delivers nothing and no error; a device that never
			// delivers anything else is no io.Reader, so there is an end to it
			if d.empties < 40 {
				d.empties++
				d.fire(f.Kind)
				return 0, nil
			}
		case "rng-const":
			d.fire(f.Kind)
			for i := range p {
				p[i] = byte(f.A)
			}
			return len(p), nil
		case "rng-stuck":
			// the device returns the same bytes again and again
			d.fire(f.Kind)
			var b [8]byte
			for i := range p {
				binary.BigEndian.PutUint64(b[:], uint64(i/32))
				blk := sha256.Sum256(append(append([]byte("stuck"), byte(f.A)), b[:]...))
				p[i] = blk[i%32]
			}
			return len(p), nil
		case "rng-lowbits":
			// only the low byte(s) vary
			d.fire(f.Kind)
			for i := range p {
				p[i] = 0
			}
			if len(p) > 0 {
				d.stream(p[len(p)-1:])
			}
			return len(p), nil
		case "rng-bytes":
			d.fire(f.Kind)
			m := copy(p, f.D)
			if m < len(p) {
				d.stream(p[m:])
			}
			return len(p), nil
		}
	}
	d.stream(p)
	return len(p), nil
}

func (d *Entropy) fire(k string) {
	d.Fired[k]++
	if d.e != nil {
		d.e.Count("fault:" + k)
	}
}

// AnyFired reports whether a fault changed what a read delivered.
func (d *Entropy) AnyFired() bool { return len(d.Fired) > 0 }

// UseEntropy installs a per-task selection of devices.
func UseEntropy(sel func(task int) *Entropy) {
	simrand.Install(func(p []byte) (int, error) {
		return sel(simrt.CurTask()).Read(p)
	})
}

// One installs a single device.
func (d *Entropy) Install() { UseEntropy(func(int) *Entropy { return d }) }

// ---- helpers ----

type Rand = simrt.Rand

func NewRand(parts ...interface{}) *Rand {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	r := &Rand{}
	r.Seed(binary.BigEndian.Uint64(h[:8]))
	return r
}

func Pick(r *Rand, xs ...string) string { return xs[r.Intn(len(xs))] }
func PickInt(r *Rand, xs ...int) int    { return xs[r.Intn(len(xs))] }

// LogUniform returns an integer in [1,max], uniform in its logarithm.
func LogUniform(r *Rand, max int) int {
	bits := 1
	for 1<<bits < max {
		bits++
	}
	b := r.Intn(bits + 1)
	v := 1 << b
	if b > 0 {
		v = v>>1 + r.Intn(v/2+1)
	}
	if v < 1 {
		v = 1
	}
	if v > max {
		v = max
	}
	return v
}

func SortedKeys(m map[string]int64) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func Short(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 40 {
		return fmt.Sprintf("%x..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

var hexAddr = regexp.MustCompile(`0x[0-9a-f]+`)

// PanicSig reduces a panic text to something stable: the message without
// addresses and the innermost function of the code under test.
func PanicSig(s string) string {
	ls := strings.Split(s, "\n")
	m := hexAddr.ReplaceAllString(ls[0], "0x?")
	for _, l := range ls[1:] {
		if strings.HasPrefix(l, "github.com/blocktree/go-owcrypt") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return m + " in " + strings.TrimPrefix(l, "github.com/blocktree/")
		}
	}
	return m
}

// SortedFired lists the fault kinds that fired on a device.
func SortedFired(d *Entropy) []string {
	var k []string
	for f := range d.Fired {
		k = append(k, f)
	}
	sort.Strings(k)
	return k
}
