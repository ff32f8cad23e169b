// Package simrt is the simulator runtime.  Instrumented copies of the code
// under test call Y/YG before every statement; exactly one simulated thread
// runs at a time and the scheduler here decides which one.
package simrt

import (
	"fmt"
	"math"
	"runtime/debug"
)

// steps is the number of yield points the running task may still pass before
// the scheduler is consulted.  It is only touched by the task that runs.
var steps int64 = math.MaxInt64

// GArm is set while the scheduler wants to hear about every yield point next
// to a reference to a package-level variable.
var GArm bool

// Y is called before every statement of the code under test.
func Y(site int) {
	steps--
	if steps < 0 {
		slow(site, far)
	}
}

// YG is Y for a statement that mentions a package-level variable.
func YG(site int) {
	if GArm {
		slow(site, near)
	} else {
		Y(site)
	}
}

// YH is Y for a statement that touches state shared between calls: a
// package-level variable, or an object held by one, that is written somewhere.
func YH(site int) {
	if HotHit != nil {
		HotHit[site]++
	}
	if GArm {
		slow(site, shared)
	} else {
		Y(site)
	}
}

// HotHit, when set, counts the YH sites passed (profiling).
var HotHit map[int]int

const (
	far    = iota // an ordinary yield point
	near          // next to a package-level variable
	shared        // next to one that changes
)

// Decision is one recorded context switch: when task Task has passed At yield
// points (or, if At < 0, when it blocked/finished for the -At'th time) the
// scheduler resumed Next.
type Decision struct {
	Task int   `json:"t"`
	At   int64 `json:"a"`
	Next int   `json:"n"`
}

// Abort is the panic value used to unwind a task the simulator gave up on.
type Abort struct{ Why string }

type task struct {
	id      int
	resume  chan struct{}
	local   int64 // yield points passed
	quantum int64 // steps granted at the last dispatch
	blocks  int64
	blocked func() bool // non-nil: waiting until it returns true
	done    bool
	limit   int64 // abort when local exceeds it
	dead    bool
	fn      func()
	prio    int64
	paused  bool
	child   bool
}

// Config controls one simulated execution.
type Config struct {
	Seed      uint64
	MeanRun   int64 // mean quantum (yield points) between forced scheduling decisions; 0 = run to block/finish
	GlobalPct int   // probability (percent) of preempting at a first-time package-variable site
	Replay    []Decision
	UseReplay bool
	StepLimit int64                                 // per task, 0 = default
	Monitor   func(task int, local int64, site int) // called at every scheduling decision
}

// Sim is the state of one simulated execution.
type Sim struct {
	cfg       Config
	rng       Rand
	tasks     []*task
	cur       *task
	done      chan struct{}
	Decisions []Decision
	Switches  int
	GSwitches int
	TotalStep int64
	Deadlock  bool
	siteHits  map[int]int
	replay    map[int][]Decision
	Panics    map[int]string
	killing   bool
}

var cur *Sim

// Cur returns the running simulation, or nil.
func Cur() *Sim { return cur }

// CurTask is the id of the running task (-1 outside a simulation).
func CurTask() int {
	if cur == nil || cur.cur == nil {
		return -1
	}
	return cur.cur.id
}

// LocalStep returns the number of yield points passed by the running task.
func LocalStep() int64 {
	if cur == nil || cur.cur == nil {
		return 0
	}
	t := cur.cur
	used := t.quantum - steps
	return t.local + used
}

const defaultLimit = int64(4e9)

// Run executes fns as simulated threads until all are done.
func Run(cfg Config, fns ...func()) *Sim {
	if cur != nil {
		panic("simrt: nested Run")
	}
	s := &Sim{cfg: cfg, done: make(chan struct{}), siteHits: map[int]int{}, Panics: map[int]string{}}
	s.rng.Seed(cfg.Seed)
	if cfg.UseReplay {
		s.replay = map[int][]Decision{}
		for _, d := range cfg.Replay {
			s.replay[d.Task] = append(s.replay[d.Task], d)
		}
	}
	cur = s
	for _, fn := range fns {
		s.spawn(fn)
	}
	first := s.pick(-1)
	if cfg.UseReplay {
		first = s.tasks[0]
		if l := s.replay[-1]; len(l) > 0 && l[0].Next < len(s.tasks) {
			first = s.tasks[l[0].Next]
		}
	}
	s.Decisions = append(s.Decisions, Decision{-1, 0, first.id})
	s.dispatch(first)
	first.resume <- struct{}{}
	<-s.done
	cur = nil
	GArm = false
	steps = math.MaxInt64
	for _, t := range s.tasks {
		s.TotalStep += t.local
	}
	return s
}

func (s *Sim) spawn(fn func()) *task {
	t := &task{id: len(s.tasks), resume: make(chan struct{}), fn: fn, limit: s.cfg.StepLimit}
	if t.limit == 0 {
		t.limit = defaultLimit
	}
	s.tasks = append(s.tasks, t)
	go func() {
		<-t.resume
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Abort); !ok {
					s.Panics[t.id] = fmt.Sprint(r) + "\n" + string(debug.Stack())
				} else if s.Panics[t.id] == "" {
					s.Panics[t.id] = fmt.Sprint("abort: ", r.(Abort).Why)
				}
			}
			s.finish(t)
		}()
		if t.dead {
			panic(Abort{"deadlock"})
		}
		debug.SetPanicOnFault(true)
		t.fn()
	}()
	return t
}

// Go starts another simulated thread (the rewrite of a go statement).
func Go(fn func()) {
	s := cur
	if s == nil {
		go fn()
		return
	}
	t := s.spawn(fn)
	t.child = true
}

func (s *Sim) account() {
	t := s.cur
	used := t.quantum - steps
	if used > t.quantum+1 {
		used = t.quantum + 1
	}
	t.local += used
	t.quantum = 0
	steps = 0
}

// dispatch makes t the current task and grants it a quantum.
func (s *Sim) dispatch(t *task) {
	s.cur = t
	q := int64(math.MaxInt64 / 4)
	if s.cfg.UseReplay {
		if l := s.replay[t.id]; true {
			for _, d := range l {
				if d.At > t.local {
					q = d.At - t.local
					break
				}
			}
		}
	} else if s.cfg.MeanRun > 0 && s.live() > 1 || s.cfg.MeanRun > 0 && s.cfg.Monitor != nil {
		// geometric-ish quantum with a heavy tail
		u := s.rng.Float()
		q = int64(-math.Log(1-u)*float64(s.cfg.MeanRun)) + 1
	}
	if q > t.limit-t.local+1 {
		q = t.limit - t.local + 1
	}
	if q < 1 {
		q = 1
	}
	// slow() fires on the yield that makes steps negative, i.e. after q more
	// yields when steps = q-1.
	t.quantum = q - 1
	steps = q - 1
	GArm = s.cfg.GlobalPct > 0 && !s.cfg.UseReplay && s.live() > 1
}

func (s *Sim) live() int {
	n := 0
	for _, t := range s.tasks {
		if !t.done {
			n++
		}
	}
	return n
}

func (s *Sim) runnable() []*task {
	var r []*task
	for _, t := range s.tasks {
		if t.done {
			continue
		}
		if t.blocked != nil {
			if !t.blocked() {
				continue
			}
		}
		r = append(r, t)
	}
	return r
}

func (s *Sim) pick(exclude int) *task {
	r := s.runnable()
	if len(r) == 0 {
		return nil
	}
	if s.cfg.UseReplay {
		return r[0]
	}
	if len(r) > 1 && exclude >= 0 {
		var f []*task
		for _, t := range r {
			if t.id != exclude {
				f = append(f, t)
			}
		}
		if len(f) > 0 {
			r = f
		}
	}
	return r[s.rng.Intn(len(r))]
}

func slow(site, kind int) {
	s := cur
	if s == nil {
		steps = math.MaxInt64
		return
	}
	if kind != far {
		steps-- // this yield point counts too
		if steps >= 0 {
			h := s.siteHits[site]
			s.siteHits[site] = h + 1
			p := s.cfg.GlobalPct
			switch {
			case kind == shared && h < 12:
				p = 20 + p/2
			case kind == shared:
				p = (20 + p/2) * 12 / h
			case h > 0:
				p = p * 2 / (h + 2)
			}
			if p == 0 && h&63 == 0 {
				p = 1
			}
			if int(s.rng.Intn(100)) >= p {
				return
			}
			if d := s.delay(); d > 0 { // a little further on
				if d < steps {
					s.cur.quantum -= steps - d
					steps = d
				}
				return
			}
			s.GSwitches++
		}
	}
	t := s.cur
	s.account()
	if t.local > t.limit {
		t.local = t.limit
		s.giveUp(t, "step limit: no progress")
	}
	if s.cfg.Monitor != nil {
		s.cfg.Monitor(t.id, t.local, site)
	}
	var next *task
	if s.cfg.UseReplay {
		next = t
		for _, d := range s.replay[t.id] {
			if d.At == t.local && d.Next >= 0 && d.Next < len(s.tasks) {
				c := s.tasks[d.Next]
				if !c.done && (c.blocked == nil || c.blocked()) {
					next = c
				}
				break
			}
		}
	} else {
		next = s.pick(t.id)
		if next == nil {
			next = t
		}
	}
	s.switchTo(t, next, t.local)
}

// delay is how many yield points after a reference to a package variable the
// switch happens.
func (s *Sim) delay() int64 {
	switch s.rng.Intn(8) {
	case 0, 1, 2:
		return int64(s.rng.Intn(6))
	case 3, 4:
		return int64(s.rng.Intn(60))
	case 5:
		return int64(s.rng.Intn(1500))
	}
	return 0
}

func (s *Sim) switchTo(t, next *task, at int64) {
	if next != t || s.cfg.Monitor != nil {
		s.Decisions = append(s.Decisions, Decision{t.id, at, next.id})
	}
	if next != t {
		s.Switches++
	}
	s.dispatch(next)
	if next != t {
		next.resume <- struct{}{}
		<-t.resume
		if t.dead {
			panic(Abort{"deadlock"})
		}
	}
}

func (s *Sim) giveUp(t *task, why string) {
	t.limit = math.MaxInt64 / 2
	s.Panics[t.id] = "abort: " + why
	s.dispatch(t)
	panic(Abort{why})
}

// Block parks the running task until ready() is true.
func Block(ready func() bool) {
	s := cur
	if s == nil {
		if !ready() {
			panic("simrt: would block forever outside a simulation")
		}
		return
	}
	t := s.cur
	s.account()
	for !ready() {
		t.blocked = ready
		t.blocks++
		next := s.chooseAt(t, -t.blocks)
		if next == nil {
			s.Deadlock = true
			t.blocked = nil
			s.dispatch(t)
			panic(Abort{"deadlock"})
		}
		s.switchTo(t, next, -t.blocks)
		s.account()
	}
	t.blocked = nil
	s.dispatch(t)
}

func (s *Sim) chooseAt(t *task, at int64) *task {
	if s.cfg.UseReplay {
		for _, d := range s.replay[t.id] {
			if d.At == at && d.Next >= 0 && d.Next < len(s.tasks) {
				c := s.tasks[d.Next]
				if !c.done && (c.blocked == nil || c.blocked()) {
					return c
				}
			}
		}
	}
	return s.pick(t.id)
}

// Gosched is an explicit scheduling point.
func Gosched() {
	if cur != nil {
		slow(-1, far)
	}
}

func (s *Sim) finish(t *task) {
	s.account()
	t.done = true
	t.blocked = nil
	t.blocks++
	next := s.chooseAt(t, -t.blocks)
	if next == nil {
		// nothing runnable: either all done, or deadlock
		for _, u := range s.tasks {
			if !u.done {
				s.Deadlock = true
				u.dead = true
				u.blocked = nil
				s.dispatch(u)
				u.resume <- struct{}{}
				return
			}
		}
		close(s.done)
		return
	}
	s.Decisions = append(s.Decisions, Decision{t.id, -t.blocks, next.id})
	s.dispatch(next)
	next.resume <- struct{}{}
}

// Rand is a small deterministic PRNG (splitmix64 / xorshift mix).
type Rand struct{ s uint64 }

func (r *Rand) Seed(x uint64) { r.s = x*0x9E3779B97F4A7C15 + 0xD1B54A32D192ED03 }
func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		if i%8 == 0 {
			v := r.U64()
			for j := i; j < i+8 && j < n; j++ {
				b[j] = byte(v)
				v >>= 8
			}
		}
	}
	return b
}
