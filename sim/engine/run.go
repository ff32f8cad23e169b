package engine

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/simrt"
	clock "verifsim/simrt/clock"
	mrand "verifsim/simrt/mrand"
	mrand2 "verifsim/simrt/mrand2"
)

// epLine is what a worker reports for one episode.
type epLine struct {
	Ep    int              `json:"ep"`
	Begin bool             `json:"b,omitempty"`
	Hash  string           `json:"h,omitempty"`
	State string           `json:"s,omitempty"`
	Triv  bool             `json:"tr,omitempty"`
	Stats map[string]int64 `json:"st,omitempty"`
	Viol  []Violation      `json:"v,omitempty"`
	Dec   int              `json:"d,omitempty"`
}

// ExecPlan runs one plan in this process.
func ExecPlan(pr Property, p *Plan, cold bool, tier string, verbose bool) (out *Outcome) {
	mrand.Restart()
	mrand2.Restart()
	clock.Restart()
	env := NewEnv(p)
	env.Cold = cold
	env.Tier = tier
	env.Verbose = verbose
	env.Log("plan %s %d %d %s", p.Prop, p.Seed, p.Idx, p.Kind)
	pr.Exec(env)
	env.Out.LogHash = env.LogHash()
	return env.Out
}

// Worker runs episodes [from, from+n) and reports them on stdout.
func Worker(pr Property, seed uint64, tier string, from, n int) {
	runtime.GOMAXPROCS(2)
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	for i := from; i < from+n; i++ {
		enc.Encode(epLine{Ep: i, Begin: true})
		w.Flush()
		p := pr.Gen(seed, i, tier)
		o := ExecPlan(pr, p, i == from, tier, false)
		enc.Encode(epLine{Ep: i, Hash: o.LogHash, State: o.State, Triv: o.Trivial, Stats: o.Stats, Viol: o.Viol, Dec: len(o.Decisions)})
		w.Flush()
	}
}

// Replay is the content of a replay file.
type Replay struct {
	Property string  `json:"property"`
	Class    string  `json:"class"`
	Detail   string  `json:"detail"`
	Seed     uint64  `json:"verif_seed"`
	Tier     string  `json:"tier"`
	LogHash  string  `json:"log_hash"`
	Config   string  `json:"build_config,omitempty"`
	Note     string  `json:"note"`
	Prefix   []*Plan `json:"prefix,omitempty"`
	Plan     *Plan   `json:"plan"`
}

// ExecResult is what `simcheck exec` prints.
type ExecResult struct {
	Viol    []Violation `json:"viol"`
	LogHash string      `json:"hash"`
	Plan    *Plan       `json:"plan,omitempty"` // with explicit decisions
	Log     []string    `json:"log,omitempty"`
}

// ExecReplay runs a replay (prefix then plan) in this process.
func ExecReplay(pr Property, r *Replay, verbose bool) *ExecResult {
	runtime.GOMAXPROCS(2)
	cold := true
	for _, p := range r.Prefix {
		ExecPlan(pr, p, cold, r.Tier, false)
		cold = false
	}
	o := ExecPlan(pr, r.Plan, cold, r.Tier, verbose)
	q := *r.Plan
	q.Sched.Explicit = true
	q.Sched.Decisions = o.Decisions
	return &ExecResult{Viol: o.Viol, LogHash: o.LogHash, Plan: &q, Log: o.Log}
}

type Driver struct {
	Pr      Property
	Seed    uint64
	Tier    string
	Self    string   // path of the binary
	Configs []Config // build configurations (binaries)
	Plain   Config   // uninstrumented build, for very long runs
	Verif   string
	Start   time.Time
	Scratch string
	perCfg  map[string]int
}

// Config is one build of the tree under test.
type Config struct {
	Name string
	Bin  string
}

// KnownFinding is an entry of known_findings.json.
type KnownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Class    string `json:"class,omitempty"`
	Match    string `json:"match,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func LoadKnown(path string) ([]KnownFinding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var k []KnownFinding
	return k, json.Unmarshal(b, &k)
}

func (k KnownFinding) matches(id string, v Violation) bool {
	return k.Status == "known" && k.Property == id && k.Class == v.Class && (k.Match == "" || strings.Contains(v.Detail, k.Match))
}

func (d *Driver) cfg(i int) Config {
	if i >= len(d.Configs) {
		return d.Plain
	}
	return d.Configs[i]
}

type chunk struct {
	from, n int
	cfg     int
	check   bool // determinism re-run
}

type found struct {
	ep    int
	chunk chunk
	v     Violation
}

type episodeErr struct {
	ep  int
	msg string
}

func (d *Driver) runChunk(c chunk, onLine func(chunk, epLine)) error {
	bin := d.cfg(c.cfg).Bin
	cmd := exec.Command(bin, "worker", d.Pr.ID(), fmt.Sprint(d.Seed), d.Tier, fmt.Sprint(c.from), fmt.Sprint(c.n))
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	if c.check {
		cmd.Env = append(cmd.Env, "GOGC=20")
	}
	so, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	var se strings.Builder
	cmd.Stderr = &limitedWriter{b: &se, n: 20000}
	if err := cmd.Start(); err != nil {
		return err
	}
	to := d.Pr.Info().Timeout
	if to == 0 {
		to = 120
	}
	timer := time.AfterFunc(time.Duration(to)*time.Second, func() { cmd.Process.Kill() })
	sc := bufio.NewScanner(so)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	last := -1
	finished := -1
	for sc.Scan() {
		timer.Reset(time.Duration(to) * time.Second)
		var l epLine
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			continue
		}
		if l.Begin {
			last = l.Ep
			continue
		}
		finished = l.Ep
		onLine(c, l)
	}
	timer.Stop()
	err = cmd.Wait()
	if err != nil || finished != c.from+c.n-1 {
		return &crashErr{ep: last, stderr: se.String(), err: err}
	}
	return nil
}

type crashErr struct {
	ep     int
	stderr string
	err    error
}

func (c *crashErr) Error() string {
	s := c.stderr
	if len(s) > 3000 {
		s = s[:3000]
	}
	return fmt.Sprintf("worker died in episode %d: %v\n%s", c.ep, c.err, s)
}

type limitedWriter struct {
	b *strings.Builder
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

// Run is the whole check.  It returns the process exit code.
func (d *Driver) Run() int {
	info := d.Pr.Info()
	total := info.Quick
	secs := info.QuickSecs
	if secs == 0 {
		secs = 300
	}
	if d.Tier == "thorough" {
		total = info.Thorough
		secs = info.ThoroughSecs
		if secs == 0 {
			secs = 3600
		}
	}
	plain := info.PlainQuick
	if d.Tier == "thorough" {
		plain = info.PlainThorough
	}
	if v, err := strconv.Atoi(os.Getenv("SIM_SECS")); err == nil && v > 0 && v < secs {
		secs = v // development aid: a shorter search
	}
	known, err := LoadKnown(filepath.Join(d.Verif, "known_findings.json"))
	if err != nil {
		fmt.Println("ERROR: known_findings.json:", err)
		return 3
	}
	os.Setenv("SIM_FOCUS", d.focus())
	fmt.Printf("check %s tier=%s VERIF_SEED=%d episodes=%d configurations=%d\n", d.Pr.ID(), d.Tier, d.Seed, total+plain, len(d.Configs))
	var chunks []chunk
	nchk := 0
	pc := info.PlainChunk
	if pc < 1 {
		pc = 1
	}
	var plainChunks []chunk
	for i := 0; i < plain; i += pc {
		n := pc
		if i+n > plain {
			n = plain - i
		}
		plainChunks = append(plainChunks, chunk{from: PlainBase + i, n: n, cfg: len(d.Configs)})
	}
	if info.PlainFirst {
		chunks, plainChunks = plainChunks, nil
	}
	for i, from := 0, 0; from < total; i++ {
		n := info.Chunk
		if from+n > total {
			n = total - from
		}
		c := chunk{from: from, n: n, cfg: i % len(d.Configs)}
		chunks = append(chunks, c)
		if i%17 == 3 && nchk < 40 { // determinism: run this chunk a second time
			c.check = true
			chunks = append(chunks, c)
			nchk++
		}
		from += n
	}
	if len(plainChunks) > 0 { // spread them over the run
		var all []chunk
		k := 0
		for i, c := range chunks {
			all = append(all, c)
			for want := (i + 1) * len(plainChunks) / len(chunks); k < want; k++ {
				all = append(all, plainChunks[k])
			}
		}
		for ; k < len(plainChunks); k++ {
			all = append(all, plainChunks[k])
		}
		chunks = all
	}
	var mu sync.Mutex
	hashes := map[int]string{}
	stats := map[string]int64{}
	states := map[string]bool{}
	evals, nontriv := 0, 0
	var finds []found
	var errs []string
	var crashes []*crashErr
	var crashChunks []chunk
	detChecked := 0
	var sampleEps []int
	stop := false

	onLine := func(c chunk, l epLine) {
		mu.Lock()
		defer mu.Unlock()
		key := l.Ep
		if h, ok := hashes[key]; ok {
			detChecked++
			if h != l.Hash {
				errs = append(errs, fmt.Sprintf("nondeterminism: episode %d gave log hash %s then %s", l.Ep, h, l.Hash))
			}
			return
		}
		hashes[key] = l.Hash
		evals++
		if d.perCfg == nil {
			d.perCfg = map[string]int{}
		}
		d.perCfg[d.cfg(c.cfg).Name]++
		for k, v := range l.Stats {
			stats[k] += v
		}
		st := l.State
		if st == "" {
			st = l.Hash
		}
		if !l.Triv {
			if !states[st] {
				nontriv++
				states[st] = true
			}
			if len(sampleEps) < 3 {
				sampleEps = append(sampleEps, l.Ep)
			}
		}
		for _, v := range l.Viol {
			finds = append(finds, found{l.Ep, c, v})
		}
		if len(finds) > 0 && !stop {
			// keep going only if everything found so far is a known finding
			for _, f := range finds {
				kn := false
				for _, k := range known {
					if k.matches(d.Pr.ID(), f.v) {
						kn = true
					}
				}
				if !kn {
					stop = true
				}
			}
		}
	}
	jobs := make(chan chunk)
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range jobs {
				if err := d.runChunk(c, onLine); err != nil {
					mu.Lock()
					if ce, ok := err.(*crashErr); ok {
						crashes = append(crashes, ce)
						crashChunks = append(crashChunks, c)
						stop = true
					} else {
						errs = append(errs, err.Error())
					}
					mu.Unlock()
				}
			}
		}()
	}
	skipped := 0
	for _, c := range chunks {
		mu.Lock()
		s := stop || (time.Since(d.Start) > time.Duration(secs)*time.Second && c.from >= info.Directed)
		mu.Unlock()
		if s {
			skipped++
			continue
		}
		jobs <- c
	}
	close(jobs)
	wg.Wait()

	// --- violations ---
	sort.Slice(finds, func(i, j int) bool { return finds[i].ep < finds[j].ep })
	knownHit := map[string]bool{}
	var fresh []found
	for _, f := range finds {
		kn := false
		for _, k := range known {
			if k.matches(d.Pr.ID(), f.v) {
				kn = true
				knownHit[k.What] = true
			}
		}
		if !kn {
			fresh = append(fresh, f)
		}
	}
	code := 0
	nviol := 0
	var lines []string
	seen := map[string]bool{}
	for _, f := range fresh {
		if seen[f.v.Class] || len(seen) >= 3 {
			continue
		}
		seen[f.v.Class] = true
		path, err := d.minimise(f)
		if err != nil {
			errs = append(errs, fmt.Sprintf("episode %d violated %s (%s) but: %v", f.ep, f.v.Class, f.v.Detail, err))
			continue
		}
		nviol++
		code = 1
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", d.Pr.ID(), path))
		fmt.Printf("  %s: %s\n", f.v.Class, f.v.Detail)
	}
	for i, ce := range crashes {
		if nviol > 0 {
			break
		}
		path, err := d.crashReplay(ce, crashChunks[i])
		if err != nil {
			errs = append(errs, fmt.Sprintf("%v; %v", ce, err))
			continue
		}
		nviol++
		code = 1
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", d.Pr.ID(), path))
		fmt.Printf("  process-crash: %s\n", firstLine(ce.stderr))
	}
	// --- probes ---
	if code == 0 && len(errs) == 0 && skipped == 0 {
		for k, v := range info.MinProbes {
			if stats[k] < v {
				errs = append(errs, fmt.Sprintf("reach: probe %q fired %d times, expected at least %d", k, stats[k], v))
			}
		}
	}
	for _, k := range known {
		if k.Property == d.Pr.ID() && k.Status == "known" && knownHit[k.What] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
		}
	}
	wall := time.Since(d.Start).Seconds()
	d.writeEvidence(info, evals, nontriv, len(states), stats, detChecked, sampleEps, wall, nviol, skipped, total+plain)
	fmt.Printf("  %d simulated runs, %d distinct non-trivial, %d re-run for determinism, %.1fs", evals, nontriv, detChecked, wall)
	if skipped > 0 {
		fmt.Printf(" (%d chunks not started)", skipped)
	}
	fmt.Println()
	for _, e := range errs {
		fmt.Println("ERROR:", e)
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if code == 1 {
		return 1
	}
	if len(errs) > 0 {
		return 3
	}
	fmt.Printf("%s: held on everything explored\n", d.Pr.ID())
	return 0
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

func (d *Driver) writeEvidence(info Info, evals, nontriv, states int, stats map[string]int64, det int, sampleEps []int, wall float64, nviol, skipped, total int) {
	faults := map[string]int64{}
	counters := map[string]int64{}
	for k, v := range stats {
		if strings.HasPrefix(k, "fault:") {
			faults[strings.TrimPrefix(k, "fault:")] = v
		} else {
			counters[k] = v
		}
	}
	var samples []interface{}
	for _, ep := range sampleEps {
		p := d.Pr.Gen(d.Seed, ep, d.Tier)
		b, _ := json.Marshal(p)
		if len(b) > 4000 {
			samples = append(samples, map[string]interface{}{"episode": ep, "kind": p.Kind, "operations": len(p.Ops), "faults": p.Faults, "first_ops": trunc(p.Ops)})
		} else {
			samples = append(samples, p)
		}
	}
	cfgs := map[string]int{} // runs per build
	for _, c := range d.Configs {
		cfgs[c.Name] = d.perCfg[c.Name]
	}
	if n := d.perCfg[d.Plain.Name]; n > 0 {
		cfgs[d.Plain.Name] = n
	}
	cov := map[string]interface{}{
		"evaluations":                  evals,
		"distinct_nontrivial":          nontriv,
		"rule":                         info.Rule,
		"samples":                      samples,
		"planned_episodes":             total,
		"simulated_runs_per_hour":      int64(float64(evals) / wall * 3600),
		"seeds":                        "each run has its own seed, derived from VERIF_SEED and the episode number, so runs per hour are seeds per hour",
		"simulated_time":               fmt.Sprintf("%d yield points (logical steps of the code under test); the code reads no clock", counters["yield_points"]),
		"faults_injected":              faults,
		"counters":                     counters,
		"determinism_reruns_identical": det,
		"runs_per_build":               cfgs,
		"real_components":              info.Real,
		"stubbed_components":           info.Stubs,
		"chunks_not_started":           skipped,
	}
	ev := map[string]interface{}{
		"property": d.Pr.ID(), "tier": d.Tier, "seed": d.Seed, "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": nviol,
		"assumptions": info.Assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(d.Verif, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, d.Pr.ID()+".json"), b, 0o644)
}

func trunc(ops []Op) []string {
	var r []string
	for i, o := range ops {
		if i >= 4 {
			break
		}
		s := o.N
		for _, b := range o.B {
			s += " " + Short(b)
		}
		s += fmt.Sprint(" ", o.I)
		r = append(r, s)
	}
	return r
}

// ---- minimisation ----

func (d *Driver) execFresh(cfg int, r *Replay) (*ExecResult, error) {
	b, err := json.Marshal(r)
	if err != nil {
		return nil, err
	}
	f, err := os.CreateTemp(d.Scratch, "cand-*.json")
	if err != nil {
		return nil, err
	}
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	return ExecFile(d.cfg(cfg).Bin, f.Name(), d.Pr.Info().Timeout, false)
}

// ExecFile runs `bin exec file` in a fresh process.
func ExecFile(bin, file string, to int, verbose bool) (*ExecResult, error) {
	if to == 0 {
		to = 120
	}
	args := []string{"exec", file}
	if verbose {
		args = append(args, "-v")
	}
	cmd := exec.Command(bin, args...)
	var so, se strings.Builder
	cmd.Stdout = &so
	cmd.Stderr = &limitedWriter{b: &se, n: 20000}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	timer := time.AfterFunc(time.Duration(to)*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	if err != nil {
		if strings.Contains(err.Error(), "signal: killed") {
			return nil, fmt.Errorf("watchdog: run exceeded %ds", to)
		}
		if !strings.Contains(se.String(), "fatal error") {
			return nil, fmt.Errorf("run failed: %v: %s", err, firstLine(se.String()))
		}
		return &ExecResult{Viol: []Violation{{Class: "process-crash", Detail: firstLine(se.String())}}}, nil
	}
	var res ExecResult
	if err := json.Unmarshal([]byte(so.String()), &res); err != nil {
		return nil, err
	}
	return &res, nil
}

func has(r *ExecResult, class string) *Violation {
	if r == nil {
		return nil
	}
	for i := range r.Viol {
		if r.Viol[i].Class == class {
			return &r.Viol[i]
		}
	}
	return nil
}

func (d *Driver) minimise(f found) (string, error) {
	plan := d.Pr.Gen(d.Seed, f.ep, d.Tier)
	rep := &Replay{Property: d.Pr.ID(), Class: f.v.Class, Seed: d.Seed, Tier: d.Tier, Plan: plan, Config: d.cfg(f.chunk.cfg).Name}
	cfg := f.chunk.cfg
	deadline := time.Now().Add(90 * time.Second)
	if os.Getenv("SIM_SECS") != "" {
		deadline = time.Now().Add(2 * time.Second)
	}
	try := func(r *Replay) *ExecResult {
		res, err := d.execFresh(cfg, r)
		if err != nil {
			return nil
		}
		if has(res, f.v.Class) == nil {
			return nil
		}
		return res
	}
	var res *ExecResult
	for i := 0; i < 3 && res == nil; i++ {
		res = try(rep)
	}
	if res == nil && f.ep > f.chunk.from {
		// depends on what ran before it in the same process
		for e := f.chunk.from; e < f.ep; e++ {
			rep.Prefix = append(rep.Prefix, d.Pr.Gen(d.Seed, e, d.Tier))
		}
		for i := 0; i < 3 && res == nil; i++ {
			res = try(rep)
		}
		if res != nil {
			rep.Prefix = ddmin(rep.Prefix, func(ps []*Plan) bool {
				if time.Now().After(deadline) {
					return false
				}
				q := *rep
				q.Prefix = ps
				return try(&q) != nil
			})
		}
	}
	if res == nil {
		return "", fmt.Errorf("not reproduced in a fresh process")
	}
	// pin the schedule
	if len(res.Plan.Sched.Decisions) > 0 {
		q := *rep
		q.Plan = res.Plan
		if r2 := try(&q); r2 != nil {
			rep = &q
			res = r2
		}
	}
	cur := *rep.Plan
	ok := func(p Plan) bool {
		if time.Now().After(deadline) {
			return false
		}
		q := *rep
		q.Plan = &p
		r := try(&q)
		if r != nil {
			res = r
			return true
		}
		return false
	}
	for round := 0; round < 3; round++ {
		before := len(cur.Ops) + len(cur.Faults) + len(cur.Sched.Decisions)
		cur.Ops = ddmin(cur.Ops, func(x []Op) bool { p := cur; p.Ops = x; return ok(p) })
		cur.Faults = ddmin(cur.Faults, func(x []Fault) bool { p := cur; p.Faults = x; return ok(p) })
		if cur.Sched.Explicit {
			ds := cur.Sched.Decisions
			// drop context switches (keep the initial choice)
			cur.Sched.Decisions = ddmin(ds, func(x []simrt.Decision) bool { p := cur; p.Sched.Decisions = x; return ok(p) })
		}
		if len(cur.Ops)+len(cur.Faults)+len(cur.Sched.Decisions) == before {
			break
		}
	}
	// shrink repeat counts
	for i := range cur.Ops {
		for cur.Ops[i].N == "fill" && len(cur.Ops[i].I) > 1 && cur.Ops[i].I[1] > 1 && time.Now().Before(deadline) {
			done := true
			for _, n := range []int64{cur.Ops[i].I[1] / 2, cur.Ops[i].I[1] * 7 / 8, cur.Ops[i].I[1] - 1} {
				p := cur
				p.Ops = append([]Op{}, cur.Ops...)
				p.Ops[i].I = append([]int64{}, cur.Ops[i].I...)
				p.Ops[i].I[1] = n
				if ok(p) {
					cur, done = p, false
					break
				}
			}
			if done {
				break
			}
		}
	}
	// shrink operands
	for i := range cur.Ops {
		for j := range cur.Ops[i].B {
			b := cur.Ops[i].B[j]
			for len(b) > 64 && time.Now().Before(deadline) {
				p := cur
				p.Ops = append([]Op{}, cur.Ops...)
				p.Ops[i].B = append([]Hex{}, cur.Ops[i].B...)
				p.Ops[i].B[j] = b[:len(b)/2]
				if !ok(p) {
					break
				}
				cur = p
				b = b[:len(b)/2]
			}
		}
	}
	rep.Plan = &cur
	final := try(rep)
	if final == nil {
		return "", fmt.Errorf("minimised run does not reproduce")
	}
	rep.LogHash = final.LogHash
	rep.Detail = has(final, f.v.Class).Detail
	rep.Note = fmt.Sprintf("replay with: /verif/bin/replay.sh <this file>  (found as episode %d)", f.ep)
	return d.save(rep)
}

func (d *Driver) save(rep *Replay) (string, error) {
	b, err := json.MarshalIndent(rep, "", " ")
	if err != nil {
		return "", err
	}
	sum := sha256.Sum256(b)
	dir := filepath.Join(d.Verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%x.json", d.Pr.ID(), sum[:5]))
	return path, os.WriteFile(path, b, 0o644)
}

func (d *Driver) crashReplay(ce *crashErr, c chunk) (string, error) {
	if ce.ep < 0 || !strings.Contains(ce.stderr, "fatal error") {
		return "", fmt.Errorf("not a crash of the code under test")
	}
	if strings.Contains(ce.stderr, "out of memory") {
		return "", fmt.Errorf("out of memory")
	}
	rep := &Replay{Property: d.Pr.ID(), Class: "process-crash", Seed: d.Seed, Tier: d.Tier, Plan: d.Pr.Gen(d.Seed, ce.ep, d.Tier), Config: d.cfg(c.cfg).Name}
	r, err := d.execFresh(c.cfg, rep)
	if err != nil {
		return "", err
	}
	v := has(r, "process-crash")
	if v == nil {
		for e := c.from; e < ce.ep; e++ {
			rep.Prefix = append(rep.Prefix, d.Pr.Gen(d.Seed, e, d.Tier))
		}
		r, err = d.execFresh(c.cfg, rep)
		if err != nil {
			return "", err
		}
		v = has(r, "process-crash")
	}
	if v == nil {
		return "", fmt.Errorf("crash not reproduced")
	}
	rep.Detail = v.Detail
	return d.save(rep)
}

// ddmin removes elements while ok() stays true.
func ddmin[T any](xs []T, ok func([]T) bool) []T {
	if len(xs) == 0 {
		return xs
	}
	if ok(nil) {
		return nil
	}
	n := 2
	for len(xs) >= 2 {
		size := (len(xs) + n - 1) / n
		reduced := false
		for i := 0; i < len(xs); i += size {
			j := i + size
			if j > len(xs) {
				j = len(xs)
			}
			c := append(append([]T{}, xs[:i]...), xs[j:]...)
			if len(c) == 0 {
				continue
			}
			if ok(c) {
				xs = c
				if n > 2 {
					n--
				}
				reduced = true
				break
			}
		}
		if !reduced {
			if size == 1 {
				break
			}
			n *= 2
			if n > len(xs) {
				n = len(xs)
			}
		}
	}
	return xs
}
