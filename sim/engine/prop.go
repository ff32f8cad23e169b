package engine

// Property is one checkable property.
type Property interface {
	ID() string
	// Gen builds the plan of episode idx.
	Gen(seed uint64, idx int, tier string) *Plan
	// Exec runs a plan and records violations in env.Out.
	Exec(env *Env)
	// Info describes the check for the evidence file.
	Info() Info
}

type Info struct {
	Quick, Thorough int // episodes
	Chunk           int // episodes per worker process
	Rule            string
	Real            []string // components that ran real code
	Stubs           []string // components that were simulated
	Assumptions     []string
	MinProbes       map[string]int64 // counters that must be non-zero for the run to count
	PlainQuick      int              // episodes run on the uninstrumented build (indices from PlainBase)
	PlainThorough   int
	PlainChunk      int  // plain episodes per worker process (0 = one)
	PlainFirst      bool // start with the plain episodes (few and long)
	Directed        int  // the first Directed episodes are always run (probe episodes)
	Timeout         int  // seconds per episode
	QuickSecs       int  // stop starting new chunks after this long (0 = default)
	ThoroughSecs    int
}

// PlainBase is the index of the first episode that runs on the uninstrumented build.
const PlainBase = 1_000_000_000

var Props = map[string]Property{}

func Register(p Property) { Props[p.ID()] = p }
