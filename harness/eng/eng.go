// Package eng is a small property-based testing engine.
//
// A check consists of families. A family generates scenarios (plain data which can be written as JSON) from a seeded
// PRNG and runs a scenario against the code under test, judging it with an explicit oracle. The engine
//   - derives every scenario from (VERIF_SEED, check, family, case index) alone,
//   - spreads the cases over worker processes, so that a panic, a data corruption fatal error or a hang of the code
//     under test is attributed to the one scenario which was running,
//   - shrinks failing scenarios by deleting and simplifying parts of their JSON tree, running each candidate in a
//     process of its own,
//   - writes the minimal scenario as replay file, which is run without the generator,
//   - counts cases, distinct non-trivial cases and labels for the evidence file.
package eng

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"time"
)

// R is the PRNG of one case. All random choices of a case come from it.
type R struct{ *rand.Rand }

func NewR(seed uint64, name string, index int) *R {
	h := fnv.New64a()
	_, _ = fmt.Fprintf(h, "%s/%d", name, index)
	return &R{rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+1, h.Sum64()))}
}

// N returns an int in [lo,hi].
func (r *R) N(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.IntN(hi-lo+1)
}

// P is true with probability p.
func (r *R) P(p float64) bool { return r.Float64() < p }

// Heavy returns a heavy-tailed size in [0,max]: mostly small, sometimes large, often around powers of two.
func (r *R) Heavy(max int) int {
	var n int
	switch r.IntN(10) {
	case 0, 1, 2, 3, 4:
		n = r.IntN(6)
	case 5, 6, 7:
		n = r.IntN(40)
	case 8:
		n = 1<<r.IntN(17) - 2 + r.IntN(5)
	default:
		n = r.IntN(max + 1)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max
	}
	return n
}

func Pick[T any](r *R, l ...T) T { return l[r.IntN(len(l))] }

// Weighted picks an index with the given weights.
func (r *R) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	n := r.IntN(sum)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return len(w) - 1
}

// C is the context a scenario runs in.
type C struct {
	T          any // *testing.T of the worker, needed for synctest
	Labels     map[string]int
	nontrivial bool
	Replay     bool
	Tier       string
}

func (c *C) Label(format string, args ...any) { c.Labels[fmt.Sprintf(format, args...)]++ }
func (c *C) LabelN(name string, n int)        { c.Labels[name] += n }
func (c *C) NonTrivial()                      { c.nontrivial = true }

// Discard is returned by Run for scenarios outside the domain (made by the shrinker).
var Discard = fmt.Errorf("discard")

// Infra is a failure of the harness, not of the property.
type Infra struct{ Msg string }

func (i *Infra) Error() string { return "harness: " + i.Msg }

// Family is one generator with its oracle.
type Family struct {
	Name     string
	Quick    int
	Thorough int
	Gen      func(r *R) any
	Decode   func(b []byte) (any, error)
	Run      func(c *C, sc any) error
	Fixed    func() []any // scenarios which are always run (regressions of repaired defects)
}

// Fam builds a Family from typed functions.
func Fam[S any](name string, quick, thorough int, gen func(r *R) S, run func(c *C, s S) error) Family {
	return Family{Name: name, Quick: quick, Thorough: thorough,
		Gen: func(r *R) any { return gen(r) },
		Decode: func(b []byte) (any, error) {
			var s S
			err := json.Unmarshal(b, &s)
			return s, err
		},
		Run: func(c *C, sc any) error { return run(c, sc.(S)) },
	}
}

// With adds fixed scenarios.
func (f Family) With(fixed ...any) Family {
	f.Fixed = func() []any { return fixed }
	return f
}

// Check decides one property.
type Check struct {
	ID       string
	Rule     string
	Families []Family
	Assume   []string
	Races    bool // only data races are judged
}

func (c *Check) prepare() bool {
	racesOnly = c.Races
	if c.Races && os.Getenv("VERIF_HANG") == "" {
		hangLimit = 40 * time.Second
	}
	return !c.Races || RaceEnabled
}

// From is a family of another check.
func From(check, family string, quick, thorough int) Family {
	f := *checks[check].family(family)
	f.Name, f.Quick, f.Thorough = check+"-"+family, quick, thorough
	return f
}

var checks = map[string]*Check{}

func Register(c *Check) { checks[c.ID] = c }

func (c *Check) family(name string) *Family {
	for i := range c.Families {
		if c.Families[i].Name == name {
			return &c.Families[i]
		}
	}
	return nil
}

// cases returns the number of fixed and of generated cases of a family.
func (f *Family) cases(tier string) (fixed, generated int) {
	if f.Fixed != nil {
		fixed = len(f.Fixed())
	}
	if tier == "thorough" {
		return fixed, f.Thorough
	}
	return fixed, f.Quick
}

// scenario returns the i-th scenario as JSON.
func (f *Family) scenario(check string, seed uint64, i int) ([]byte, error) {
	fixed := 0
	if f.Fixed != nil {
		l := f.Fixed()
		fixed = len(l)
		if i < fixed {
			return json.Marshal(l[i])
		}
	}
	return json.Marshal(f.Gen(NewR(seed, check+"/"+f.Name, i-fixed)))
}

func Errf(format string, args ...any) error { return fmt.Errorf(format, args...) }
