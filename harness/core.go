package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand/v2"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Workload is a fixed list of cases: case i of the workload is a pure
// function of (seed, workload name, i) and of the tree under test.
type Workload struct {
	Name string
	// N gives the number of cases of a tier
	N   func(thorough bool) int
	Run func(c *Ctx, i int)
}

// Prop is one property with the workloads that drive it and its oracles.
type Prop struct {
	ID     string
	Rule   string
	Assume []string
	W      []Workload
	// Serial runs the cases one at a time (the cases are concurrent themselves)
	Serial bool
	// MinEv are the least event counts for a conclusive quick run
	MinEv map[string]int64
	// Init runs once in a worker
	Init func()
	// Probe re-executes the known findings of the property: it returns a line
	// for the ones that still fail, by id
	Probe map[string]func() (stillFails bool, what string)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func counts(quick, thorough int) func(bool) int {
	return func(t bool) int {
		if t {
			return thorough
		}
		return scaled(quick)
	}
}

// scale is a divisor of the case counts, for trying the checks on many changes;
// a scaled run is never part of a check
var scale, _ = strconv.Atoi(os.Getenv("VERIF_SCALE"))

func scaled(n int) int {
	if scale > 1 {
		n = (n + scale - 1) / scale
	}
	return n
}

func fixed(n int) func(bool) int { return func(bool) int { return scaled(n) } }

// Rand is a deterministic generator
type Rand struct{ *rand.Rand }

func newRand(parts ...interface{}) *Rand {
	h := fnv.New64a()
	fmt.Fprintln(h, parts...)
	a := h.Sum64()
	fmt.Fprint(h, "x")
	return &Rand{rand.New(rand.NewPCG(a, h.Sum64()))}
}

func (r *Rand) N(n int) int { return r.IntN(n) }

// P is true with probability a/b
func (r *Rand) P(a, b int) bool { return r.IntN(b) < a }

func pick[T any](r *Rand, s []T) T { return s[r.IntN(len(s))] }

func shuffled[T any](r *Rand, s []T) []T {
	ret := append([]T(nil), s...)
	r.Shuffle(len(ret), func(i, j int) { ret[i], ret[j] = ret[j], ret[i] })
	return ret
}

type failure struct{ msg string }

// Ctx is the context of one case
type Ctx struct {
	R       *Rand
	st      *wstats
	tracing bool
	trace   []string
	tier    bool
	seed    int
	wl      string
	idx     int
}

func (c *Ctx) Note(format string, args ...interface{}) {
	if c.tracing {
		c.trace = append(c.trace, clip(fmt.Sprintf(format, args...), 4000))
	}
}

// Fail reports a violation of the property and ends the case
func (c *Ctx) Fail(format string, args ...interface{}) {
	panic(failure{clip(fmt.Sprintf(format, args...), 6000)})
}

func (c *Ctx) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		c.Fail(format, args...)
	}
}

// Ev counts an observed event
func (c *Ctx) Ev(name string, n int) { c.st.ev[name] += int64(n) }

// Distinct records a non-trivial case by its content
func (c *Ctx) Distinct(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	c.st.distinct[h.Sum64()] = struct{}{}
}

func (c *Ctx) Sample(format string, args ...interface{}) {
	k := c.wl
	if c.st.sampleN[k] < 2 {
		c.st.sampleN[k]++
		c.st.samples = append(c.st.samples, fmt.Sprintf("%s#%d: %s", c.wl, c.idx, clip(fmt.Sprintf(format, args...), 500)))
	}
}

type wstats struct {
	ev       map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	sampleN  map[string]int
	evals    int64
}

func newStats() *wstats {
	return &wstats{ev: map[string]int64{}, distinct: map[uint64]struct{}{}, sampleN: map[string]int{}}
}

func (s *wstats) merge(o *wstats) {
	for k, v := range o.ev {
		s.ev[k] += v
	}
	for k := range o.distinct {
		s.distinct[k] = struct{}{}
	}
	s.samples = append(s.samples, o.samples...)
	s.evals += o.evals
}

// Violation is the witness of a failed case
type Violation struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     int      `json:"seed"`
	Workload string   `json:"workload"`
	Index    int      `json:"index"`
	Message  string   `json:"message"`
	Stack    string   `json:"stack,omitempty"`
	Trace    []string `json:"trace,omitempty"`
}

type runner struct {
	p        *Prop
	seed     int
	thorough bool
	tier     string
}

// runCase runs one case and returns its violation, if any
func (rn *runner) runCase(w *Workload, idx int, st *wstats, tracing bool) (v *Violation) {
	c := &Ctx{R: newRand(rn.seed, rn.p.ID, w.Name, idx), st: st, tracing: tracing, tier: rn.thorough, seed: rn.seed, wl: w.Name, idx: idx}
	defer func() {
		if r := recover(); r != nil {
			v = &Violation{Property: rn.p.ID, Tier: rn.tier, Seed: rn.seed, Workload: w.Name, Index: idx, Trace: c.trace}
			if f, ok := r.(failure); ok {
				v.Message = f.msg
			} else {
				v.Message = clip(fmt.Sprintf("panic: %v", r), 3000)
				v.Stack = clip(string(debug.Stack()), 8000)
			}
		}
	}()
	st.evals++
	w.Run(c, idx)
	return nil
}

// try runs f and returns the panic it raised, if any. A failure reported by
// the harness itself passes through.
func try(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				panic(fl)
			}
			p = r
		}
	}()
	f()
	return nil
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + fmt.Sprintf(" ...(%d bytes)... ", len(s)-n) + s[len(s)-n/2:]
}

func q(s string) string { return fmt.Sprintf("%q", clip(s, 1500)) }

func sortedKeys[T any](m map[string]T) []string {
	ret := make([]string, 0, len(m))
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}

func fbits(f float64) string {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], math.Float64bits(f))
	return string(b[:])
}

var onceMap sync.Map

// once runs f once per process for a key
func once(key string, f func()) {
	o, _ := onceMap.LoadOrStore(key, &sync.Once{})
	o.(*sync.Once).Do(f)
}

func join(ss []string) string { return strings.Join(ss, ",") }

// seeded makes a generator that can be replayed
func seeded(a, b uint64) *Rand { return &Rand{rand.New(rand.NewPCG(a, b))} }
