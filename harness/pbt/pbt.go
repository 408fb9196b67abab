// Package pbt is a small property-based testing library. A case is a
// sequence of bounded choices drawn through T; the sequence fully determines
// the case, so replaying and shrinking work on the choices alone.
package pbt

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"
)

// T is the source of choices for one case.
type T struct {
	state   uint64   // splitmix state, used when not replaying
	replay  []uint64 // choices to replay
	replays bool
	pos     int
	rec     []uint64 // choices made, as used

	index   int // of the case in its run
	verbose bool
	alone   bool
	log     []string
	labels  map[string]int
	nontriv bool
	known   map[string]bool // known-finding keys that are suppressed
	hits    map[string]string
}

type failure struct{ msg string }
type discard struct{}
type knownStop struct{}

func newGen(seed uint64, index int) *T {
	return &T{state: seed, index: index, labels: map[string]int{}}
}
func newReplay(choices []uint64) *T {
	return &T{replay: choices, replays: true, labels: map[string]int{}}
}

func splitmix(x *uint64) uint64 {
	*x += 0x9E3779B97F4A7C15
	z := *x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// CaseSeed derives the seed of a case from the run seed, property and index.
func CaseSeed(seed int64, prop string, index int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, index)
	return h.Sum64()
}

// Choice draws a value in [0, max]. Zero is the simplest value.
func (t *T) Choice(max uint64) uint64 {
	var v uint64
	if t.replays {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
		}
		if v > max {
			if max == ^uint64(0) {
				v = max
			} else {
				v = v % (max + 1)
			}
		}
	} else {
		v = splitmix(&t.state)
		if max != ^uint64(0) {
			v %= max + 1
		}
	}
	t.pos++
	t.rec = append(t.rec, v)
	return v
}

// Turn draws a value in [0, n-1] that goes round with the index of the case, so
// that rare and costly variants are all reached in every run.
func (t *T) Turn(n int) int {
	if t.replays {
		return int(t.Choice(uint64(n - 1)))
	}
	v := uint64(t.index % n)
	t.pos++
	t.rec = append(t.rec, v)
	return int(v)
}

// Int draws an int in [lo, hi]; lo is simplest.
func (t *T) Int(lo, hi int) int {
	if hi < lo {
		panic(fmt.Sprintf("pbt: Int(%d,%d)", lo, hi))
	}
	return lo + int(t.Choice(uint64(hi-lo)))
}

// Bool draws a bool; false is simplest.
func (t *T) Bool() bool { return t.Choice(1) == 1 }

// Prob is true with probability pct/100; false is simplest.
func (t *T) Prob(pct int) bool { return t.Choice(99) >= uint64(100-pct) }

// Byte draws a byte.
func (t *T) Byte() uint8 { return uint8(t.Choice(255)) }

// Size draws a size in [lo, hi] skewed towards small values, with the bounds
// reached now and then.
func (t *T) Size(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	span := hi - lo
	switch t.Choice(9) {
	case 0, 1, 2, 3:
		return lo + t.Int(0, min(span, 3))
	case 4, 5, 6:
		return lo + t.Int(0, min(span, 12))
	case 7, 8:
		return lo + t.Int(0, min(span, 60))
	default:
		if t.Choice(3) == 0 {
			return hi
		}
		return lo + t.Int(0, span)
	}
}

// Weighted picks an index according to the weights; index 0 is simplest.
func (t *T) Weighted(weights ...int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	v := int(t.Choice(uint64(total - 1)))
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return len(weights) - 1
}

// Pick returns one of the elements.
func Pick[E any](t *T, elems []E) E { return elems[t.Int(0, len(elems)-1)] }

// Logf adds a line to the rendering of the case (only kept on verbose runs).
func (t *T) Logf(format string, args ...any) {
	if t.verbose {
		if len(t.log) < 2000 {
			t.log = append(t.log, fmt.Sprintf(format, args...))
		}
	}
}

// Verbose tells whether log lines are kept.
func (t *T) Verbose() bool { return t.verbose }

// Alone tells whether this is the only case of the process, run to reproduce
// something.
func (t *T) Alone() bool { return t.alone }

// Nontrivial marks the case as non-trivial under the property's rule.
func (t *T) Nontrivial() { t.nontriv = true }

// NontrivialIf marks the case as non-trivial if cond holds.
func (t *T) NontrivialIf(cond bool) {
	if cond {
		t.nontriv = true
	}
}

// Label counts a class of cases in the evidence.
func (t *T) Label(name string) { t.labels[name]++ }

// LabelIf counts a class if cond holds.
func (t *T) LabelIf(cond bool, name string) {
	if cond {
		t.labels[name]++
	}
}

// Discard abandons the case without counting it.
func (t *T) Discard() { panic(discard{}) }

// Fatalf fails the case.
func (t *T) Fatalf(format string, args ...any) { panic(failure{fmt.Sprintf(format, args...)}) }

// KnownFail reports a failure that matches a listed known finding: if key is
// listed, the case stops quietly and the finding is reported; otherwise the
// case fails as usual.
func (t *T) KnownFail(key string, format string, args ...any) {
	if t.known[key] {
		if t.hits == nil {
			t.hits = map[string]string{}
		}
		t.hits[key] = fmt.Sprintf(format, args...)
		panic(knownStop{})
	}
	t.Fatalf(format, args...)
}

// NoPanic runs fn and fails the case if it panics.
func (t *T) NoPanic(what string, fn func()) {
	if p, stack := Catch(fn); p != nil {
		t.Fatalf("%s panicked: %v\n%s", what, p, trimStack(stack))
	}
}

// Catch runs fn and returns its panic value, if any. Harness control panics
// pass through.
func Catch(fn func()) (p any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, discard, knownStop:
				panic(r)
			}
			p, stack = r, string(debug.Stack())
		}
	}()
	fn()
	return nil, ""
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "tinne26/ggfnt") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Prop is a property: a body that draws a case and checks it.
type Prop struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial
	Quick int    // number of cases in the quick tier
	Deep  int    // number of cases in the thorough tier
	Body  func(t *T)
	// Note lists assumptions for the evidence file.
	Assume []string
}

type outcome struct {
	failed  bool
	msg     string
	discard bool
	t       *T
}

// runOnce executes the body on the given source.
func runOnce(p *Prop, t *T) (out outcome) {
	out.t = t
	defer func() {
		if r := recover(); r != nil {
			switch f := r.(type) {
			case failure:
				out.failed, out.msg = true, f.msg
			case discard:
				out.discard = true
			case knownStop:
			default:
				out.failed = true
				out.msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
		}
	}()
	p.Body(t)
	return
}

// shortlex: fewer choices first, then smaller choices.
func simpler(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// inProcess runs candidates for shrink in this process.
func inProcess(p *Prop, known map[string]bool) func(cand []uint64) ([]uint64, bool, string) {
	return func(cand []uint64) ([]uint64, bool, string) {
		t := newReplay(cand)
		t.known = known
		o := runOnce(p, t)
		return t.rec, o.failed, o.msg
	}
}

// shrink minimises a failing choice sequence. run returns the choices that a
// candidate actually used and whether it failed.
func shrink(run func(cand []uint64) (used []uint64, failed bool, msg string), choices []uint64, budget int, stop func() bool) ([]uint64, string) {
	best := append([]uint64(nil), choices...)
	bestMsg := ""
	try := func(cand []uint64) bool {
		if budget <= 0 || stop() {
			return false
		}
		budget--
		used, failed, msg := run(cand)
		if failed && simpler(used, best) {
			best, bestMsg = append([]uint64(nil), used...), msg
			return true
		}
		return false
	}
	done := func() bool { return budget <= 0 || stop() }
	improved := true
	for improved && !done() {
		improved = false
		// delete blocks
		sizes := []int{64, 32, 16, 8, 5, 4, 3, 2, 1}
		for size := 128; size < len(best); size *= 2 {
			sizes = append([]int{size}, sizes...)
		}
		for _, size := range sizes {
			step := max(1, size/64)
			for i := len(best) - size; i >= 0; i -= step {
				if done() {
					return best, bestMsg
				}
				if i+size > len(best) {
					continue
				}
				cand := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if try(cand) {
					improved = true
				} else if i > 0 && best[i-1] > 0 && size <= 8 {
					// also lower a preceding count while deleting
					cand2 := append([]uint64(nil), cand...)
					cand2[i-1]--
					if try(cand2) {
						improved = true
					}
				}
			}
		}
		// zero blocks
		for _, size := range []int{16, 8, 4, 2} {
			for i := 0; i+size <= len(best); i += size {
				if done() {
					return best, bestMsg
				}
				allZero := true
				for _, v := range best[i : i+size] {
					if v != 0 {
						allZero = false
					}
				}
				if allZero {
					continue
				}
				cand := append([]uint64(nil), best...)
				for j := i; j < i+size; j++ {
					cand[j] = 0
				}
				if try(cand) {
					improved = true
				}
			}
		}
		// lower single values
		for i := 0; i < len(best); i++ {
			if best[i] == 0 {
				continue
			}
			if done() {
				return best, bestMsg
			}
			cand := append([]uint64(nil), best...)
			cand[i] = 0
			if try(cand) {
				improved = true
				continue
			}
			lo, hi := uint64(0), best[i]
			for i < len(best) && lo+1 < hi {
				mid := lo + (hi-lo)/2
				cand := append([]uint64(nil), best...)
				cand[i] = mid
				if try(cand) {
					improved = true
					hi = mid
				} else {
					lo = mid
				}
			}
			if i < len(best) && best[i] > 0 {
				cand := append([]uint64(nil), best...)
				cand[i]--
				if try(cand) {
					improved = true
				}
			}
		}
	}
	return best, bestMsg
}

func caseHash(choices []uint64) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range choices {
		for s := 0; s < 64; s += 8 {
			h ^= (c >> s) & 0xff
			h *= 1099511628211
		}
	}
	return h
}

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
