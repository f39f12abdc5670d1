// Package vh is the small shared layer between the generated-input tests and check.py: it runs
// rapid with seeds derived from VERIF_SEED, counts what was generated and writes the counts out.
package vh

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	maxSamples   = 6
	sampleLen    = 1600
	harnessError = 3
	shrinkBudget = 60 * time.Second
)

// C collects the statistics of one property test.
type C struct {
	mu         sync.Mutex
	Name       string         `json:"name"`
	Rule       string         `json:"rule"`
	Evals      int            `json:"evaluations"`
	NonTrivial int            `json:"nontrivial"`
	Distinct   int            `json:"distinct_nontrivial"`
	Classes    map[string]int `json:"classes"`
	Samples    []string       `json:"samples"`
	Wall       float64        `json:"wall_s"`
	Keys       []string       `json:"keys"` // hashes of the non-trivial cases, for merging shards
	seen       map[uint64]bool
}

var (
	allMu sync.Mutex
	all   []*C
)

// Thorough tells whether the deep tier was asked for.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N picks the number of cases of the current tier.
func N(quick, thorough int) int {
	n := quick
	if Thorough() {
		n = thorough
	}
	if s := os.Getenv("VH_SCALE"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		if err == nil {
			n = int(float64(n) * f)
			if n < 1 {
				n = 1
			}
		}
	}
	return n
}

// Seed is the base seed of the run, from VERIF_SEED.
func Seed() uint64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	return uint64(s)
}

func seedFor(name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%s", Seed(), os.Getenv("VERIF_TIER"), os.Getenv("VH_SHARD"), name)
	x := h.Sum64() >> 1
	if x == 0 {
		x = 1
	}
	return x
}

// Check runs prop on n generated cases. rule says what makes a case non-trivial.
func Check(t *testing.T, rule string, n int, prop func(t *rapid.T, c *C)) {
	t.Helper()
	c := &C{Name: t.Name(), Rule: rule, Classes: map[string]int{}, seen: map[uint64]bool{}}
	allMu.Lock()
	all = append(all, c)
	allMu.Unlock()
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	if os.Getenv("VH_RAPIDSEED") != "" {
		must(flag.Set("rapid.seed", os.Getenv("VH_RAPIDSEED")))
	} else {
		must(flag.Set("rapid.seed", strconv.FormatUint(seedFor(t.Name()), 10)))
	}
	if v := os.Getenv("VH_SHRINKTIME"); v != "" {
		must(flag.Set("rapid.shrinktime", v))
	} else {
		must(flag.Set("rapid.shrinktime", "12s"))
	}
	if s := strings.Split(os.Getenv("VH_SHARD"), "/"); len(s) == 2 {
		k, err := strconv.Atoi(s[1])
		must(err)
		must(flag.Set("rapid.checks", strconv.Itoa((n+k-1)/k)))
	}
	start := time.Now()
	defer func() { c.Wall = time.Since(start).Seconds() }()
	var failed time.Time
	rapid.Check(t, func(rt *rapid.T) {
		// rapid checks its shrink time only between its steps, each of which can run many cases:
		// end slow shrinking here, the failure stays recorded
		if !failed.IsZero() && time.Since(failed) > shrinkBudget {
			return
		}
		defer func() {
			if rt.Failed() && failed.IsZero() {
				failed = time.Now()
			}
		}()
		prop(rt, c)
	})
}

// Case records one evaluated case; key identifies it among the non-trivial ones.
func (c *C) Case(nontrivial bool, format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Evals++
	if !nontrivial {
		return
	}
	c.NonTrivial++
	s := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	_, _ = io.WriteString(h, s)
	k := h.Sum64()
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.Distinct++
	if len(c.Samples) < maxSamples && (c.Distinct&(c.Distinct-1)) == 0 {
		if len(s) > sampleLen {
			s = s[:sampleLen] + "..."
		}
		c.Samples = append(c.Samples, s)
	}
}

// Class counts how often a labelled kind of situation was generated.
func (c *C) Class(label string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Classes[label]++
}

// ClassN adds n to a labelled count.
func (c *C) ClassN(label string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Classes[label] += n
}

// Harness ends the run when the machinery itself, not the code under test, failed.
func Harness(err error, what string) {
	if err == nil {
		return
	}
	buf := make([]byte, 1<<14)
	buf = buf[:runtime.Stack(buf, false)]
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR %s: %v\n%s\n", what, err, buf)
	os.Exit(harnessError)
}

func must(err error) { Harness(err, "vh") }

// Main is called from TestMain.
func Main(m *testing.M) {
	log.SetOutput(io.Discard)
	code := m.Run()
	if f := os.Getenv("VH_STATS"); f != "" {
		for _, c := range all {
			for k := range c.seen {
				if len(c.Keys) >= 50000 {
					break
				}
				c.Keys = append(c.Keys, strconv.FormatUint(k, 36))
			}
		}
		b, err := json.Marshal(all)
		must(err)
		must(os.WriteFile(f, b, 0o600))
	}
	os.Exit(code)
}

// NoPanic runs f and fails the case if it panics.
func NoPanic(t *rapid.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			// let rapid's own control flow through
			if isRapid(r) {
				panic(r)
			}
			t.Fatalf("%s panicked: %v\n%s", what, r, stack())
		}
	}()
	f()
}

func stack() []byte {
	buf := make([]byte, 1<<13)
	return buf[:runtime.Stack(buf, false)]
}

func isRapid(r interface{}) bool {
	s := fmt.Sprintf("%T", r)
	return s == "rapid.stopTest" || s == "rapid.invalidData" || s == "*rapid.testError"
}

// U64 is a generator of uint64 that favours boundaries.
func U64() *rapid.Generator[uint64] {
	return rapid.OneOf(
		rapid.Uint64Range(0, 40),
		rapid.SampledFrom([]uint64{0, 1, 2, 255, 256, 1 << 31, 1<<31 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2}),
		rapid.Uint64(),
	)
}

// Pick is a generator of numbers from 0 to n-1 that favours none of them, unlike rapid.IntRange.
func Pick(n int) *rapid.Generator[int] {
	bits := 0
	for ; 1<<bits < n; bits++ {
	}
	// with enough bits the remainder's bias doesn't matter
	return rapid.Map(rapid.SliceOfN(rapid.Bool(), bits+5, bits+5), func(l []bool) int {
		x := 0
		for _, b := range l {
			x *= 2
			if b {
				x++
			}
		}
		return x % n
	})
}

// Pct is a generator of truth values that are true in the given percentage of all cases.
func Pct(n int) *rapid.Generator[bool] {
	return rapid.Map(Pick(100), func(x int) bool { return x >= 100-n })
}
