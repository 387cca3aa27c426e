// Package pbt is the thin layer between the property checks and rapid. It
// fixes the number of cases per tier, counts what was generated and writes the
// counts out for the evidence file.
package pbt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math"
	"math/cmplx"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

// Stats is what one sub-check reports to the runner
type Stats struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Known       []string       `json:"known"`
}

// Case collects information on one generated case
type Case struct {
	r       *recorder
	counted bool
	nt      bool
	key     string
	labels  []string
	note    string
}

type recorder struct {
	mu     sync.Mutex
	st     Stats
	seen   map[uint64]bool
	frozen bool
	stride int
}

// NonTrivial marks the case as non-trivial. The key identifies the case: two
// cases with the same key count as one
func (c *Case) NonTrivial(format string, args ...interface{}) {
	c.nt = true
	c.key = fmt.Sprintf(format, args...)
}

// Label adds a classification label
func (c *Case) Label(l string) { c.labels = append(c.labels, l) }

// LabelIf adds the label if the condition holds
func (c *Case) LabelIf(cond bool, l string) {
	if cond {
		c.Label(l)
	}
}

// Note attaches the written-out case (used for samples)
func (c *Case) Note(format string, args ...interface{}) {
	if c.note == "" {
		c.note = fmt.Sprintf(format, args...)
	}
}

func (r *recorder) add(c *Case) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.frozen {
		return
	}
	r.st.Evaluations++
	for _, l := range c.labels {
		r.st.Labels[l]++
	}
	if !c.nt {
		return
	}
	r.st.Nontrivial++
	h := fnv.New64a()
	h.Write([]byte(c.key))
	s := h.Sum64()
	if r.seen[s] {
		return
	}
	r.seen[s] = true
	r.st.Distinct++
	if len(r.st.Samples) < 6 && (r.st.Distinct%r.stride) == 1%r.stride {
		txt := c.note
		if txt == "" {
			txt = c.key
		}
		if len(txt) > 600 {
			txt = txt[:600] + "..."
		}
		r.st.Samples = append(r.st.Samples, txt)
	}
}

// Thorough is true in the thorough tier
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N picks the value for the current tier
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Check runs the property on generated cases
func Check(t *testing.T, rule string, quick, thorough int, f func(rt *rapid.T, c *Case)) {
	t.Helper()
	log.SetOutput(io.Discard)
	n := N(quick, thorough)
	if flag.Lookup("rapid.failfile").Value.String() != "" {
		n = 0
	}
	flag.Set("rapid.checks", fmt.Sprintf("%d", n))
	if s := os.Getenv("PBT_SHRINKTIME"); s != "" {
		flag.Set("rapid.shrinktime", s)
	}
	stride := n / 7
	if stride < 1 {
		stride = 1
	}
	r := &recorder{seen: map[uint64]bool{}, stride: stride, st: Stats{Test: t.Name(), Rule: rule, Labels: map[string]int{}}}
	defer r.write()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{r: r}
		ok := false
		defer func() {
			if ok && !rt.Failed() {
				r.add(c)
			} else if !ok {
				// Failing, or rejected while generating. Only a failure stops the count
				if rt.Failed() {
					r.mu.Lock()
					r.frozen = true
					r.mu.Unlock()
				}
			}
		}()
		f(rt, c)
		ok = true
	})
}

func (r *recorder) write() {
	dir := os.Getenv("PBT_STATS")
	if dir == "" {
		return
	}
	data, _ := json.Marshal(r.st)
	os.WriteFile(filepath.Join(dir, r.st.Test+".json"), data, 0644)
}

// listedFindings reads the ids of the known findings
func listedFindings() map[string]string {
	out := map[string]string{}
	path := os.Getenv("PBT_KNOWN")
	if path == "" {
		return out
	}
	data, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	var doc struct {
		Known []struct {
			ID       string `json:"id"`
			Property string `json:"property"`
			What     string `json:"what"`
		} `json:"known"`
	}
	if err := json.Unmarshal(data, &doc); err != nil {
		return out
	}
	for _, k := range doc.Known {
		out[k.ID] = k.What
	}
	return out
}

// KnownFinding runs one specific input that is known to fail. failure is empty
// when the property holds on the input. If it fails and is listed, it is
// reported as a known finding, otherwise it is a violation
func KnownFinding(t *testing.T, id string, run func() (failure string)) {
	t.Helper()
	st := Stats{Test: t.Name(), Rule: "specific known input " + id, Evaluations: 1, Labels: map[string]int{}}
	fail := run()
	if fail != "" {
		what, ok := listedFindings()[id]
		if !ok {
			t.Fatalf("%s: %s", id, fail)
		}
		st.Known = append(st.Known, fmt.Sprintf("%s: %s", id, what))
	}
	r := &recorder{st: st}
	r.write()
}

// Known reports that the case fails in exactly the way the finding describes.
// It returns false if the finding is not listed
func (c *Case) Known(id string) bool {
	what, ok := listedFindings()[id]
	if !ok {
		return false
	}
	txt := fmt.Sprintf("%s: %s", id, what)
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	for _, k := range c.r.st.Known {
		if k == txt {
			return true
		}
	}
	c.r.st.Known = append(c.r.st.Known, txt)
	return true
}

// Close returns true if a and b agree within the relative tolerance, measured
// against the scale
func Close(a, b, scale, tol float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	return math.Abs(a-b) <= tol*(1.0+scale)
}

// MaxAbs returns the largest modulus in the slice
func MaxAbs(v []complex128) float64 {
	m := 0.0
	for _, x := range v {
		if a := cmplx.Abs(x); !(a <= m) {
			m = a
		}
		if math.IsNaN(m) {
			return math.Inf(1)
		}
	}
	return m
}

// Diff compares two complex vectors. It returns an empty string if they agree
// within tol relative to the largest value (at least 1)
func Diff(got, want []complex128, tol float64) string {
	if len(got) != len(want) {
		return fmt.Sprintf("length %d, want %d", len(got), len(want))
	}
	scale := math.Max(1.0, MaxAbs(want))
	if math.IsInf(scale, 0) {
		return "the expected values are not finite"
	}
	for i := range got {
		d := cmplx.Abs(got[i] - want[i])
		if !(d <= tol*scale) {
			return fmt.Sprintf("element %d: got %v want %v (tolerance %g)", i, got[i], want[i], tol*scale)
		}
	}
	return ""
}

// DiffF is Diff for real vectors
func DiffF(got, want []float64, tol float64) string {
	if len(got) != len(want) {
		return fmt.Sprintf("length %d, want %d", len(got), len(want))
	}
	scale := 1.0
	for _, v := range want {
		scale = math.Max(scale, math.Abs(v))
	}
	for i := range got {
		if !(math.Abs(got[i]-want[i]) <= tol*scale) {
			return fmt.Sprintf("element %d: got %v want %v (tolerance %g)", i, got[i], want[i], tol*scale)
		}
	}
	return ""
}

// Panics runs f and returns the recovered value as a string, or "" if it did not panic
func Panics(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%v", r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}
