// Package h holds the machinery shared by the runtime monitors: deterministic
// workload generation, the reference model, drivers and result collection.
package h

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
)

// Violation is one observed contradiction of a property.
type Violation struct {
	Props []string `json:"props"` // properties contradicted
	Sig   string   `json:"sig"`   // stable signature of what failed
	Msg   string   `json:"msg"`
	Case  string   `json:"case"` // how to replay: generator coordinates
	Trace any      `json:"trace,omitempty"`
}

// Report collects what one shard observed.
type Report struct {
	mu           sync.Mutex
	Check        string              `json:"check"`
	Seed         uint64              `json:"seed"`
	Shard        int                 `json:"shard"`
	Evaluations  int64               `json:"evaluations"`
	Events       map[string]int64    `json:"events"`
	Distinct     map[string]bool     `json:"-"`
	DistinctN    []string            `json:"distinct"`
	Samples      []string            `json:"samples"`
	Violations   []*Violation        `json:"violations"`
	Inconclusive []string            `json:"inconclusive"`
	Sets         map[string][]string `json:"sets"`
}

// NewReport creates an empty report.
func NewReport(check string, seed uint64, shard int) *Report {
	return &Report{Check: check, Seed: seed, Shard: shard, Events: map[string]int64{}, Distinct: map[string]bool{}, Sets: map[string][]string{}}
}

// Eval counts n executions judged by the oracle.
func (r *Report) Eval(n int) { r.mu.Lock(); r.Evaluations += int64(n); r.mu.Unlock() }

// Ev counts an observed event.
func (r *Report) Ev(k string, n ...int) {
	r.mu.Lock()
	if len(n) > 0 {
		r.Events[k] += int64(n[0])
	} else {
		r.Events[k]++
	}
	r.mu.Unlock()
}

// Seen records a distinct, nontrivial observation (hashed).
func (r *Report) Seen(parts ...any) {
	s := fmt.Sprint(parts...)
	x := sha256.Sum256([]byte(s))
	k := fmt.Sprintf("%x", binary.BigEndian.Uint64(x[:8]))
	r.mu.Lock()
	r.Distinct[k] = true
	r.mu.Unlock()
}

// Sample keeps a few human-readable examples of what was executed.
func (r *Report) Sample(s string) {
	r.mu.Lock()
	if len(r.Samples) < 3 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.Samples = append(r.Samples, s)
	}
	r.mu.Unlock()
}

// Collect appends values to a named set compared across shards by the runner.
func (r *Report) Collect(set string, v string) {
	r.mu.Lock()
	r.Sets[set] = append(r.Sets[set], v)
	r.mu.Unlock()
}

// Violate records a violation.
func (r *Report) Violate(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(v.Msg) > 20000 {
		v.Msg = v.Msg[:10000] + " [...] " + v.Msg[len(v.Msg)-10000:]
	}
	if len(r.Violations) < 40 {
		r.Violations = append(r.Violations, v)
	}
	r.Events["violations"]++
}

// Inconcl records something the monitors could not decide.
func (r *Report) Inconcl(f string, a ...any) {
	r.mu.Lock()
	r.Inconclusive = append(r.Inconclusive, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

// Write stores the report.
func (r *Report) Write(path string) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k := range r.Distinct {
		r.DistinctN = append(r.DistinctN, k)
	}
	sort.Strings(r.DistinctN)
	b, err := json.Marshal(r)
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

// Q quotes for messages, shortening long strings.
func Q(s string) string {
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return fmt.Sprintf("%+q", s)
}

// J renders any value as JSON for messages.
func J(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	s := string(b)
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

// Has reports whether tags contain t.
func Has(tags []string, t string) bool {
	for _, x := range tags {
		if x == t {
			return true
		}
	}
	return false
}

// Join is strings.Join with a comma.
func Join(s []string) string { return strings.Join(s, ",") }
