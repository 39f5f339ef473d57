package proc

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/hyperonym/ratus/verif/h"
)

// choreMetrics reads how many maintenance runs were observed.
func (s *srv) choreMetrics() (count int, sum float64, err error) {
	c, b, err := s.do("GET", "/metrics", "")
	if err != nil || c != 200 {
		return 0, 0, fmt.Errorf("GET /metrics: %d %v", c, err)
	}
	found := 0
	for sc := bufio.NewScanner(bytes.NewReader(b)); sc.Scan(); {
		l := sc.Text()
		if strings.HasPrefix(l, "ratus_chore_duration_seconds_count ") {
			var f float64
			fmt.Sscan(strings.Fields(l)[1], &f)
			count = int(f)
			found++
		}
		if strings.HasPrefix(l, "ratus_chore_duration_seconds_sum ") {
			fmt.Sscan(strings.Fields(l)[1], &sum)
			found++
		}
	}
	if found != 2 {
		return 0, 0, fmt.Errorf("the histogram of maintenance runs is not exposed")
	}
	return count, sum, nil
}

// runs compares the observed maintenance runs with those that took place:
// every run writes a snapshot, or fails to and says so.
func runs(x *world) {
	d := filepath.Join(x.dir, "d")
	os.Mkdir(d, 0o755)
	path := filepath.Join(d, "snap.db")
	w, err := watch(d)
	if err != nil {
		x.t.Fatal(err)
	}
	defer w.close()
	fail := x.rnd.IntN(3) == 0
	s := x.serve("memdb-snapshot-path="+path, "memdb-snapshot-interval=0s", "chore-interval="+h.Pick(x.rnd, []string{"2ms", "5ms", "20ms", "100ms"}))
	if s == nil {
		return
	}
	n := func() int { w.poll(); return w.count["snap.db"] }
	if fail {
		// From now on every run fails, and is observed all the same.
		os.Rename(d, d+".away")
		c0, _, err := s.choreMetrics()
		if err != nil || !eventually(patience, func() bool { c, _, err := s.choreMetrics(); return err == nil && c >= c0+4 }) {
			x.bad("failing runs", "failing maintenance runs are not observed (%d so far) %v", c0, err)
		}
		os.Rename(d+".away", d)
		x.r.Ev("failing_runs_observed")
		x.stop(s)
		return
	}
	end := time.Now().Add(time.Duration(200+x.rnd.IntN(500)) * time.Millisecond)
	last, samples := 0, 0
	for time.Now().Before(end) {
		// The observation follows the snapshot within the same run: the
		// counts never differ by more than the run in progress.
		c1, sum, err := s.choreMetrics()
		if err != nil {
			x.bad("metrics", "%v", err)
			return
		}
		k := n()
		c2, sum2, err := s.choreMetrics()
		if err != nil {
			x.bad("metrics", "%v", err)
			return
		}
		if c1 > k {
			x.bad("runs", "%d maintenance runs were observed, but only %d took place", c1, k)
			return
		}
		if c2 < k-1 {
			x.bad("runs", "only %d maintenance runs were observed, but %d took place", c2, k)
			return
		}
		if c1 < last || c2 < c1 || sum2 < sum || c1 > 0 && sum <= 0 || sum2 > time.Since(s.born).Seconds() {
			x.bad("histogram", "the histogram of maintenance runs went from %d runs with %v s to %d with %v s, after %d", c1, sum, c2, sum2, last)
			return
		}
		last = c2
		samples++
		x.r.Ev("run_counts_compared")
		x.r.Seen("runs", c1, k, c2)
		time.Sleep(time.Duration(x.rnd.IntN(20)) * time.Millisecond)
	}
	if last == 0 && samples > 3 && !eventually(patience, func() bool { c, _, _ := s.choreMetrics(); return c > 0 }) {
		x.bad("runs", "no maintenance run was observed")
	}
	x.stop(s)
}

func init() { h.Register("C20", runCases("C20", 24, 20, []scenario{{"runs", 1, runs}})) }
