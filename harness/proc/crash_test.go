package proc

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"

	"github.com/hyperonym/ratus/verif/h"
)

// state renders a set of tasks for comparison.
func state(m map[string]*ratus.Task) map[string]string {
	s := map[string]string{}
	for id, k := range m {
		s[id] = render(k)
	}
	return s
}

func same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// diffstate names a task on which two states differ.
func diffstate(a, b map[string]string) string {
	for k, v := range a {
		if b[k] != v {
			return fmt.Sprintf("%s is %s instead of %s", k, h.Q(v), h.Q(b[k]))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return k + " is missing"
		}
	}
	return "none"
}

// gen creates tasks that carry a version.
func (x *world) gen(n, size int, version string) []*ratus.Task {
	var l []*ratus.Task
	now := time.Now()
	for i := 0; i < n; i++ {
		pad := strings.Repeat(fmt.Sprintf("%08x", x.rnd.Uint32()), 1+x.rnd.IntN(1+size/8))
		l = append(l, &ratus.Task{ID: fmt.Sprintf("k%03d", i), Topic: fmt.Sprintf("t%d", i%5), State: ratus.TaskState(i % 4), Nonce: "0123456789abcdef"[:16*(btoi(i%4 == 1))], Produced: &now, Scheduled: &now, Deadline: tm(24 * time.Hour), Consumed: &now, Payload: map[string]any{"v": version, "pad": pad}})
	}
	return l
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func copied(t *testing.T, path string) (string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	c := filepath.Join(t.TempDir(), "copy")
	return c, os.WriteFile(c, b, 0o644)
}

// limited fails writes of the real engine at every possible offset.
func limited(x *world) {
	ctx := context.Background()
	path := x.snap()
	iv := h.Pick(x.rnd, []time.Duration{0, 0, time.Hour})
	g, err := memdb.New(&memdb.Config{SnapshotPath: path, SnapshotInterval: iv, RetentionPeriod: 1000 * time.Hour})
	if err != nil {
		x.t.Fatal(err)
	}
	if err := g.Open(ctx); err != nil {
		x.t.Fatal(err)
	}
	all := func() map[string]string {
		m := map[string]string{}
		ts, _ := g.ListTopics(ctx, 1<<30, 0)
		for _, t := range ts {
			l, _ := g.ListTasks(ctx, t.Name, 1<<30, 0)
			for _, k := range l {
				m[k.ID] = render(k)
			}
		}
		return m
	}
	chored := false // a periodic snapshot has been written within the interval
	save := func() (what string, due bool, err error) {
		if x.rnd.IntN(2) == 0 {
			what, due, err = "a maintenance run", iv == 0 || !chored, g.Chore(ctx)
			chored = chored || err == nil
			return what, due, err
		}
		return "closing", true, g.Close(ctx)
	}
	var saved map[string]string // what the path has to hold, nil for nothing
	fails := 0
	for step := 0; step < 25; step++ {
		g.UpsertTasks(ctx, x.gen(1+x.rnd.IntN(12), 40, fmt.Sprint(step)))
		if x.rnd.IntN(5) == 0 {
			g.DeleteTopic(ctx, fmt.Sprintf("t%d", x.rnd.IntN(5)))
		}
		cur := all()
		lim := int64(-1)
		fault := ""
		if x.rnd.IntN(4) > 0 {
			size := int64(4000)
			if fi, err := os.Stat(path); err == nil && fi.Size() > 0 {
				size = fi.Size()
			}
			switch x.rnd.IntN(8) {
			case 0:
				fault = "directory gone"
				os.Rename(x.dir, x.dir+".away")
			case 1:
				fault = "path taken"
				os.Rename(path, path+".aside")
				os.MkdirAll(filepath.Join(path, "sub"), 0o755)
			default:
				fault = "file size limit"
				lim = x.rnd.Int64N(size + size/4 + 8)
				if x.rnd.IntN(6) == 0 {
					lim = max(0, size-x.rnd.Int64N(8))
				}
				limit(uint64(lim))
			}
		}
		what, due, err := save()
		if lim >= 0 {
			limit(^uint64(0))
		}
		switch fault {
		case "directory gone":
			os.Rename(x.dir+".away", x.dir)
		case "path taken":
			os.RemoveAll(path)
			os.Rename(path+".aside", path)
		}
		x.r.Ev("saves")
		if !due {
			x.r.Ev("saves_not_due")
			if err != nil {
				x.bad("not due", "%s fails within the snapshot interval: %v", what, err)
				return
			}
		} else if err != nil {
			fails++
			x.r.Ev("failed_saves")
			if fault == "" {
				x.bad("save", "%s fails without a fault after %d failed saves: %v", what, fails, err)
				return
			}
		} else {
			saved = cur
			if fault == "directory gone" || fault == "path taken" {
				x.bad("unreported", "%s reported no error although the snapshot could not be written (%s)", what, fault)
				return
			}
		}
		x.r.Seen("limited", fault, lim, len(cur), err != nil)
		// What is at the path is complete.
		if _, e := os.Stat(path); os.IsNotExist(e) {
			if saved != nil {
				x.bad("gone", "the snapshot is gone after %s with %s (error: %v)", what, fault, err)
				return
			}
			continue
		}
		m, e := load(path)
		if e != nil {
			x.bad("corrupt", "the snapshot can not be loaded after %s with %s at %d: %v (error: %v)", what, fault, lim, e, err)
			return
		}
		if got := state(m); !same(got, saved) {
			x.bad("state", "after %s with %s at %d (error: %v) the snapshot does not hold the state of the last successful save: %s", what, fault, lim, err, diffstate(got, saved))
			return
		}
	}
	if n := len(strings.Fields(ls(x.dir))); fails >= 8 && n > 4 {
		x.bad("debris", "%d failed saves left %d files: %s", fails, n, ls(x.dir))
	}
}

func limit(n uint64) {
	var l syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l)
	l.Cur = n
	if l.Max < n {
		l.Cur = l.Max
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
}

// killed kills the process while it saves again and again, and reads the
// snapshot meanwhile.
func killed(x *world) {
	w, err := watch(x.dir)
	if err != nil {
		x.t.Fatal(err)
	}
	defer w.close()
	path := x.snap()
	n, size := 20+x.rnd.IntN(120), h.Pick(x.rnd, []int{100, 4000, 20000})
	if x.rnd.IntN(3) == 0 {
		n, size = 1000+x.rnd.IntN(2500), 20
	}
	s := x.serve("memdb-snapshot-path="+path, "memdb-snapshot-interval=0s", "chore-interval="+h.Pick(x.rnd, []string{"1ms", "3ms"}))
	if s == nil {
		return
	}
	// Either all tasks or a few of them are written again and again.
	few := map[string]bool{}
	if n >= 1000 {
		for _, i := range []int{0, n - 1, x.rnd.IntN(n), x.rnd.IntN(n)} {
			few[fmt.Sprintf("k%03d", i)] = true
		}
		b, _ := json.Marshal(&ratus.Tasks{Data: x.gen(n, size, "1")})
		if c, _, err := s.do("PUT", "/topics/t/tasks", string(b)); c/100 != 2 {
			x.bad("status", "a batch was answered with %d %v", c, err)
			return
		}
	}
	want := func(id string, v int) string {
		if len(few) > 0 && !few[id] {
			v = min(v, 1)
		}
		return fmt.Sprint(v)
	}
	body := func(v int) string {
		l := x.gen(n, size, fmt.Sprint(v))
		if len(few) > 0 {
			l = slices.DeleteFunc(l, func(k *ratus.Task) bool { return !few[k.ID] })
		}
		b, _ := json.Marshal(&ratus.Tasks{Data: l})
		return string(b)
	}
	bodies := make([]string, 6)
	for v := range bodies {
		bodies[v] = body(v + 1)
	}
	var acked atomic.Int64
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for v := 1; ; v++ {
			select {
			case <-stop:
				return
			default:
			}
			b := strings.ReplaceAll(bodies[v%len(bodies)], fmt.Sprintf(`"v":"%d"`, v%len(bodies)+1), fmt.Sprintf(`"v":"%d"`, v))
			c, _, err := s.do("PUT", "/topics/t/tasks", b)
			if err != nil {
				return
			}
			if c/100 != 2 {
				x.bad("status", "a batch was answered with %d", c)
				return
			}
			acked.Store(int64(v))
			x.r.Ev("acknowledged")
		}
	}()
	// one checks that a snapshot holds exactly one version.
	one := func(m map[string]*ratus.Task) (int, string) {
		if len(m) == 0 {
			return 0, ""
		}
		if len(m) != n {
			return 0, fmt.Sprintf("it holds %d of %d tasks", len(m), n)
		}
		first := ""
		for id, k := range m {
			p, _ := k.Payload.(map[string]any)
			v, _ := p["v"].(string)
			if len(few) > 0 && !few[id] && v == "1" {
				continue
			}
			if first == "" {
				first = v
			}
			if v != first || v == "" {
				return 0, fmt.Sprintf("it holds versions %s and %s (task %s)", first, v, id)
			}
		}
		var v int
		fmt.Sscan(first, &v)
		return v, ""
	}
	var reads atomic.Int64
	go func() {
		defer wg.Done()
		last, exists := 0, false
		for {
			select {
			case <-stop:
				return
			default:
			}
			c, err := copied(x.t, path)
			if os.IsNotExist(err) {
				if exists {
					x.bad("gone", "the snapshot was gone while the process was saving")
					return
				}
				continue
			}
			if err != nil {
				x.t.Error(err)
				return
			}
			exists = true
			m, err := load(c)
			if err != nil {
				x.bad("partial", "a reader found a snapshot that can not be loaded while the process was saving: %v", err)
				return
			}
			v, e := one(m)
			if e != "" {
				x.bad("mixed", "a reader found a snapshot that is not of one moment while the process was saving: %s", e)
				return
			}
			if v < last {
				x.bad("back", "a reader found version %d after version %d", v, last)
				return
			}
			last = v
			reads.Add(1)
			x.r.Ev("snapshots_read")
			os.Remove(c)
		}
	}()
	// Lower bounds for the version in the snapshot after a number of saves.
	type bound struct {
		saves int
		v     int64
	}
	var bs []bound
	end := time.Now().Add(time.Duration(100+x.rnd.IntN(900)) * time.Millisecond)
	for time.Now().Before(end) {
		a := acked.Load()
		w.poll()
		bs = append(bs, bound{w.count[filepath.Base(path)] + 2, a})
		time.Sleep(time.Millisecond)
	}
	s.cmd.Process.Kill()
	<-s.done
	close(stop)
	s.hc.CloseIdleConnections()
	wg.Wait()
	w.poll()
	total := w.count[filepath.Base(path)]
	x.r.Ev("kills")
	x.r.Ev("saves_before_kill", total)
	if x.viol {
		return
	}
	lo := int64(0)
	for _, b := range bs {
		if b.saves <= total {
			lo = max(lo, b.v)
		}
	}
	debris := len(strings.Fields(ls(x.dir))) - 1
	if debris > 0 {
		x.r.Ev("kills_amid_save")
	}
	if total == 0 {
		return
	}
	c, err := copied(x.t, path)
	if err != nil {
		x.bad("gone", "no snapshot after the kill: %v", err)
		return
	}
	m, err := load(c)
	if err != nil {
		x.bad("corrupt", "the snapshot can not be loaded after the kill: %v", err)
		return
	}
	v, e := one(m)
	if e != "" {
		x.bad("mixed", "the snapshot after the kill is not of one moment: %s", e)
		return
	}
	if int64(v) < lo || int64(v) > acked.Load()+1 {
		x.bad("version", "the snapshot after the kill holds version %d, but %d was acknowledged before the last save began and %d before the kill", v, lo, acked.Load())
		return
	}
	x.r.Seen("killed", n, size, v, total, debris)
	// What was left behind does not get into later, smaller snapshots.
	if x.rnd.IntN(2) == 0 {
		shrink(x, path, fmt.Sprintf("a kill amid saves that left %d more files", debris))
		return
	}
	// A restart recovers exactly that, whatever was left behind, and so do
	// later ones that are killed or stopped.
	for round, rounds := 1, 1+x.rnd.IntN(4); round <= rounds; round++ {
		slow := x.rnd.IntN(2) == 0
		s = x.serve("memdb-snapshot-path="+path, "memdb-snapshot-interval=0s", "chore-interval="+map[bool]string{true: "1h", false: "1ms"}[slow])
		if s == nil {
			return
		}
		for i := 0; i < 10; i++ {
			id := fmt.Sprintf("k%03d", x.rnd.IntN(n))
			cd, b, err := s.do("GET", "/topics/t/tasks/"+id, "")
			var k ratus.Task
			json.Unmarshal(b, &k)
			p, _ := k.Payload.(map[string]any)
			if v > 0 && (err != nil || cd != 200 || p["v"] != want(id, v)) || v == 0 && cd != 404 {
				x.bad("restart", "task %s of version %d is %d with version %v after restart %d (%v)", id, v, cd, p["v"], round, err)
				return
			}
		}
		// All snapshots written meanwhile hold the same.
		look := func(what string) bool {
			c, err := copied(x.t, path)
			if err == nil {
				m2, e := load(c)
				if err = e; err == nil && same(state(m), state(m2)) {
					x.r.Ev("snapshots_after_restart")
					return true
				} else if err == nil {
					err = fmt.Errorf("%s", diffstate(state(m2), state(m)))
				}
			}
			x.bad("restart", "the snapshot %s restart %d is wrong: %v", what, round, err)
			return false
		}
		before := total
		eventually(time.Second, func() bool {
			w.poll()
			return w.count[filepath.Base(path)] > before
		})
		for i := 0; i < 4; i++ {
			if !look("after") {
				return
			}
		}
		time.Sleep(time.Duration(x.rnd.IntN(10)) * time.Millisecond)
		if x.rnd.IntN(3) > 0 {
			s.cmd.Process.Kill()
			<-s.done
			s.hc.CloseIdleConnections()
			x.r.Ev("kills")
			w.poll()
			if d := len(strings.Fields(ls(x.dir))) - 1; d > debris {
				debris = d
				x.r.Ev("kills_amid_save")
			}
		} else {
			x.stop(s)
			w.poll()
		}
		total = w.count[filepath.Base(path)]
		if x.viol || !look("at the end of") {
			return
		}
	}
}

// shrink starts a process after a crash, has it save less than before, and
// checks that exactly that is saved.
func shrink(x *world, path, after string) {
	slow := x.rnd.IntN(2) == 0
	s := x.serve("memdb-snapshot-path="+path, "memdb-snapshot-interval=0s", "chore-interval="+map[bool]string{true: "1h", false: "1ms"}[slow])
	if s == nil {
		return
	}
	if slow {
		// The one periodic save is over.
		eventually(time.Second, func() bool { return strings.Contains(s.out.String(), "start running") })
	}
	if c, _, err := s.do("DELETE", "/topics", ""); c != 200 || err != nil {
		x.bad("shrink", "deleting all tasks was answered with %d %v after %s", c, err, after)
		return
	}
	want := map[string]bool{}
	for _, id := range []string{"a", "b"}[:x.rnd.IntN(3)] {
		if c, _, err := s.do("POST", "/topics/t/tasks/"+id, `{"payload":1}`); c != 201 || err != nil {
			x.bad("shrink", "inserting a task was answered with %d %v after %s", c, err, after)
			return
		}
		want[id] = true
	}
	look := func(what string) bool {
		c, err := copied(x.t, path)
		var m map[string]*ratus.Task
		if err == nil {
			m, err = load(c)
		} else if os.IsNotExist(err) {
			return false // not yet
		}
		if err != nil {
			x.bad("shrink", "the snapshot %s is wrong after %s: %v", what, after, err)
			return false
		}
		for id := range m {
			if !want[id] {
				return false
			}
		}
		return len(m) == len(want)
	}
	if !slow {
		if !eventually(patience, func() bool { return x.viol || look("of a later process") }) {
			x.bad("shrink", "periodic snapshots do not show a smaller store after %s", after)
		}
	}
	if x.viol {
		return
	}
	x.stop(s)
	if !x.viol && !look("of a stopped process") && !x.viol {
		x.bad("shrink", "the snapshot of a stopped process does not show its smaller store after %s", after)
	}
	x.r.Ev("smaller_snapshots_after_crash")
}

var injected = regexp.MustCompile(`(?m)^\d+ +(\w+)\((.*?)\) += .*\(INJECTED\)`)

// temporary is a file beside the snapshot that is being closed. Closing the
// snapshot itself ends loading it and may fail.
var temporary = regexp.MustCompile(`/d/snap\.db[^/>]+>`)

// traced injects one fault into one system call of the process.
func traced(x *world) {
	path := x.snap()
	onlyClose := x.rnd.IntN(2) == 0
	n := 1 + x.rnd.IntN(10)
	base := x.gen(n, 60, "0")
	late := tm(-time.Minute)
	for i := 0; i < n; i += 2 {
		base[i].State, base[i].Deadline, base[i].Nonce = ratus.TaskStateActive, late, "0123456789abcdef"
	}
	exists := x.rnd.IntN(5) > 0
	if exists {
		write(x.t, path, base)
	}
	// The state before and after maintenance.
	s0 := map[string]string{}
	s1 := map[string]string{}
	if exists {
		m, err := load(path)
		if err != nil {
			x.t.Fatal(err)
		}
		s0 = state(m)
		for id, k := range m {
			c := *k
			if c.State == ratus.TaskStateActive && c.Deadline.Before(time.Now()) {
				c.State, c.Nonce = ratus.TaskStatePending, ""
			}
			s1[id] = render(&c)
		}
	}
	calls := h.Pick(x.rnd, []string{"write", "write", "write", "write", "openat", "openat", "?rename,?renameat,?renameat2", "?rename,?renameat,?renameat2", "close", "close", "close", "?fsync,?fdatasync,?ftruncate", "?unlink,?unlinkat", "read", "?pwrite64,?writev"})
	kind := h.Pick(x.rnd, []string{"signal=KILL", "error=ENOSPC", "error=EIO", "error=EDQUOT", "signal=KILL"})
	if calls == "read" {
		kind = "error=EIO"
	}
	when := 1 + x.rnd.IntN(8)
	if calls == "write" || calls == "openat" || calls == "close" {
		when = 1 + x.rnd.IntN(20)
	}
	if calls == "close" && x.rnd.IntN(4) > 0 {
		when = 1 + x.rnd.IntN(4)
	}
	log := filepath.Join(x.dir, "strace.log")
	d := filepath.Join(x.dir, "d")
	if err := os.Mkdir(d, 0o755); err != nil {
		x.t.Fatal(err)
	}
	if exists {
		os.Rename(path, filepath.Join(d, "snap.db"))
	}
	path = filepath.Join(d, "snap.db")
	civ := "1h"
	if onlyClose {
		civ = "0s"
	}
	args := []string{"-D", "-f", "-y", "-s", "64", "-o", log, "-e", "trace=openat,write,?pwrite64,?writev,?rename,?renameat,?renameat2,close,?fsync,?fdatasync,?ftruncate,?unlink,?unlinkat,?linkat,read", "-e", fmt.Sprintf("inject=%s:%s:when=%d", calls, kind, when), "-e", "signal=!SIGURG",
		bin(), "--port=" + fmt.Sprint(x.port()), "--bind=" + x.host(), "--memdb-snapshot-path=" + path, "--memdb-snapshot-interval=0s", "--chore-interval=" + civ}
	s := x.exec("/usr/bin/strace", []string{"GOMAXPROCS=1"}, args...)
	// Wait until it is up, or has ended already.
	up := eventually(6*time.Second, func() bool {
		select {
		case <-s.done:
			return true
		default:
		}
		o := s.out.String()
		return strings.Contains(o, "start listening") && (onlyClose || strings.Contains(o, "start running"))
	})
	if !up {
		x.r.Inconcl("case %d: no start under strace: %s", x.i, tail(s.out.String()))
		return
	}
	time.Sleep(time.Duration(x.rnd.IntN(40)) * time.Millisecond)
	s.signal(syscall.SIGTERM)
	code := s.exited()
	if code == -2 {
		x.bad("hang", "the process did not end after a termination signal with %s of %s %d", kind, calls, when)
		return
	}
	var lg string
	eventually(10*time.Second, func() bool {
		b, _ := os.ReadFile(log)
		lg = string(b)
		return strings.Contains(lg, "+++ exited") || strings.Contains(lg, "+++ killed")
	})
	if lg == "" || strings.Contains(s.out.String(), "PTRACE") {
		x.r.Ev("strace_unavailable")
		return
	}
	x.r.Ev("traced_processes")
	o := s.out.String()
	// Did the fault hit a file of ours?
	hit := ""
	for _, m := range injected.FindAllStringSubmatch(lg, -1) {
		if strings.Contains(m[2], d+"/") {
			hit = m[1] + "(" + m[2] + ")"
		}
	}
	kill := strings.HasPrefix(kind, "signal")
	if kill && strings.Contains(lg, "+++ killed by SIGKILL") {
		x.r.Ev("killed_at_call")
		// The call it died in is unfinished or the last of its thread.
		hit = "killed"
	}
	if hit != "" {
		x.r.Ev("faults_hit:" + strings.TrimLeft(strings.Split(calls, ",")[0], "?"))
		pos := strings.Count(lg[:max(0, strings.Index(lg, "INJECTED"))], "\n")
		x.r.Seen("traced", calls, kind, n, exists, onlyClose, hit[:min(len(hit), 12)], pos)
	}
	loading := hit != "" && !kill && strings.Contains(hit, "snap.db") && !strings.Contains(hit, "snap.db.") && (strings.HasPrefix(hit, "openat") && !strings.Contains(hit, "O_CREAT") || strings.HasPrefix(hit, "read"))
	reading := !kill && calls == "read"
	switch {
	case loading:
		if code <= 0 {
			x.bad("unread", "the snapshot could not be read (%s), but the process ended with %d: %s", hit, code, tail(o))
			return
		}
	case hit != "" && !kill && strings.HasPrefix(hit, "openat") && strings.Contains(hit, "O_CREAT"), hit != "" && !kill && (strings.HasPrefix(hit, "write") || strings.HasPrefix(hit, "rename") || strings.HasPrefix(hit, "fsync") || strings.HasPrefix(hit, "pwrite") || strings.HasPrefix(hit, "close") && temporary.MatchString(hit)):
		x.r.Ev("save_faults_judged:" + hit[:strings.IndexByte(hit, '(')])
		plain := true
		for _, l := range strings.Split(o, "\n") {
			if l != "" && !strings.Contains(l, "start listening") && !strings.Contains(l, "stop listening") && !strings.Contains(l, "start running") && !strings.Contains(l, "stop running") && !strings.Contains(l, "shut down gracefully") {
				plain = false
			}
		}
		if plain && code == 0 {
			x.bad("silent", "a save failed (%s: %s) without a word: %s", hit, kind, tail(o))
			return
		}
		if onlyClose && code <= 0 {
			x.bad("unreported", "the only save failed (%s: %s), but the process ended with %d: %s", hit, kind, code, tail(o))
			return
		}
	case hit == "" && code != 0 && !kill && !strings.Contains(lg, "INJECTED"):
		x.bad("exit", "the process ended with %d without a fault: %s", code, tail(o))
		return
	}
	// The snapshot is the old or the new one.
	_, e := os.Stat(path)
	if os.IsNotExist(e) {
		if exists {
			x.bad("gone", "the snapshot is gone after %s of %s", kind, orNone(hit))
			return
		}
	} else {
		c, err := copied(x.t, path)
		if err != nil {
			x.t.Fatal(err)
		}
		m, err := load(c)
		if err != nil {
			x.bad("corrupt", "the snapshot can not be loaded after %s of %s: %v", kind, orNone(hit), err)
			return
		}
		if g := state(m); !same(g, s0) && !same(g, s1) {
			x.bad("state", "the snapshot is neither the old nor the new one after %s of %s: %s", kind, orNone(hit), diffstate(g, s1))
			return
		}
		if g := state(m); code == 0 && !kill && !reading && !onlyClose && !same(g, s1) {
			x.bad("old", "the process ended successfully with %s of %s, but the snapshot is the old one: %s", kind, orNone(hit), diffstate(g, s1))
			return
		}
	}
	if x.rnd.IntN(4) == 0 {
		shrink(x, path, kind+" of "+orNone(hit))
		return
	}
	// A later start works with whatever was left behind, and so does its save.
	s = x.run(nil, "--port=0", "--memdb-snapshot-path="+path, "--memdb-snapshot-interval=0s", "--chore-interval="+h.Pick(x.rnd, []string{"2ms", "1h"}))
	ok := eventually(patience, func() bool {
		select {
		case <-s.done:
			return true
		default:
		}
		return strings.Contains(s.out.String(), "start running")
	})
	if ok {
		time.Sleep(time.Duration(x.rnd.IntN(10)) * time.Millisecond)
		c, err := copied(x.t, path)
		if err == nil {
			var m map[string]*ratus.Task
			if m, err = load(c); err == nil && !same(state(m), s1) && !same(state(m), s0) {
				err = fmt.Errorf("%s", diffstate(state(m), s1))
			}
		}
		if err != nil && !os.IsNotExist(err) {
			x.bad("later start", "the snapshot during a later start is wrong after %s of %s: %v", kind, orNone(hit), err)
			return
		}
	}
	s.signal(syscall.SIGTERM)
	if c := s.exited(); c != 0 || !ok {
		x.bad("later start", "a later start ended with %d after %s of %s: %s", c, kind, orNone(hit), tail(s.out.String()))
		return
	}
	m, err := load(path)
	if g := state(m); err != nil || !same(g, s1) && !same(g, s0) {
		x.bad("later start", "the snapshot of a later start is wrong after %s of %s: %v %s", kind, orNone(hit), err, diffstate(g, s1))
	}
}

func orNone(s string) string {
	if s == "" {
		return "nothing"
	}
	return s
}

func init() {
	// Exceeding the file size limit is to be an error.
	signal.Notify(make(chan os.Signal, 1), syscall.SIGXFSZ)
	l := []scenario{{"limited", 8, limited}, {"killed", 1, killed}}
	if _, err := exec.LookPath("strace"); err == nil {
		l = append(l, scenario{"traced", 11, traced})
	}
	h.Register("C09", runCases("C09", 800, 9, l))
}
