package h

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
)

// Backend builds the system under test for one case.
type Backend interface {
	// NewEngine returns a fresh, unopened engine instance over the same
	// storage as the previous ones of this case.
	NewEngine(c *Cfg, snap string) (engine.Engine, error)
	// Driver returns the way requests reach the engine.
	Driver(g engine.Engine, pc *config.PaginationConfig) Driver
	// Done releases what the case holds.
	Done()
}

// MemBackend is the in-memory engine behind the real router.
type MemBackend struct{}

// NewEngine implements Backend.
func (MemBackend) NewEngine(c *Cfg, snap string) (engine.Engine, error) {
	return memdb.New(&memdb.Config{SnapshotPath: snap, SnapshotInterval: c.Interval, RetentionPeriod: c.Retention})
}

// Driver implements Backend.
func (MemBackend) Driver(g engine.Engine, pc *config.PaginationConfig) Driver {
	return &PlainDriver{Handler(g, pc)}
}

// Done implements Backend.
func (MemBackend) Done() {}

// CaseResult is what one history showed.
type CaseResult struct {
	Div   *Div
	At    int
	Log   []string
	Stats map[string]int64
	Shape []string
}

type runner struct {
	ctx    context.Context
	cfg    *Cfg
	m      *Model
	g      engine.Engine
	d      Driver
	b      Backend
	snap   string
	full   *Listing
	st     map[string]int64
	ids    map[string]bool
	tops   map[string]bool
	disk   map[string]*MTask // contents of the last snapshot
	fileB  []byte
	saved  *time.Time
	opened bool
}

// RunCase executes a history in a virtual-time bubble and judges every step.
func RunCase(t *testing.T, c *Cfg, ops []*Op, mk func() Backend, tune func(*Model)) *CaseResult {
	var res *CaseResult
	Beat("history of %d operations", len(ops))
	synctest.Test(t, func(t *testing.T) {
		res = runCase(c, ops, mk(), tune)
	})
	return res
}

// TaskOf converts a task as returned by an engine.
func TaskOf(t *ratus.Task) *MTask {
	u := &MTask{ID: t.ID, Topic: t.Topic, State: int(t.State), Nonce: t.Nonce, Producer: t.Producer, Consumer: t.Consumer, Produced: t.Produced, Scheduled: t.Scheduled, Consumed: t.Consumed, Deadline: t.Deadline}
	if t.Payload != nil {
		u.Payload = Norm(t.Payload)
	}
	return u
}

func runCase(c *Cfg, ops []*Op, b Backend, tune func(*Model)) *CaseResult {
	res := &CaseResult{At: -1, Stats: map[string]int64{}}
	r := &runner{ctx: context.Background(), cfg: c, m: NewModel(), b: b, st: res.Stats, ids: map[string]bool{}, tops: map[string]bool{}}
	defer b.Done()
	r.m.MaxLimit, r.m.MaxOffset, r.m.Retention = c.MaxLimit, c.MaxOffset, c.Retention
	if tune != nil {
		tune(r.m)
	}
	for _, s := range c.IDs {
		r.ids[s] = true
	}
	for _, s := range c.Topics {
		r.tops[s] = true
	}
	if c.Snapshot {
		dir, err := os.MkdirTemp("", "ratus-verif-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		r.snap = filepath.Join(dir, "snapshot.db")
	}
	if err := r.open(); err != nil {
		res.Div = div([]string{"C08"}, "open", "opening a fresh engine failed: %v", err)
		return res
	}
	r.full = &Listing{Tasks: map[string][]string{}, Proms: map[string][]string{}}
	for i, o := range ops {
		line, d := r.step(o, i)
		res.Log = append(res.Log, line)
		if d == nil && (c.DumpEvery <= 1 || i%c.DumpEvery == 0 || i == len(ops)-1 || o.K == "chore" || o.K == "restart" || o.K == "crash" || strings.HasPrefix(o.K, "list")) {
			// Dumps after chores resolve what maintenance was allowed to do.
		}
		if d != nil {
			res.Div, res.At = d, i
			break
		}
	}
	if res.Div == nil {
		if d := r.dump(nil, nil, nil); d != nil {
			res.Div, res.At = d, len(ops)-1
		}
	}
	if r.g != nil {
		r.g.Close(r.ctx)
	}
	return res
}

func (r *runner) open() error {
	g, err := r.b.NewEngine(r.cfg, r.snap)
	if err != nil {
		return err
	}
	if err := g.Open(r.ctx); err != nil {
		return err
	}
	r.g = g
	r.d = r.b.Driver(g, &config.PaginationConfig{MaxLimit: r.cfg.MaxLimit, MaxOffset: r.cfg.MaxOffset})
	r.saved = nil
	return nil
}

func (r *runner) nonce(n *NonceRef) string {
	cur := ""
	if t := r.m.Tasks[n.ID]; t != nil {
		cur = t.Nonce
	}
	switch n.Kind {
	case "cur":
		return cur
	case "lit":
		return n.Lit
	case "stale":
		h := r.m.History[n.ID]
		k := len(h) - n.N
		if k >= 0 && h[k] == cur {
			k--
		}
		if k >= 0 {
			return h[k]
		}
		return "stalestalestales"
	case "mut":
		if cur == "" {
			return "x"
		}
		b := []byte(cur)
		switch n.N {
		case 0:
			return cur[:len(cur)-1]
		case 1:
			return cur + "x"
		case 2:
			b[0] ^= 0x20
			return string(b)
		case 3:
			if b[len(b)-1] == 'Z' {
				b[len(b)-1] = 'Y'
			} else {
				b[len(b)-1] = 'Z'
			}
			return string(b)
		case 4:
			return strings.ToLower(cur) + "A"
		default:
			return " " + cur
		}
	}
	return cur
}

func (r *runner) step(o *Op, i int) (string, *Div) {
	now := time.Now()
	switch o.K {
	case "sleep":
		time.Sleep(time.Duration(o.D))
		r.st["slept"]++
		return fmt.Sprintf("sleep %v", time.Duration(o.D)), nil
	case "chore":
		return r.chore(now)
	case "restart", "crash":
		return r.restart(o.K)
	case "checksnap":
		return r.checkSnap()
	}
	// Listings are judged against the complete listing of the same state.
	if strings.HasPrefix(o.K, "list") && r.cfg.DumpEvery > 1 {
		if d := r.dump(nil, nil, nil); d != nil {
			return o.K, d
		}
	}
	q := o.Resolve(now, r.nonce)
	if b := q.Body; b != nil && (q.K == "insTasks" || q.K == "upsTasks" || q.K == "insTask" || q.K == "upsTask") {
		r.ids["ok"] = true
		r.tops["t"] = true
	}
	out := r.d.Do(q)
	line := fmt.Sprintf("[%v] %s -> %d %s", now.Format("2006-01-02T15:04:05.999999999Z07:00"), q.desc(), out.Code, Q(string(out.Body)))
	before := r.m.Tasks
	d := r.m.Apply(q, out, now, r.full)
	if d != nil {
		return line, d
	}
	r.st["op:"+o.K]++
	r.st[fmt.Sprintf("status:%d", out.Code)]++
	if q.K == "poll" && out.Code == 200 {
		r.st["claims"]++
	}
	if r.cfg.DumpEvery <= 1 || i%r.cfg.DumpEvery == 0 {
		d = r.dump(q, before, out)
	}
	return line, d
}

func (r *runner) chore(now time.Time) (string, *Div) {
	if err := r.g.Chore(r.ctx); err != nil {
		return "chore", div(tags("chore", "C08", "C09"), "chore:error", "maintenance failed: %v", err)
	}
	r.st["op:chore"]++
	allow := r.m.ChoreMaybe(now)
	if d := r.dumpAllow(&Req{K: "chore"}, r.m.Tasks, allow); d != nil {
		return "chore", d
	}
	// Periodic snapshots: due ones must have been written.
	if r.snap != "" {
		b, err := os.ReadFile(r.snap)
		if err != nil && !os.IsNotExist(err) {
			panic(err)
		}
		written := err == nil && (r.fileB == nil || !bytes.Equal(b, r.fileB) || r.saved == nil)
		must := r.saved == nil || !r.saved.Add(r.cfg.Interval).After(now)
		if must {
			if err != nil {
				return "chore", div([]string{"C08"}, "snapshot:missing", "no snapshot although none was written for the interval %v", r.cfg.Interval)
			}
			r.disk = CopyTasks(r.m.Tasks)
			n := now
			r.saved = &n
			if d := r.verifyFile(b); d != nil {
				return "chore", d
			}
			r.st["snapshots"]++
		} else if written && !bytes.Equal(b, r.fileB) {
			r.disk = CopyTasks(r.m.Tasks)
		}
		r.fileB = b
	}
	return fmt.Sprintf("[%v] chore", now.Format(time.RFC3339Nano)), nil
}

// verifyFile loads a copy of the snapshot into another engine and compares.
func (r *runner) verifyFile(b []byte) *Div {
	p := r.snap + ".verify"
	if err := os.WriteFile(p, b, 0o600); err != nil {
		panic(err)
	}
	defer os.Remove(p)
	g, err := r.b.NewEngine(r.cfg, p)
	if err != nil {
		panic(err)
	}
	if err := g.Open(r.ctx); err != nil {
		return div([]string{"C08", "C09"}, "snapshot:unloadable", "the periodic snapshot cannot be loaded: %v", err)
	}
	got, err := r.readAll(g)
	if err != nil {
		return div([]string{"C08"}, "snapshot:read", "reading the restored store failed: %v", err)
	}
	return r.cmpStates("snapshot", r.disk, got)
}

func (r *runner) cmpStates(what string, want, got map[string]*MTask) *Div {
	for id, t := range want {
		g := got[id]
		if g == nil {
			return div([]string{"C08", "C26"}, what+":lost", "%s lost task %s: %s", what, Q(id), J(t))
		}
		if f := r.m.Diff(t, g); f != nil {
			return div(append([]string{"C08"}, restFields(f)...), what+":fields:"+Join(f), "%s changed %v of task %s: got %s want %s", what, f, Q(id), J(g), J(t))
		}
	}
	for id, g := range got {
		if want[id] == nil {
			return div([]string{"C08"}, what+":ghost", "%s resurrected task %s: %s", what, Q(id), J(g))
		}
	}
	return nil
}

func restFields(f []string) []string {
	for _, x := range f {
		switch x {
		case "payload", "producer", "consumer", "id", "topic", "produced", "scheduled", "consumed", "deadline":
			return []string{"C26"}
		case "nonce":
			return []string{"C03"}
		}
	}
	return nil
}

func (r *runner) readAll(g engine.Engine) (map[string]*MTask, error) {
	out := map[string]*MTask{}
	for id := range r.ids {
		t, err := g.GetTask(r.ctx, id)
		if errors.Is(err, ratus.ErrNotFound) {
			continue
		}
		if err != nil {
			return nil, err
		}
		out[id] = TaskOf(t)
	}
	tl, err := g.ListTopics(r.ctx, 1<<30, 0)
	if err != nil {
		return nil, err
	}
	for _, tp := range tl {
		ts, err := g.ListTasks(r.ctx, tp.Name, 1<<30, 0)
		if err != nil {
			return nil, err
		}
		for _, t := range ts {
			if out[t.ID] == nil {
				out[t.ID] = TaskOf(t)
			}
		}
	}
	return out, nil
}

func (r *runner) restart(kind string) (string, *Div) {
	if r.snap == "" {
		return kind + " (no snapshot)", nil
	}
	want := r.m.Tasks
	if kind == "restart" {
		if err := r.g.Close(r.ctx); err != nil {
			return kind, div([]string{"C08"}, "close:error", "closing the engine failed: %v", err)
		}
	} else {
		want = r.disk
		if want == nil {
			want = map[string]*MTask{}
		}
	}
	r.g = nil
	if err := r.open(); err != nil {
		return kind, div([]string{"C08", "C09"}, "reopen:error", "the snapshot cannot be loaded: %v", err)
	}
	r.m.Tasks = CopyTasks(want)
	r.disk = CopyTasks(want)
	r.fileB, _ = os.ReadFile(r.snap)
	got, err := r.readAll(r.g)
	if err != nil {
		return kind, div([]string{"C08"}, kind+":read", "reading the restored store failed: %v", err)
	}
	if d := r.cmpStates(kind, want, got); d != nil {
		return kind, d
	}
	r.st["op:"+kind]++
	r.st["restored_tasks"] += int64(len(want))
	return kind, r.dump(&Req{K: kind}, r.m.Tasks, nil)
}

func (r *runner) checkSnap() (string, *Div) { return "checksnap", nil }

func (r *runner) dump(q *Req, before map[string]*MTask, out *Outcome) *Div {
	return r.dumpAllow2(q, before, nil, out)
}

func (r *runner) dumpAllow(q *Req, before map[string]*MTask, allow map[string][]*MTask) *Div {
	return r.dumpAllow2(q, before, allow, nil)
}

// dumpAllow2 compares the complete store with the model.
func (r *runner) dumpAllow2(q *Req, before map[string]*MTask, allow map[string][]*MTask, out *Outcome) *Div {
	if q == nil {
		q = &Req{K: "getTask"}
	}
	r.st["dumps"]++
	for id := range r.m.Tasks {
		r.ids[id] = true
	}
	for id := range before {
		r.ids[id] = true
	}
	next := map[string]*MTask{}
	for id := range r.ids {
		want := []*MTask{r.m.Tasks[id]}
		if allow != nil {
			if w, ok := allow[id]; ok {
				want = w
			}
		}
		var got *MTask
		t, err := r.g.GetTask(r.ctx, id)
		if err == nil {
			got = TaskOf(t)
		} else if !errors.Is(err, ratus.ErrNotFound) {
			return div(tags(q.K), q.K+":get-error", "reading %s failed: %v", Q(id), err)
		}
		ok := false
		for _, w := range want {
			if w == nil && got == nil || w != nil && got != nil && r.m.Diff(w, got) == nil {
				ok = true
				if w != nil {
					next[id] = w
				}
			}
		}
		if !ok {
			return r.blame(q, id, want[0], got, before[id], out)
		}
		r.st["tasks_compared"]++
	}
	r.m.Tasks = next
	// Listings must agree with the single reads.
	full := &Listing{Tasks: map[string][]string{}, Proms: map[string][]string{}}
	perT, perP := map[string][]string{}, map[string][]string{}
	for id, t := range next {
		r.tops[t.Topic] = true
		perT[t.Topic] = append(perT[t.Topic], id)
		if t.State == Active {
			perP[t.Topic] = append(perP[t.Topic], id)
		}
	}
	tl, err := r.g.ListTopics(r.ctx, 1<<30, 0)
	if err != nil {
		return div([]string{"C13"}, "list-error", "listing topics failed: %v", err)
	}
	for _, tp := range tl {
		full.Topics = append(full.Topics, tp.Name)
		r.tops[tp.Name] = true
	}
	var wantT []string
	for tp := range perT {
		wantT = append(wantT, tp)
	}
	if d := r.sameSet(q, "topics", full.Topics, wantT, nil); d != nil {
		return d
	}
	for tp := range r.tops {
		ts, err := r.g.ListTasks(r.ctx, tp, 1<<30, 0)
		if err != nil {
			return div([]string{"C13"}, "list-error", "listing tasks failed: %v", err)
		}
		var ids []string
		for _, t := range ts {
			ids = append(ids, t.ID)
			if w := next[t.ID]; w != nil {
				if f := r.m.Diff(w, TaskOf(t)); f != nil {
					return div([]string{"C13", "C10"}, "list:fields:"+Join(f), "after %s: task %s is listed with different %v: got %s want %s", q.K, Q(t.ID), f, J(TaskOf(t)), J(w))
				}
			}
		}
		if d := r.sameSet(q, "tasks of "+Q(tp), ids, perT[tp], []string{"C06"}); d != nil {
			return d
		}
		full.Tasks[tp] = ids
		ps, err := r.g.ListPromises(r.ctx, tp, 1<<30, 0)
		if err != nil {
			return div([]string{"C13"}, "list-error", "listing promises failed: %v", err)
		}
		ids = nil
		for _, p := range ps {
			ids = append(ids, p.ID)
		}
		if d := r.sameSet(q, "promises of "+Q(tp), ids, perP[tp], []string{"C12", "C06"}); d != nil {
			return d
		}
		full.Proms[tp] = ids
	}
	r.full = full
	return nil
}

func (r *runner) sameSet(q *Req, what string, got, want []string, more []string) *Div {
	g := append([]string{}, got...)
	w := append([]string{}, want...)
	sort.Strings(g)
	sort.Strings(w)
	if len(g) == 0 && len(w) == 0 || reflect.DeepEqual(g, w) {
		return nil
	}
	return div(append([]string{"C13"}, more...), "listing:"+strings.Fields(what)[0], "after %s: complete listing of %s is %s, expected %s", q.K, what, J(got), J(want))
}

// blame attributes a wrong stored task to properties.
func (r *runner) blame(q *Req, id string, want, got, before *MTask, out *Outcome) *Div {
	addressed := true
	switch q.K {
	case "insTask", "upsTask", "delTask", "commit", "claim", "force", "delProm":
		addressed = id == q.ID
	case "delTasks", "delTopic", "delProms", "poll":
		addressed = before != nil && before.Topic == q.Topic
	case "getTask", "getTopic", "listTopics", "listTasks", "listProms", "getProm":
		addressed = false
	}
	t := tags(q.K)
	if q.K == "chore" {
		t = nil
		switch {
		case before == nil:
			t = []string{"C04", "C07"}
		case before.State == Active:
			t = []string{"C04"}
		case before.State == Completed:
			t = []string{"C07"}
			if got == nil {
				t = append(t, "C04")
			}
		default:
			t = []string{"C07", "C04"}
		}
	}
	if !addressed {
		t = append(t, "C06")
	}
	if out != nil && out.Code == 400 {
		t = append(t, "C14")
	}
	d := r.m.Diff
	switch {
	case want == nil:
		return div(t, q.K+":state:extra", "after %s, task %s exists although it should not: %s", q.K, Q(id), J(got))
	case got == nil:
		return div(append(t, "C04"), q.K+":state:lost", "after %s, task %s is gone: %s", q.K, Q(id), J(want))
	default:
		f := d(want, got)
		return div(append(t, fieldTags(q.K, f)...), q.K+":state:"+Join(f), "after %s, stored task %s differs in %v: got %s want %s", q.K, Q(id), f, J(got), J(want))
	}
}

// Shrink minimizes a failing history by removing operations.
func Shrink(t *testing.T, c *Cfg, ops []*Op, mk func() Backend, tune func(*Model), same func(*CaseResult) bool) []*Op {
	cur := ops
	for n := len(cur) / 2; n >= 1; {
		done := false
		for i := 0; i+n <= len(cur); i++ {
			cand := append(append([]*Op{}, cur[:i]...), cur[i+n:]...)
			if res := RunCase(t, c, cand, mk, tune); res.Div != nil && same(res) {
				cur = cand
				done = true
				break
			}
		}
		if !done {
			n /= 2
		}
	}
	return cur
}
