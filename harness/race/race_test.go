// Package race drives the code under test from many goroutines. It is built
// with the race detector, whose reports the runner collects.
package race

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"path/filepath"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"

	"github.com/hyperonym/ratus/verif/h"
	"github.com/hyperonym/ratus/verif/mgo"
)

// TestCheck runs the check named by the environment.
func TestCheck(t *testing.T) { h.RunChecks(t) }

// span is one thing a goroutine did. Goroutines keep their own lists, so that
// observing them does not order them.
type span struct {
	what       string
	start, end time.Time
}

type log struct{ l []span }

func (g *log) do(what string, f func()) {
	s := span{what: what, start: time.Now()}
	f()
	s.end = time.Now()
	g.l = append(g.l, s)
}

// judge counts which activities overlapped.
func judge(r *h.Report, family string, logs []*log) {
	n := 0
	for i, a := range logs {
		n += len(a.l)
		for _, b := range logs[i+1:] {
			j := 0
			for _, x := range a.l {
				for j < len(b.l) && b.l[j].end.Before(x.start) {
					j++
				}
				for k := j; k < len(b.l) && b.l[k].start.Before(x.end); k++ {
					p, q := x.what, b.l[k].what
					if p > q {
						p, q = q, p
					}
					r.Ev("overlaps")
					r.Seen(family, p, q)
				}
			}
		}
	}
	r.Ev("activities", n)
}

// crew runs goroutines and waits for them.
type crew struct {
	wg   sync.WaitGroup
	logs []*log
}

func (c *crew) run(f func(g *log)) {
	g := &log{}
	c.logs = append(c.logs, g)
	c.wg.Add(1)
	go func() {
		defer c.wg.Done()
		f(g)
	}()
}

var prof = &h.Profile{Name: "race", Weights: h.StdWeights(map[string]int{"sleep": 0, "chore": 0}), Topics: 2, IDs: 6, Ops: 60, Plain: 0.7, Payload: 3, BadFrac: 0.1, Dump: 1 << 30, Prefill: 0}

// walk executes a generated history with the tokens the goroutine has seen.
func walk(g *log, rnd *rand.Rand, ops []*h.Op, do func(q *h.Req) *h.Outcome) {
	own := map[string][]string{}
	for _, o := range ops {
		if !o.IsAPI() {
			continue
		}
		q := o.Resolve(time.Now(), func(n *h.NonceRef) string {
			if l := own[n.ID]; len(l) > 0 && n.Kind != "lit" {
				return l[len(l)-1]
			}
			return n.Lit
		})
		var out *h.Outcome
		g.do(o.K, func() { out = do(q) })
		if x, err := h.TaskFromJSON(out.JSON); err == nil && x.Nonce != "" {
			own[x.ID] = append(own[x.ID], x.Nonce)
		}
		if rnd.IntN(3) == 0 {
			runtime.Gosched()
		}
	}
}

// histories generates one history per goroutine over the same names.
func histories(rnd *rand.Rand, n, ops int, bad float64) (*h.Cfg, [][]*h.Op) {
	p := *prof
	p.Ops, p.BadFrac = ops, bad
	c, first := h.GenCase(rnd, &p)
	l := [][]*h.Op{first}
	for len(l) < n {
		q := p
		q.Gate = func(_ *rand.Rand, d *h.Cfg) { *d = *c }
		_, o := h.GenCase(rnd, &q)
		l = append(l, o)
	}
	return c, l
}

func mem(t *testing.T, rnd *rand.Rand, dir string, i uint64) engine.Engine {
	g, err := memdb.New(&memdb.Config{SnapshotPath: filepath.Join(dir, fmt.Sprintf("snap%d", i)), SnapshotInterval: h.Pick(rnd, []time.Duration{0, time.Millisecond}), RetentionPeriod: h.Pick(rnd, []time.Duration{0, time.Millisecond, time.Hour})})
	if err != nil {
		t.Fatal(err)
	}
	if err := g.Open(context.Background()); err != nil {
		t.Fatal(err)
	}
	return g
}

func mongo(t *testing.T, rnd *rand.Rand, dir string, i uint64) engine.Engine {
	b := mgo.NewBackend(mgo.Mode{Shard: h.Pick(rnd, []string{"", "_id", "topic"}), NoPoll: rnd.IntN(3) == 0})
	g, err := b.Inner(time.Hour)
	if err != nil {
		t.Fatal(err)
	}
	if err := g.Open(context.Background()); err != nil {
		t.Fatal(err)
	}
	return &mgo.Owner{Engine: g, B: b}
}

var headers = []map[string]string{nil, {"Accept-Encoding": "gzip"}, {"Origin": "http://elsewhere.test"}, {"Accept-Encoding": "gzip", "Origin": "null"}}

// server drives the handlers, the engine, maintenance and the exposition.
func server(mk func(t *testing.T, rnd *rand.Rand, dir string, i uint64) engine.Engine, family string, n int) h.Check {
	return func(t *testing.T, p *h.Params, r *h.Report) {
		dir := t.TempDir()
		for _, i := range p.Cases(n) {
			h.Beat("race %s case=%d", family, i)
			rnd := h.NewRand(p.Seed, 2201, i)
			c, l := histories(rnd, 3+rnd.IntN(6), 40, 0.1)
			e := mk(t, rnd, dir, i)
			if rnd.IntN(3) == 0 {
				e = &flaky{e}
				r.Ev("failing_engines")
			}
			hd := h.Handler(e, &config.PaginationConfig{MaxLimit: c.MaxLimit, MaxOffset: c.MaxOffset})
			stop := make(chan struct{})
			var cr, bg crew
			var out [][]*h.Outcome
			for range l {
				out = append(out, nil)
			}
			for j, ops := range l {
				x := h.NewRand(p.Seed, 2202, i, uint64(j))
				cr.run(func(g *log) {
					walk(g, x, ops, func(q *h.Req) *h.Outcome {
						u := q.Path
						if q.Query != "" {
							u += "?" + q.Query
						}
						o := h.Serve(hd, q.Method, u, q.Body, h.Pick(x, headers))
						if o.Panic != "" {
							out[j] = append(out[j], o)
						}
						return o
					})
				})
			}
			loop := func(what string, pause time.Duration, f func()) {
				bg.run(func(g *log) {
					for {
						g.do(what, f)
						select {
						case <-stop:
							return
						case <-time.After(pause):
						}
					}
				})
			}
			loop("chore", time.Millisecond, func() { e.Chore(context.Background()) })
			if rnd.IntN(2) == 0 {
				loop("chore2", time.Millisecond, func() { e.Chore(context.Background()) })
			}
			for range 2 {
				loop("odd", time.Duration(rnd.IntN(3))*time.Millisecond, func() {
					q := odd[rand.IntN(len(odd))]
					h.Serve(hd, q.method, q.path, []byte(q.body), q.header)
				})
			}
			for _, u := range []string{"/v1/metrics", "/v1/readyz", "/v1/livez", "/metrics", "/v1/topics", "/v1/topics/" + h.Escape(c.Topics[0], 0) + "/tasks", "/swagger-ui/"} {
				loop(u[:min(len(u), 10)], time.Duration(1+rnd.IntN(4))*time.Millisecond, func() { h.Serve(hd, "GET", u, nil, nil) })
			}
			cr.wg.Wait()
			close(stop)
			bg.wg.Wait()
			if err := e.Close(context.Background()); err != nil {
				r.Violate(&h.Violation{Props: []string{"C22"}, Sig: "close", Msg: "the engine could not be closed: " + err.Error(), Case: fmt.Sprintf("race case=%d", i)})
			}
			for _, os := range out {
				for _, o := range os {
					r.Violate(&h.Violation{Props: []string{"C22"}, Sig: "panic", Msg: "concurrent requests crash a handler: " + o.Panic, Case: fmt.Sprintf("race case=%d", i), Trace: o.Stack})
				}
			}
			r.Eval(1)
			r.Ev("family:" + family)
			judge(r, family, append(cr.logs, bg.logs...))
		}
	}
}

// flaky fails some operations without having called the engine. It shares no
// memory between goroutines, so that it does not order them.
type flaky struct{ engine.Engine }

var kinds = []error{ratus.ErrServiceUnavailable, ratus.ErrInternalServerError, ratus.ErrConflict, ratus.ErrNotFound, ratus.ErrBadRequest, errors.New("disk on fire"), context.Canceled, io.ErrUnexpectedEOF}

func maybe[T any](f func() (T, error)) (v T, err error) {
	switch rand.IntN(16) {
	case 0, 1:
		return v, kinds[rand.IntN(len(kinds))]
	case 2:
		return v, fmt.Errorf("%w: for now", kinds[rand.IntN(len(kinds))])
	}
	return f()
}

func (g *flaky) Ready(ctx context.Context) error {
	_, err := maybe(func() (int, error) { return 0, g.Engine.Ready(ctx) })
	return err
}
func (g *flaky) Chore(ctx context.Context) error {
	_, err := maybe(func() (int, error) { return 0, g.Engine.Chore(ctx) })
	return err
}
func (g *flaky) Poll(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	return maybe(func() (*ratus.Task, error) { return g.Engine.Poll(ctx, topic, p) })
}
func (g *flaky) Commit(ctx context.Context, id string, m *ratus.Commit) (*ratus.Task, error) {
	return maybe(func() (*ratus.Task, error) { return g.Engine.Commit(ctx, id, m) })
}
func (g *flaky) ListTopics(ctx context.Context, limit, offset int) ([]*ratus.Topic, error) {
	return maybe(func() ([]*ratus.Topic, error) { return g.Engine.ListTopics(ctx, limit, offset) })
}
func (g *flaky) DeleteTopics(ctx context.Context) (*ratus.Deleted, error) {
	return maybe(func() (*ratus.Deleted, error) { return g.Engine.DeleteTopics(ctx) })
}
func (g *flaky) GetTopic(ctx context.Context, topic string) (*ratus.Topic, error) {
	return maybe(func() (*ratus.Topic, error) { return g.Engine.GetTopic(ctx, topic) })
}
func (g *flaky) DeleteTopic(ctx context.Context, topic string) (*ratus.Deleted, error) {
	return maybe(func() (*ratus.Deleted, error) { return g.Engine.DeleteTopic(ctx, topic) })
}
func (g *flaky) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
	return maybe(func() ([]*ratus.Task, error) { return g.Engine.ListTasks(ctx, topic, limit, offset) })
}
func (g *flaky) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	return maybe(func() (*ratus.Updated, error) { return g.Engine.InsertTasks(ctx, ts) })
}
func (g *flaky) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	return maybe(func() (*ratus.Updated, error) { return g.Engine.UpsertTasks(ctx, ts) })
}
func (g *flaky) DeleteTasks(ctx context.Context, topic string) (*ratus.Deleted, error) {
	return maybe(func() (*ratus.Deleted, error) { return g.Engine.DeleteTasks(ctx, topic) })
}
func (g *flaky) GetTask(ctx context.Context, id string) (*ratus.Task, error) {
	return maybe(func() (*ratus.Task, error) { return g.Engine.GetTask(ctx, id) })
}
func (g *flaky) InsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	return maybe(func() (*ratus.Updated, error) { return g.Engine.InsertTask(ctx, t) })
}
func (g *flaky) UpsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	return maybe(func() (*ratus.Updated, error) { return g.Engine.UpsertTask(ctx, t) })
}
func (g *flaky) DeleteTask(ctx context.Context, id string) (*ratus.Deleted, error) {
	return maybe(func() (*ratus.Deleted, error) { return g.Engine.DeleteTask(ctx, id) })
}
func (g *flaky) ListPromises(ctx context.Context, topic string, limit, offset int) ([]*ratus.Promise, error) {
	return maybe(func() ([]*ratus.Promise, error) { return g.Engine.ListPromises(ctx, topic, limit, offset) })
}
func (g *flaky) DeletePromises(ctx context.Context, topic string) (*ratus.Deleted, error) {
	return maybe(func() (*ratus.Deleted, error) { return g.Engine.DeletePromises(ctx, topic) })
}
func (g *flaky) GetPromise(ctx context.Context, id string) (*ratus.Promise, error) {
	return maybe(func() (*ratus.Promise, error) { return g.Engine.GetPromise(ctx, id) })
}
func (g *flaky) InsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	return maybe(func() (*ratus.Task, error) { return g.Engine.InsertPromise(ctx, p) })
}
func (g *flaky) UpsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	return maybe(func() (*ratus.Task, error) { return g.Engine.UpsertPromise(ctx, p) })
}
func (g *flaky) DeletePromise(ctx context.Context, id string) (*ratus.Deleted, error) {
	return maybe(func() (*ratus.Deleted, error) { return g.Engine.DeletePromise(ctx, id) })
}

// odd lists requests beside the ordinary ones: unknown paths and methods,
// preflights, rejected bodies and queries, the bundled documentation.
var odd = []struct {
	method, path, body string
	header             map[string]string
}{
	{"GET", "/nowhere", "", nil},
	{"POST", "/v1/nowhere/else", "{}", nil},
	{"PATCH", "/v1/topics", "", nil},
	{"BREW", "/v1/topics/a", "", nil},
	{"OPTIONS", "/v1/topics/a/tasks", "", map[string]string{"Origin": "http://elsewhere.test", "Access-Control-Request-Method": "PUT"}},
	{"OPTIONS", "/topics", "", nil},
	{"HEAD", "/v1/topics", "", nil},
	{"GET", "/v1/topics?limit=x", "", nil},
	{"GET", "/v1/topics/a/tasks?limit=-1", "", nil},
	{"GET", "/v1/topics/a/promises?offset=9999999999", "", nil},
	{"POST", "/v1/topics/a/tasks", "[", nil},
	{"PUT", "/v1/topics/a/tasks", `{"data":[null]}`, nil},
	{"PUT", "/v1/topics/a/tasks/b", `{"_id":"c"}`, nil},
	{"POST", "/v1/topics/a/tasks/b", "", nil},
	{"PATCH", "/v1/topics/a/tasks/b", `{"state":9}`, nil},
	{"PATCH", "/v1/topics/a/tasks/b", `{"defer":"soon"}`, nil},
	{"POST", "/v1/topics/a/promises", `{"timeout":"soon"}`, nil},
	{"POST", "/v1/topics/a/promises?timeout=soon", "", nil},
	{"PUT", "/v1/topics/a/promises/b", `{"_id":"c"}`, nil},
	{"DELETE", "/v1/topics/", "", nil},
	{"GET", "/swagger.json", "", map[string]string{"Accept-Encoding": "gzip"}},
	{"GET", "/swagger.yaml", "", nil},
	{"GET", "/", "", nil},
}

// client shares clients, options and subscriptions between goroutines.
func client(n int) h.Check {
	return func(t *testing.T, p *h.Params, r *h.Report) {
		dir := t.TempDir()
		for _, i := range p.Cases(n) {
			h.Beat("race client case=%d", i)
			rnd := h.NewRand(p.Seed, 2203, i)
			e := mem(t, rnd, dir, i)
			failing := rnd.IntN(2) == 0
			x := e
			if failing {
				x = &flaky{e}
				r.Ev("failing_engines")
			}
			srv := h.NewMemServer(h.Handler(x, &config.PaginationConfig{MaxLimit: 100, MaxOffset: 100}))
			srv.Redirect()
			opts := &ratus.ClientOptions{Origin: "http://ratus.test:1", Headers: map[string]string{"X-A": "a", "Authorization": "b"}, Timeout: h.Pick(rnd, []time.Duration{0, time.Minute})}
			c, err := ratus.NewClient(opts)
			if err != nil {
				t.Fatal(err)
			}
			var cr, bg crew
			stop := make(chan struct{})
			ctx, cancel := context.WithCancel(context.Background())
			_, l := histories(rnd, 2+rnd.IntN(4), 15, 0)
			for j, ops := range l {
				x := h.NewRand(p.Seed, 2204, i, uint64(j))
				cr.run(func(g *log) {
					c := c
					if j%3 == 2 {
						// Options may be used for several clients.
						var err error
						if c, err = ratus.NewClient(opts); err != nil {
							panic(err)
						}
					}
					d := &h.ClientDriver{C: c}
					walk(g, x, ops, d.Do)
				})
			}
			// Values given to several calls at once are only read.
			now := time.Now()
			st := ratus.TaskStatePending
			shared := &ratus.Task{ID: "s0", Topic: "s", Payload: map[string]any{"k": []any{1.0}}, Scheduled: &now}
			batch := []*ratus.Task{shared, {ID: "s1", Topic: "s"}}
			some := func(l ...string) string { return h.Pick(rnd, l) }
			prom := &ratus.Promise{ID: "s1", Consumer: some("c", ""), Timeout: some("1s", "1s", "")}
			wild := &ratus.Promise{Consumer: some("c", ""), Timeout: some("1s", "")}
			late := now.Add(time.Minute)
			if rnd.IntN(4) == 0 {
				prom.Deadline = &late
			}
			if rnd.IntN(4) == 0 {
				wild = &ratus.Promise{}
			}
			commit := &ratus.Commit{State: &st, Defer: "-1s", Payload: map[string]any{"a": 1.0}}
			switch rnd.IntN(4) {
			case 0:
				commit = &ratus.Commit{}
			case 1:
				commit = &ratus.Commit{Topic: "s", Scheduled: &now}
			}
			switch rnd.IntN(3) {
			case 0:
				shared.Produced, shared.Producer, shared.State, shared.Deadline, shared.Consumed = &now, "p", st, &now, &now
			case 1:
				shared = &ratus.Task{ID: "s0", Topic: "s"}
				batch[0] = shared
			}
			for j := 0; j < 2; j++ {
				cr.run(func(g *log) {
					for k := 0; k < 6; k++ {
						g.do("shared:insert", func() { c.InsertTasks(ctx, batch) })
						g.do("shared:upsert", func() { c.UpsertTask(ctx, shared) })
						g.do("shared:upserts", func() { c.UpsertTasks(ctx, batch) })
						g.do("shared:claim", func() { c.InsertPromise(ctx, prom) })
						g.do("shared:force", func() { c.UpsertPromise(ctx, prom) })
						g.do("shared:poll", func() {
							if x, err := c.Poll(ctx, "s", prom); err == nil {
								x.Retry("-1s").Commit()
							}
						})
						g.do("shared:poll2", func() { c.Poll(ctx, "s", wild) })
						g.do("shared:insert1", func() { c.InsertTask(ctx, shared) })
						g.do("shared:patch", func() { c.PatchTask(ctx, "s0", commit) })
						g.do("shared:cancelled", func() {
							cut, done := context.WithTimeout(ctx, time.Duration(rand.IntN(200))*time.Microsecond)
							defer done()
							c.GetTask(cut, "s0")
							c.Poll(cut, "s", wild)
						})
						g.do("shared:health", func() { c.GetLiveness(ctx); c.GetReadiness(ctx) })
					}
				})
			}
			// Concurrent subscriptions with the same options, and contexts
			// watched from other goroutines while they are committed.
			so := &ratus.SubscribeOptions{Promise: &ratus.Promise{Consumer: some("sub", ""), Timeout: some("1m", "")}, Topic: "q", Concurrency: 2 + rnd.IntN(3), ConcurrencyDelay: time.Microsecond, DrainInterval: time.Millisecond, ErrorInterval: time.Millisecond}
			switch rnd.IntN(8) {
			case 0, 1:
				so.Promise = &ratus.Promise{}
			case 2:
				so.Promise.Deadline = &late
			case 3:
				so.Concurrency, so.ConcurrencyDelay = 0, 0
			case 4:
				so.DrainInterval, so.ErrorInterval = 0, 0
			}
			feed := make([]*ratus.Task, 30)
			for j := range feed {
				feed[j] = &ratus.Task{ID: fmt.Sprintf("q%d", j), Topic: "q", Produced: &now, Scheduled: &now, Payload: map[string]any{"n": float64(j)}}
			}
			if _, err := e.InsertTasks(ctx, feed); err != nil {
				t.Fatal(err)
			}
			var handled sync.Map
			for j := 0; j < 2; j++ {
				mode := rnd.IntN(4)
				cr.run(func(g *log) {
					sctx, done := context.WithTimeout(ctx, 150*time.Millisecond)
					defer done()
					g.do("subscribe", func() {
						c.Subscribe(sctx, so, func(x *ratus.Context, err error) {
							if err != nil {
								return
							}
							var wg sync.WaitGroup
							for k := 0; k < 2; k++ {
								wg.Add(1)
								go func() {
									defer wg.Done()
									x.Deadline()
									x.Value("k")
									_ = x.Task.ID
									_ = x.Task.Payload
									for n := 0; n < 50 && x.Err() == nil; n++ {
										select {
										case <-x.Done():
										case <-time.After(20 * time.Microsecond):
										}
									}
								}()
							}
							switch mode {
							case 0:
								x.SetPayload("done").Archive()
								x.Commit()
							case 1:
								x.Force().SetTopic("q2").SetScheduled(time.Now()).Commit()
							case 2:
								x.Reset().SetNonce(x.Task.Nonce)
							}
							wg.Wait()
							handled.Store(x.Task.ID, true)
						})
					})
				})
			}
			bg.run(func(g *log) {
				for {
					g.do("chore", func() { e.Chore(context.Background()) })
					select {
					case <-stop:
						return
					case <-time.After(2 * time.Millisecond):
					}
				}
			})
			cr.wg.Wait()
			cancel()
			close(stop)
			bg.wg.Wait()
			k := 0
			handled.Range(func(_, _ any) bool { k++; return true })
			r.Ev("handled", k)
			srv.Stop()
			http.DefaultTransport.(*http.Transport).CloseIdleConnections()
			e.Close(context.Background())
			r.Eval(1)
			r.Ev("family:client")
			judge(r, "client", append(cr.logs, bg.logs...))
		}
	}
}

func init() {
	h.Register("C22", server(mem, "server", 160))
	h.Register("C22", client(80))
	h.Register("C22", server(mongo, "mongodb", 80))
}
