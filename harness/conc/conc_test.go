// Package conc explores interleavings of concurrent operations. It is built
// with an overlay that puts a scheduling point before every statement of the
// code under test.
package conc

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/verifyield"

	"github.com/hyperonym/ratus/verif/h"
)

// TestCheck runs the check named by the environment.
func TestCheck(t *testing.T) { h.RunChecks(t) }

// sched makes the calling goroutine yield at random scheduling points.
type sched struct {
	mu sync.Mutex
	r  *rand.Rand
	p  float64
	n  int64
}

func (s *sched) point() {
	s.mu.Lock()
	s.n++
	k := 0
	if s.r.Float64() < s.p {
		k = 1 + s.r.IntN(3)
	}
	s.mu.Unlock()
	for ; k > 0; k-- {
		runtime.Gosched()
	}
}

// plan is a generated concurrent case.
type plan struct {
	cfg    *h.Cfg
	setup  []*h.Op
	rounds []round
}

type round struct {
	clients [][]*h.Op
	sleep   time.Duration
}

type profile struct {
	kinds   []h.W
	topics  int
	ids     int
	setup   int
	clients int
	ops     int
	rounds  int
	chores  bool // several clients run maintenance
}

func sp(s string) *string { return &s }
func ip(n int) *int       { return &n }

func weights(m map[string]int) []h.W {
	var o []h.W
	for _, k := range []string{"insTask", "insTasks", "upsTask", "upsTasks", "delTask", "delTasks", "delTopic", "delTopics", "getTask", "getTopic", "listTopics", "listTasks", "listProms", "getProm", "poll", "claim", "force", "delProm", "delProms", "commit", "chore"} {
		if m[k] > 0 {
			o = append(o, h.W{K: k, N: m[k]})
		}
	}
	return o
}

func profileOf(id string) *profile {
	w := weights
	p := &profile{topics: 2, ids: 4, setup: 3, clients: 4, ops: 3, rounds: 3}
	switch id {
	case "C01":
		p.kinds = w(map[string]int{"poll": 40, "claim": 20, "commit": 15, "chore": 8, "delProm": 4, "delProms": 2, "force": 2, "upsTask": 3, "getTask": 3})
		p.topics = 1
	case "C03":
		p.kinds = w(map[string]int{"poll": 15, "claim": 10, "force": 10, "commit": 50, "chore": 8, "delProm": 6, "delProms": 3, "upsTask": 5})
		p.topics, p.ids, p.setup = 1, 2, 2
	case "C04":
		p.kinds = w(map[string]int{"insTask": 12, "insTasks": 8, "poll": 25, "claim": 8, "commit": 25, "chore": 15, "delProm": 4, "getTask": 6, "force": 3})
	case "C10":
		p.kinds = w(map[string]int{"insTask": 20, "insTasks": 20, "upsTask": 12, "upsTasks": 12, "delTask": 12, "delTasks": 6, "delTopic": 6, "delTopics": 3, "poll": 5, "commit": 5, "listTasks": 5})
	case "C12":
		p.kinds = w(map[string]int{"claim": 20, "force": 15, "delProm": 15, "delProms": 12, "listProms": 12, "getProm": 8, "poll": 10, "commit": 8, "chore": 5})
		p.topics, p.ids = 2, 3
	default:
		p.kinds = w(map[string]int{"insTask": 6, "insTasks": 10, "upsTask": 5, "upsTasks": 8, "delTask": 4, "delTasks": 4, "delTopic": 4, "delTopics": 2, "getTask": 6, "getTopic": 4, "listTopics": 6, "listTasks": 10, "listProms": 8, "getProm": 3, "poll": 15, "claim": 6, "force": 4, "delProm": 4, "delProms": 6, "commit": 15, "chore": 8})
	}
	return p
}

var timeouts = []string{"-1s", "-1h", "1h", "10m", "1s", "3s"}
var defers = []string{"-5s", "1s", "2s", "-1h"}

type gen struct {
	r       *rand.Rand
	p       *profile
	ts, ids []string
	n       int
}

func (g *gen) topic() string { return h.Pick(g.r, g.ts) }
func (g *gen) id() string    { return h.Pick(g.r, g.ids) }

func (g *gen) task(id, topic string) *h.TaskSpec {
	g.n++
	t := &h.TaskSpec{ID: sp(id), Topic: sp(topic), Producer: sp(fmt.Sprintf("p%d", g.n)), HasPayload: true, Payload: float64(g.n)}
	if g.r.IntN(3) == 0 {
		t.Defer = sp(h.Pick(g.r, defers))
	}
	if g.r.IntN(8) == 0 {
		t.State = ip(g.r.IntN(4))
		if *t.State == h.Completed {
			t.Consumed = &h.TS{Rel: true, Ns: int64(-time.Duration(1+g.r.IntN(200))*time.Hour - 7*time.Minute)}
		}
		if *t.State == h.Active {
			t.Nonce = sp(fmt.Sprintf("given%d", g.n))
			t.Deadline = &h.TS{Rel: true, Ns: int64(h.Pick(g.r, []time.Duration{-time.Hour, time.Hour, -time.Second}))}
		}
	}
	return t
}

func (g *gen) op(k string) *h.Op {
	r := g.r
	g.n++
	o := &h.Op{K: k, T: g.topic(), ID: g.id()}
	if !strings.Contains(h.Routes[k][1], ":id") {
		o.ID = ""
	}
	switch k {
	case "insTask", "upsTask":
		o.Task = g.task(o.ID, o.T)
	case "insTasks", "upsTasks":
		o.Tasks = []*h.TaskSpec{}
		for i, n := 0, 1+r.IntN(3); i < n; i++ {
			o.Tasks = append(o.Tasks, g.task(g.id(), g.topic()))
		}
	case "poll", "claim", "force":
		o.Prom = &h.PromSpec{Consumer: sp(fmt.Sprintf("c%d", g.n)), Timeout: sp(h.Pick(r, timeouts))}
	case "commit":
		c := &h.CommitSpec{}
		if r.IntN(5) > 0 {
			c.Nonce = &h.NonceRef{Kind: h.Pick(r, []string{"cur", "cur", "cur", "stale"}), ID: o.ID, N: 1 + r.IntN(3)}
		}
		if r.IntN(2) == 0 {
			c.State = ip(r.IntN(4))
		}
		if r.IntN(4) == 0 {
			c.Topic = sp(g.topic())
		}
		if r.IntN(4) == 0 {
			c.Defer = sp(h.Pick(r, defers))
		}
		if r.IntN(2) == 0 {
			c.HasPayload, c.Payload = true, float64(g.n)
		}
		o.Commit = c
	case "listTopics", "listTasks", "listProms":
		o.Lim, o.Off = sp("100"), sp("0")
	}
	return o
}

func generate(r *rand.Rand, p *profile) *plan {
	g := &gen{r: r, p: p}
	for i := 0; i < p.topics; i++ {
		g.ts = append(g.ts, fmt.Sprintf("t%d", i))
	}
	for i := 0; i < p.ids; i++ {
		g.ids = append(g.ids, fmt.Sprintf("i%d", i))
	}
	pl := &plan{cfg: &h.Cfg{MaxLimit: 100, MaxOffset: 100, Retention: 72 * time.Hour, Interval: time.Hour}}
	for i, n := 0, r.IntN(p.setup+1); i < n; i++ {
		o := &h.Op{K: "upsTask", T: g.topic(), ID: g.ids[i%len(g.ids)]}
		o.Task = g.task(o.ID, o.T)
		pl.setup = append(pl.setup, o)
	}
	for i := 0; i < 1+r.IntN(p.rounds); i++ {
		rd := round{sleep: h.Pick(r, []time.Duration{0, 2 * time.Second, 5 * time.Second, 80 * time.Hour})}
		rd.sleep += 1234 * time.Millisecond
		for j := 0; j < 2+r.IntN(p.clients-1); j++ {
			var l []*h.Op
			for k := 0; k < 1+r.IntN(p.ops); k++ {
				l = append(l, g.op(h.PickW(r, p.kinds)))
			}
			rd.clients = append(rd.clients, l)
		}
		// Only one client runs maintenance, as in a real process.
		seen := false
		for j := range rd.clients {
			if p.chores {
				break
			}
			has := false
			var l []*h.Op
			for _, o := range rd.clients[j] {
				if o.K == "chore" {
					if seen {
						continue
					}
					has = true
				}
				l = append(l, o)
			}
			seen = seen || has
			rd.clients[j] = l
		}
		pl.rounds = append(pl.rounds, rd)
	}
	return pl
}

// bulk generates a case in which single operations concern many tasks.
func bulk(r *rand.Rand) *plan {
	p := &profile{topics: 2, ids: 4}
	g := &gen{r: r, p: p, ts: []string{"t0", "t1"}}
	n := h.Pick(r, []int{20 + r.IntN(100), 64 + r.IntN(3), 100 + r.IntN(3), 128 + r.IntN(3), 200 + r.IntN(3), 256 + r.IntN(3)})
	for i := 0; i < n; i++ {
		g.ids = append(g.ids, fmt.Sprintf("i%d", i))
	}
	pl := &plan{cfg: &h.Cfg{MaxLimit: 2000, MaxOffset: 2000, Retention: 72 * time.Hour, Interval: time.Hour}}
	style := r.IntN(5)
	batch := func(k string, a, b int) *h.Op {
		o := &h.Op{K: k, T: "t0", Tasks: []*h.TaskSpec{}}
		for i := a; i < b; i++ {
			g.n++
			t := &h.TaskSpec{ID: sp(fmt.Sprintf("i%d", i)), Topic: sp(g.topic()), Producer: sp(fmt.Sprintf("p%d", g.n))}
			st := style
			if st == 4 {
				st = r.IntN(4)
			}
			t.State = ip(st)
			if st == h.Completed {
				t.Consumed = &h.TS{Rel: true, Ns: int64(-time.Duration(1+r.IntN(200))*time.Hour - 7*time.Minute)}
			}
			if st == h.Active {
				t.Nonce = sp(fmt.Sprintf("given%d", g.n))
				t.Deadline = &h.TS{Rel: true, Ns: int64(h.Pick(r, []time.Duration{-time.Hour, time.Hour, -time.Second}))}
			}
			o.Tasks = append(o.Tasks, t)
		}
		return o
	}
	if r.IntN(4) > 0 {
		pl.setup = append(pl.setup, batch("upsTasks", 0, h.Pick(r, []int{n, n / 2})))
	}
	wide := weights(map[string]int{"insTasks": 12, "upsTasks": 8, "delTasks": 8, "delTopic": 8, "delTopics": 5, "delProms": 10, "chore": 12})
	narrow := weights(map[string]int{"getTopic": 12, "listTasks": 12, "listProms": 8, "listTopics": 6, "getTask": 4, "poll": 6, "delTask": 2, "upsTask": 2})
	for i := 0; i < 1+r.IntN(2); i++ {
		rd := round{sleep: h.Pick(r, []time.Duration{0, 5 * time.Second, 80 * time.Hour}) + 1234*time.Millisecond}
		chore := false
		for j, m := 0, 2+r.IntN(2); j < m; j++ {
			var l []*h.Op
			for k := 0; k < 1+r.IntN(2); k++ {
				w := narrow
				if j == 0 || r.IntN(3) == 0 {
					w = wide
				}
				k := h.PickW(r, w)
				if k == "chore" && chore {
					k = "getTopic"
				}
				switch k {
				case "insTasks", "upsTasks":
					l = append(l, batch(k, r.IntN(n), n))
				default:
					l = append(l, g.op(k))
				}
				chore = chore || k == "chore"
			}
			for k, o := range l {
				if strings.HasPrefix(o.K, "list") {
					l[k].Lim = sp("2000")
				}
			}
			rd.clients = append(rd.clients, l)
		}
		pl.rounds = append(pl.rounds, rd)
	}
	return pl
}

// tokens is the shared knowledge of the clients about claim tokens.
type tokens struct {
	mu sync.Mutex
	m  map[string][]string
}

func (x *tokens) saw(o *h.Outcome) {
	t, err := h.TaskFromJSON(o.JSON)
	if err != nil || t.Nonce == "" {
		return
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	if l := x.m[t.ID]; len(l) == 0 || l[len(l)-1] != t.Nonce {
		x.m[t.ID] = append(l, t.Nonce)
	}
}

func (x *tokens) get(n *h.NonceRef) string {
	x.mu.Lock()
	defer x.mu.Unlock()
	l := x.m[n.ID]
	k := len(l) - 1
	if n.Kind == "stale" {
		k -= n.N
	}
	if k < 0 {
		return "nosuchtokennosuc"
	}
	return l[k]
}

type result struct {
	hist   *h.History
	res    porcupine.CheckResult
	points int64
	toks   []string
	panics []string
}

// execute runs a plan inside a bubble: within a round virtual time stands
// still, so that every operation happens at one known instant.
func execute(t *testing.T, pl *plan, r *rand.Rand, mk func() []engine.Engine, tune func(*h.Model)) *result {
	res := &result{hist: &h.History{}}
	s := &sched{r: r, p: h.Pick(r, []float64{0.02, 0.1, 0.3, 0.6})}
	ids := map[string]bool{}
	synctest.Test(t, func(t *testing.T) {
		ctx := context.Background()
		es := mk()
		var ds []h.Driver
		for _, g := range es {
			if err := g.Open(ctx); err != nil {
				t.Fatal(err)
			}
			ds = append(ds, &h.PlainDriver{H: h.Handler(g, &config.PaginationConfig{MaxLimit: pl.cfg.MaxLimit, MaxOffset: pl.cfg.MaxOffset})})
		}
		tk := &tokens{m: map[string][]string{}}
		do := func(c int, o *h.Op) {
			e := c % len(es)
			if o.K == "chore" {
				res.hist.Record(c, &h.Req{K: "chore"}, func() *h.Outcome {
					if err := es[e].Chore(ctx); err != nil {
						return &h.Outcome{Code: 500, Body: []byte(err.Error())}
					}
					return &h.Outcome{Code: 200}
				})
				return
			}
			q := o.Resolve(time.Now(), tk.get)
			out := res.hist.Record(c, q, func() *h.Outcome { return ds[e].Do(q) })
			tk.saw(out)
			if out.Panic != "" {
				res.panics = append(res.panics, out.Panic+"\n"+out.Stack)
			}
		}
		collect := func(o *h.Op) {
			if o.ID != "" {
				ids[o.ID] = true
			}
			for _, x := range o.Tasks {
				ids[*x.ID] = true
			}
		}
		for _, o := range pl.setup {
			collect(o)
			do(0, o)
		}
		f := s.point
		verifyield.Hook.Store(&f)
		for _, rd := range pl.rounds {
			var wg sync.WaitGroup
			for c, l := range rd.clients {
				for _, o := range l {
					collect(o)
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, o := range l {
						do(c, o)
					}
				}()
			}
			wg.Wait()
			time.Sleep(rd.sleep)
		}
		verifyield.Hook.Store(nil)
		all := map[string]*h.MTask{}
		for id := range ids {
			look := es[0].GetTask
			if f, ok := es[0].(*first); ok {
				look = f.look.GetTask
			}
			x, err := look(ctx, id)
			if errors.Is(err, ratus.ErrNotFound) {
				continue
			}
			if err != nil {
				t.Fatal(err)
			}
			all[id] = h.TaskOf(x)
		}
		res.hist.Record(99, &h.Req{K: "dump"}, func() *h.Outcome {
			b, _ := json.Marshal(all)
			return &h.Outcome{Code: 200, Body: b, JSON: all}
		})
		for _, l := range tk.m {
			had := map[string]bool{}
			for _, x := range l {
				if h.TokenOK(x) && !had[x] {
					had[x] = true
					res.toks = append(res.toks, x)
				}
			}
		}
		for _, g := range es {
			g.Close(ctx)
		}
	})
	res.points = s.n
	res.res = res.hist.Check(pl.cfg, tune, 20*time.Second)
	return res
}

// conc registers a concurrent workload for a property.
func conc(id string, n int, mk func(i uint64) func() []engine.Engine, tune func(*h.Model)) {
	h.Register(id, func(t *testing.T, p *h.Params, r *h.Report) {
		if p.Shard%4 != 3 {
			runtime.GOMAXPROCS(1)
		} else {
			runtime.GOMAXPROCS(4)
		}
		prof := profileOf(id)
		for _, i := range p.Cases(n) {
			h.Beat("conc case=%d", i)
			rnd := h.NewRand(p.Seed, 7, i)
			pl := generate(rnd, prof)
			if tune == nil && rnd.IntN(40) == 0 {
				pl = bulk(rnd)
				r.Ev("bulk_cases")
			}
			x := execute(t, pl, rnd, mk(i), tune)
			judge(id, i, p, r, pl, x, tune)
		}
	})
}

// judge reports what one case showed.
func judge(id string, i uint64, p *h.Params, r *h.Report, pl *plan, x *result, tune func(*h.Model)) {
	r.Eval(1)
	r.Ev("operations", len(x.hist.Ops))
	r.Ev("scheduling_points", int(x.points))
	r.Ev("overlapping_pairs", overlaps(x.hist.Ops))
	r.Ev("linearizability:" + string(x.res))
	r.Seen(shape(x.hist.Ops))
	for _, k := range x.toks {
		r.Collect("unique:token", k)
	}
	if i%500 < 8 {
		r.Sample(strings.Join(x.hist.Strings(), "\n"))
	}
	if x.res == porcupine.Unknown {
		r.Inconcl("case %d: no verdict within the time limit", i)
	}
	if len(x.panics) > 0 || x.res == porcupine.Illegal {
		props := []string{id, "C02"}
		if p.Only != "" {
			x.hist.Explain(pl.cfg, tune)
		}
		r.Violate(&h.Violation{Props: props, Sig: "not-linearizable", Msg: "no sequential execution explains this history: " + strings.Join(x.hist.Strings(), " || "), Case: fmt.Sprintf("conc case=%d", i), Trace: x.hist.Strings()})
	}
}

// overlaps counts pairs of operations that ran concurrently.
func overlaps(ops []porcupine.Operation) int {
	n := 0
	for i, a := range ops {
		for _, b := range ops[:i] {
			if a.Call < b.Return && b.Call < a.Return {
				n++
			}
		}
	}
	return n
}

// shape identifies the interleaving and outcome of a history.
func shape(ops []porcupine.Operation) string {
	var sb strings.Builder
	for _, o := range ops {
		in, out := o.Input.(*h.LinIn), o.Output.(*h.Outcome)
		fmt.Fprintf(&sb, "%d:%s:%d:%d:%d ", o.ClientId, in.Q.K, out.Code, o.Call, o.Return)
	}
	return sb.String()
}
