package core

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unicode/utf8"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"

	"github.com/hyperonym/ratus/verif/h"
)

// series maps a metric with its labels in sorted order to its value.
type series map[string]float64

// skey renders a metric name and label pairs.
func skey(name string, kv ...string) string {
	var l []string
	for i := 0; i < len(kv); i += 2 {
		l = append(l, kv[i]+"="+strconv.Quote(strings.ToValidUTF8(kv[i+1], "\uFFFD")))
	}
	sort.Strings(l)
	return name + "{" + strings.Join(l, ",") + "}"
}

// parseMetrics parses the text exposition format strictly.
func parseMetrics(b []byte) (series, error) {
	if !utf8.Valid(b) {
		return nil, errors.New("not valid UTF-8")
	}
	if len(b) == 0 || b[len(b)-1] != '\n' {
		return nil, errors.New("does not end with a newline")
	}
	out := series{}
	types := map[string]string{}
	for _, line := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		if strings.HasPrefix(line, "# TYPE ") {
			f := strings.Fields(line)
			if len(f) != 4 {
				return nil, fmt.Errorf("bad line %q", line)
			}
			if types[f[2]] != "" {
				return nil, fmt.Errorf("type of %s declared twice", f[2])
			}
			types[f[2]] = f[3]
			continue
		}
		if strings.HasPrefix(line, "#") || line == "" {
			continue
		}
		i := strings.IndexAny(line, "{ ")
		if i <= 0 {
			return nil, fmt.Errorf("bad line %q", line)
		}
		name := line[:i]
		rest := line[i:]
		var kv []string
		if rest[0] == '{' {
			rest = rest[1:]
			for rest[0] != '}' {
				j := strings.Index(rest, `="`)
				if j <= 0 {
					return nil, fmt.Errorf("bad labels in %q", line)
				}
				k := rest[:j]
				rest = rest[j+2:]
				var v strings.Builder
				for {
					if rest == "" {
						return nil, fmt.Errorf("unterminated label in %q", line)
					}
					c := rest[0]
					if c == '"' {
						rest = rest[1:]
						break
					}
					if c == '\\' {
						if len(rest) < 2 {
							return nil, fmt.Errorf("bad escape in %q", line)
						}
						switch rest[1] {
						case 'n':
							v.WriteByte('\n')
						case '\\', '"':
							v.WriteByte(rest[1])
						default:
							return nil, fmt.Errorf("bad escape in %q", line)
						}
						rest = rest[2:]
						continue
					}
					v.WriteByte(c)
					rest = rest[1:]
				}
				kv = append(kv, k, v.String())
				if rest == "" {
					return nil, fmt.Errorf("bad line %q", line)
				}
				if rest[0] == ',' {
					rest = rest[1:]
				}
			}
			rest = rest[1:]
		}
		if rest == "" || rest[0] != ' ' {
			return nil, fmt.Errorf("bad line %q", line)
		}
		v, err := strconv.ParseFloat(strings.Fields(rest)[0], 64)
		if err != nil {
			return nil, fmt.Errorf("bad value in %q", line)
		}
		if !strings.HasPrefix(name, "ratus_") {
			continue
		}
		k := skey(name, kv...)
		if _, dup := out[k]; dup {
			return nil, fmt.Errorf("duplicate series %s", k)
		}
		out[k] = v
	}
	return out, nil
}

// delta lists the series that changed.
func delta(a, b series) series {
	d := series{}
	for k, v := range b {
		if v != a[k] {
			d[k] = v - a[k]
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			d[k] = math.NaN()
		}
	}
	return d
}

const (
	mReq       = "ratus_request_duration_seconds_count"
	mProduced  = "ratus_task_produced_count_total"
	mConsumed  = "ratus_task_consumed_count_total"
	mCommitted = "ratus_task_committed_count_total"
	mDelay     = "ratus_task_schedule_delay_seconds"
	mExec      = "ratus_task_execution_duration_seconds"
)

// metricsDriver executes requests and accounts for the metrics they cause.
type metricsDriver struct {
	hd   http.Handler
	g    engine.Engine
	last series
	scr  string // series counting the previous scrape
	bad  func(sig, f string, a ...any)
	r    *h.Report
}

func newMetricsDriver(g engine.Engine, pc *config.PaginationConfig, r *h.Report, bad func(sig, f string, a ...any)) *metricsDriver {
	d := &metricsDriver{hd: h.Handler(g, pc), g: g, bad: bad, r: r}
	d.scrape("/metrics")
	return d
}

// scrape reads the metrics and returns what changed since the last time,
// not counting the last scrape itself.
func (d *metricsDriver) scrape(path string) series {
	o := h.Serve(d.hd, "GET", path, nil, nil)
	if o.Code != 200 {
		d.bad("scrape", "GET %s -> %d %s%s", path, o.Code, h.Q(string(o.Body)), o.Panic)
		return series{}
	}
	s, err := parseMetrics(o.Body)
	if err != nil {
		d.bad("malformed", "malformed metrics: %v", err)
		return series{}
	}
	if d.last == nil {
		d.last = s
		d.scr = skey(mReq, "topic", "", "method", "GET", "endpoint", path, "status_code", "200")
		return nil
	}
	ch := delta(d.last, s)
	d.last = s
	if ch[d.scr] != 1 && d.scr != "" {
		d.bad("request", "the request for the metrics itself was counted %v times as %s", ch[d.scr], d.scr)
	}
	delete(ch, d.scr)
	d.scr = skey(mReq, "topic", "", "method", "GET", "endpoint", path, "status_code", "200")
	d.histograms(s)
	// The distribution of durations is not predicted.
	for k := range ch {
		if strings.HasPrefix(k, "ratus_request_duration_seconds_bucket") || strings.HasPrefix(k, "ratus_request_duration_seconds_sum") || strings.HasPrefix(k, "ratus_chore_") {
			delete(ch, k)
		}
	}
	return ch
}

// histograms checks that the last bucket of each histogram is its count.
func (d *metricsDriver) histograms(s series) {
	for k, v := range s {
		if strings.HasPrefix(k, "ratus_request_duration_seconds_bucket{") && strings.Contains(k, `le="+Inf"`) {
			c := strings.Replace(strings.Replace(strings.Replace(k, "_bucket{", "_count{", 1), `,le="+Inf"`, "", 1), `le="+Inf",`, "", 1)
			if s[c] != v {
				d.bad("histogram", "%s is %v, but %s is %v", k, v, c, s[c])
			}
		}
	}
}

func ts(m map[string]any, k string) *time.Time {
	s, ok := m[k].(string)
	if !ok {
		return nil
	}
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		return nil
	}
	return &t
}

func st(m map[string]any, k string) string { s, _ := m[k].(string); return s }

// expectation of one request.
type mexp struct {
	add    series             // increments
	gauges map[string]float64 // values
	batch  map[string]float64 // how the known finding attributes a batch
	right  map[string]float64 // how it should be attributed
}

// predict says which metrics a request changes, from its outcome.
func predict(q *h.Req, o *h.Outcome, now time.Time, exists func(id string) bool) *mexp {
	e := &mexp{add: series{}, gauges: map[string]float64{}}
	tmpl := h.Routes[q.K][1]
	tmpl = strings.Replace(tmpl, ":t", ":topic", 1)
	if strings.HasPrefix(tmpl, "/:topicopics") {
		tmpl = strings.Replace(h.Routes[q.K][1], "/:t", "/:topic", 1)
	}
	if !q.Op.Bare {
		tmpl = "/v1" + tmpl
	}
	e.add[skey(mReq, "topic", q.Topic, "method", q.Method, "endpoint", tmpl, "status_code", strconv.Itoa(o.Code))]++
	if o.Code >= 300 {
		return e
	}
	m, _ := o.JSON.(map[string]any)
	switch q.K {
	case "insTask", "upsTask":
		var b map[string]any
		json.Unmarshal(q.Body, &b)
		tp := st(b, "topic")
		if tp == "" {
			tp = q.Topic
		}
		e.add[skey(mProduced, "topic", tp, "producer", st(b, "producer"))]++
	case "insTasks", "upsTasks":
		var b struct{ Data []map[string]any }
		json.Unmarshal(q.Body, &b)
		e.right, e.batch = map[string]float64{}, map[string]float64{}
		n := 0.0
		done := map[string]bool{}
		for _, t := range b.Data {
			id := st(t, "_id")
			if q.K == "insTasks" && (done[id] || exists(id)) {
				continue
			}
			done[id] = true
			tp := st(t, "topic")
			if tp == "" {
				tp = q.Topic
			}
			e.right[skey(mProduced, "topic", tp, "producer", st(t, "producer"))]++
			n++
		}
		if n > 0 {
			e.batch[skey(mProduced, "topic", q.Topic, "producer", st(b.Data[0], "producer"))] = n
		}
	case "poll", "claim", "force":
		l := []string{"topic", st(m, "topic"), "producer", st(m, "producer"), "consumer", st(m, "consumer")}
		e.add[skey(mConsumed, l...)]++
		if s, c := ts(m, "scheduled"), ts(m, "consumed"); s != nil && c != nil {
			e.gauges[skey(mDelay, l...)] = c.Sub(*s).Seconds()
		}
	case "commit":
		l := []string{"topic", st(m, "topic"), "producer", st(m, "producer"), "consumer", st(m, "consumer")}
		e.add[skey(mCommitted, l...)]++
		if c := ts(m, "consumed"); c != nil {
			e.gauges[skey(mExec, l...)] = now.Sub(*c).Seconds()
		}
	}
	return e
}

// judge compares the observed changes with the predicted ones.
func (d *metricsDriver) judge(desc string, e *mexp, ch series, exact bool) {
	rest := series{}
	for k, v := range ch {
		rest[k] = v
	}
	for k, v := range e.gauges {
		if got, ok := d.last[k]; !ok || math.Abs(got-v) > 1e-6*math.Max(1, math.Abs(v)) {
			d.bad("gauge:"+k[:strings.Index(k, "{")], "after %s %s is %v (present: %v) instead of %v", desc, k, got, ok, v)
		}
		delete(rest, k)
	}
	for k, v := range e.add {
		if !exact && rest[k] < v || exact && rest[k] != v {
			d.bad("counter:"+k[:strings.Index(k, "{")], "%s changed %s by %v instead of %v; all changes: %s", desc, k, rest[k], v, h.J(ch))
		}
		delete(rest, k)
	}
	if e.right != nil {
		same := func(w map[string]float64) bool {
			for k, v := range w {
				if rest[k] != v {
					return false
				}
			}
			for k := range rest {
				if strings.HasPrefix(k, mProduced) && w[k] == 0 {
					return false
				}
			}
			return true
		}
		switch {
		case same(e.right):
			d.r.Ev("batches_right")
		case same(e.batch):
			d.bad("batch-labels", "%s counted its tasks as %v instead of %v", desc, h.J(e.batch), h.J(e.right))
		default:
			d.bad("counter:batch", "%s changed %s instead of %s", desc, h.J(rest), h.J(e.right))
		}
		for k := range rest {
			if strings.HasPrefix(k, mProduced) {
				delete(rest, k)
			}
		}
	}
	for k, v := range rest {
		d.bad("extra:"+k[:strings.Index(k, "{")], "%s changed %s by %v", desc, k, v)
	}
}

// Do implements h.Driver.
func (d *metricsDriver) Do(q *h.Req) *h.Outcome {
	now := time.Now()
	was := map[string]bool{}
	if q.K == "insTasks" {
		var b struct{ Data []map[string]any }
		json.Unmarshal(q.Body, &b)
		for _, t := range b.Data {
			if _, err := d.g.GetTask(context.Background(), st(t, "_id")); err == nil {
				was[st(t, "_id")] = true
			}
		}
	}
	o := (&h.PlainDriver{H: d.hd}).Do(q)
	if o.Panic != "" {
		return o
	}
	path := "/metrics"
	if q.Op.Bare {
		path = "/v1/metrics"
	}
	ch := d.scrape(path)
	if ch == nil {
		return o
	}
	e := predict(q, o, now, func(id string) bool { return was[id] })
	d.judge(fmt.Sprintf("%s %s -> %d", q.Method, q.Path, o.Code), e, ch, true)
	d.r.Ev("requests_accounted")
	for k, v := range ch {
		d.r.Ev("changes:" + k[:strings.Index(k, "{")])
		d.r.Seen(k, v)
	}
	return o
}

// metricsBackend runs histories with accounting.
type metricsBackend struct {
	h.MemBackend
	r   *h.Report
	bad func(sig, f string, a ...any)
}

func (b *metricsBackend) Driver(g engine.Engine, pc *config.PaginationConfig) h.Driver {
	return newMetricsDriver(g, pc, b.r, b.bad)
}

func runMetrics(t *testing.T, p *h.Params, r *h.Report) {
	prof := &h.Profile{Name: "C20", Topics: 4, IDs: 8, Ops: 50, Plain: 0.4, Payload: 1, BadFrac: 0.05, Snapshot: 0, Weights: h.StdWeights(map[string]int{"restart": 0, "crash": 0, "commit": 18, "poll": 20})}
	// Few names per process: every new label value makes later scrapes slower.
	pool := h.Names(h.NewRand(p.Seed, 202, uint64(p.Shard)), 5, p.Shard == 0)
	prof.Gate = func(r *rand.Rand, c *h.Cfg) {
		for k := range c.Topics {
			c.Topics[k] = pool[k]
		}
	}
	for _, i := range p.Cases(480) {
		h.Beat("metrics case=%d", i)
		name := fmt.Sprintf("metrics case=%d", i)
		rnd := h.NewRand(p.Seed, 20, i)
		bad := func(sig, f string, a ...any) {
			r.Violate(&h.Violation{Props: []string{"C20"}, Sig: "metrics:" + sig, Msg: fmt.Sprintf(f, a...), Case: name})
		}
		r.Eval(1)
		if i%4 == 3 {
			metricsParallel(t, name, i, p, r, bad)
			continue
		}
		c, ops := h.GenCase(rnd, prof)
		res := h.RunCase(t, c, ops, func() h.Backend { return &metricsBackend{r: r, bad: bad} }, nil)
		if res.Div != nil {
			r.Ev("other:" + h.Join(res.Div.Tags))
		}
		if len(res.Log) > 6 {
			r.Sample(fmt.Sprint(res.Log[:6]))
		}
	}
	// Paths whose bytes are not text at all.
	synctest.Test(t, func(t *testing.T) {
		g, _ := memdb.New(&memdb.Config{RetentionPeriod: time.Hour})
		g.Open(context.Background())
		d := newMetricsDriver(g, &config.PaginationConfig{MaxLimit: 10, MaxOffset: 10}, r, func(sig, f string, a ...any) {
			r.Violate(&h.Violation{Props: []string{"C20"}, Sig: "metrics:" + sig, Msg: fmt.Sprintf(f, a...), Case: "bytes"})
		})
		for _, raw := range []string{"%FF", "a%80b", "%C3", "%00", "%0A%22%5C", "%F0%9F%98", "%ED%A0%80", "%7F"} {
			for _, u := range []string{"/topics/" + raw, "/v1/topics/" + raw + "/tasks", "/topics/" + raw + "/promises/x"} {
				o := h.Serve(d.hd, "GET", u, nil, nil)
				ch := d.scrape("/metrics")
				n := 0.0
				for k, v := range ch {
					if strings.HasPrefix(k, mReq) && strings.Contains(k, fmt.Sprintf("status_code=\"%d\"", o.Code)) {
						n += v
					}
				}
				if n != 1 || len(ch) != 1 {
					d.bad("bytes", "GET %s -> %d changed %s", u, o.Code, h.J(ch))
				}
				r.Ev("binary_paths")
			}
		}
	})
}

// metricsParallel accounts for a burst of concurrent requests as a whole.
func metricsParallel(t *testing.T, name string, i uint64, p *h.Params, r *h.Report, bad func(sig, f string, a ...any)) {
	g, _ := memdb.New(&memdb.Config{RetentionPeriod: 1000 * time.Hour})
	g.Open(context.Background())
	d := newMetricsDriver(g, &config.PaginationConfig{MaxLimit: 100, MaxOffset: 100}, r, bad)
	var mu sync.Mutex
	total := &mexp{add: series{}, gauges: map[string]float64{}}
	var wg sync.WaitGroup
	for c := 0; c < 6; c++ {
		rnd := h.NewRand(p.Seed, 201, i, uint64(c))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 60; n++ {
				k := h.Pick(rnd, []string{"insTask", "upsTask", "poll", "poll", "commit", "claim", "force", "getTask", "listTasks", "delTask"})
				o := simpleOp(rnd, k)
				o.T = h.Pick(rnd, []string{"p0", "p1"})
				if o.ID != "" {
					o.ID = fmt.Sprintf("%d", rnd.IntN(12))
				}
				if o.Task != nil {
					pr := h.Pick(rnd, []string{"", "x", "y"})
					o.Task.ID, o.Task.Topic, o.Task.Producer = &o.ID, &o.T, &pr
				}
				if o.Prom != nil {
					o.Prom.ID = nil
				}
				q := o.Resolve(time.Now(), nil)
				out := (&h.PlainDriver{H: d.hd}).Do(q)
				e := predict(q, out, time.Now(), nil)
				mu.Lock()
				for k, v := range e.add {
					total.add[k] += v
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	ch := d.scrape("/metrics")
	for k := range ch {
		if strings.HasPrefix(k, mDelay) || strings.HasPrefix(k, mExec) {
			delete(ch, k)
		}
	}
	d.judge("a burst of 360 concurrent requests", total, ch, true)
	r.Ev("bursts_accounted")
	r.Seen(h.J(ch))
	g.Close(context.Background())
}

var _ = ratus.ErrNotFound

func init() { h.Register("C20", runMetrics) }
