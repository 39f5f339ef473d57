package core

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net/http"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine/memdb"

	"github.com/hyperonym/ratus/verif/h"
)

// seen is a request as it arrived at the server.
type seen struct {
	At     time.Time
	Method string
	Path   string // escaped
	Query  string
	Hdr    http.Header
	Host   string
	Body   []byte
}

// scripted is a server that records requests and misbehaves as told.
type scripted struct {
	mu    sync.Mutex
	reqs  []*seen
	reply func(n int, s *seen, w http.ResponseWriter, r *http.Request)
}

func (x *scripted) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, _ := io.ReadAll(r.Body)
	r.Body = io.NopCloser(bytes.NewReader(b))
	s := &seen{At: time.Now(), Method: r.Method, Path: r.URL.EscapedPath(), Query: r.URL.RawQuery, Hdr: r.Header.Clone(), Host: r.Host, Body: b}
	x.mu.Lock()
	n := len(x.reqs)
	x.reqs = append(x.reqs, s)
	f := x.reply
	x.mu.Unlock()
	f(n, s, w, r)
}

func (x *scripted) take() []*seen {
	x.mu.Lock()
	defer x.mu.Unlock()
	l := x.reqs
	x.reqs = nil
	return l
}

// drop closes the connection without an answer.
func drop(w http.ResponseWriter) {
	c, _, err := w.(http.Hijacker).Hijack()
	if err != nil {
		panic(err)
	}
	c.Close()
}

// raw writes bytes to the connection and closes it.
func raw(w http.ResponseWriter, s string) {
	c, _, err := w.(http.Hijacker).Hijack()
	if err != nil {
		panic(err)
	}
	c.Write([]byte(s))
	c.Close()
}

func stall(r *http.Request) { <-r.Context().Done() }

// faults a server can answer with; every one of them is a failed call.
var faults = []struct {
	name string
	code int // expected kind, 0 for any
	f    func(w http.ResponseWriter, r *http.Request)
}{
	{"drop", 0, func(w http.ResponseWriter, r *http.Request) { drop(w) }},
	{"garbage", 0, func(w http.ResponseWriter, r *http.Request) { raw(w, "SSH-2.0-OpenSSH_9.6\r\n") }},
	{"headers only", 0, func(w http.ResponseWriter, r *http.Request) {
		raw(w, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\n")
	}},
	{"truncated", 0, func(w http.ResponseWriter, r *http.Request) {
		raw(w, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: 200\r\n\r\n{\"_id\":\"x\",\"topic\":\"y\",\"data\":[{")
	}},
	{"truncated chunk", 0, func(w http.ResponseWriter, r *http.Request) {
		raw(w, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\n40\r\n{\"created\":1,\"deleted\":2,")
	}},
	{"empty body", 0, func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(200) }},
	{"not JSON", 0, func(w http.ResponseWriter, r *http.Request) { fmt.Fprint(w, "<html>It works!</html>") }},
	{"wrong types", 0, func(w http.ResponseWriter, r *http.Request) {
		fmt.Fprint(w, `{"_id":1,"topic":[],"state":"x","name":5,"count":"a","data":{"a":1},"created":"x","deleted":"y"}`)
	}},
	{"list", 0, func(w http.ResponseWriter, r *http.Request) { fmt.Fprint(w, `[1,2,3]`) }},
	{"gateway 502", 0, func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(502)
		fmt.Fprint(w, "<html>Bad Gateway</html>")
	}},
	{"gateway 503 empty", 0, func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(503) }},
	{"404 page", 0, func(w http.ResponseWriter, r *http.Request) { http.NotFound(w, r) }},
	{"error 400", 400, jsonError(400)}, {"error 404", 404, jsonError(404)}, {"error 409", 409, jsonError(409)}, {"error 499", 499, jsonError(499)}, {"error 500", 500, jsonError(500)}, {"error 503", 503, jsonError(503)}, {"error 418", 0, jsonError(418)},
	{"broken gzip", 0, func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Encoding", "gzip")
		fmt.Fprint(w, "this is not compressed at all")
	}},
	{"truncated gzip", 0, func(w http.ResponseWriter, r *http.Request) {
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		fmt.Fprint(z, `{"_id":"x","topic":"`+strings.Repeat("abcdefgh", 500)+`"}`)
		z.Close()
		w.Header().Set("Content-Encoding", "gzip")
		w.Write(b.Bytes()[:b.Len()/2])
	}},
}

func jsonError(code int) func(w http.ResponseWriter, r *http.Request) {
	return func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(code)
		fmt.Fprintf(w, `{"error":{"code":%d,"message":"told to fail with %d"}}`, code, code)
	}
}

// canned answers every endpoint successfully.
func canned(s *seen, w http.ResponseWriter) {
	w.Header().Set("Content-Type", "application/json")
	fmt.Fprint(w, `{"_id":"id","topic":"topic","state":1,"nonce":"n","name":"topic","count":1,"data":[],"created":0,"updated":1,"deleted":1}`)
}

// health calls one of the probes.
func probe(c *ratus.Client, ctx context.Context, k string) error {
	if k == "livez" {
		return c.GetLiveness(ctx)
	}
	return c.GetReadiness(ctx)
}

// runTransport watches what clients put on the wire and how they fail.
func runTransport(t *testing.T, p *h.Params, r *h.Report) {
	kinds := append(apiKinds(), "livez", "readyz")
	for _, i := range p.Cases(2400) {
		h.Beat("transport case=%d", i)
		rnd := h.NewRand(p.Seed, 161, i)
		bad := func(sig, f string, a ...any) {
			r.Violate(&h.Violation{Props: []string{"C16"}, Sig: "transport:" + sig, Msg: fmt.Sprintf(f, a...), Case: fmt.Sprintf("transport case=%d", i)})
		}
		synctest.Test(t, func(t *testing.T) {
			sc := &scripted{}
			srv := h.NewMemServer(sc)
			var dialed []string
			srv.Dialed = func(n, a string) { dialed = append(dialed, a) }
			srv.Redirect()
			// Options.
			host := h.Pick(rnd, []string{"ratus.test", "ratus.test:8000", "10.1.2.3:80", "[::1]:9000", "localhost", "a-b.c.d:12345"})
			want := host
			if !strings.Contains(strings.TrimPrefix(host, "[::1]"), ":") {
				want += ":80"
			}
			hdrs := map[string]string{}
			for k, n := 0, rnd.IntN(4); k < n; k++ {
				hdrs[h.Pick(rnd, []string{"X-Token", "Authorization", "X-Trace-Id", "Cookie", "Accept", "x-lower", "X-Empty"})] = h.Pick(rnd, []string{"v", "Bearer abc.def", "a=b; c=d", "é", "1"})
			}
			agent := "Ratus-Client"
			if rnd.IntN(3) == 0 {
				agent = "my-agent/1.0"
				hdrs["User-Agent"] = agent
			}
			o := &ratus.ClientOptions{Origin: "http://" + host, Headers: hdrs}
			if rnd.IntN(2) == 0 {
				o.Timeout = time.Duration(1+rnd.IntN(100000)) * time.Millisecond
			}
			c, err := ratus.NewClient(o)
			if err != nil {
				bad("new", "NewClient(%v): %v", o, err)
				return
			}
			d := &h.ClientDriver{C: c}
			for _, k := range kinds {
				call := func(ctx context.Context) error {
					d.Ctx, d.NonNil = ctx, false
					if k == "livez" || k == "readyz" {
						return probe(c, ctx, k)
					}
					op := simpleOp(rnd, k)
					if op.Prom != nil {
						op.Prom.ID = nil
					}
					d.Do(op.Resolve(time.Now(), nil))
					return d.Err
				}
				mode := rnd.IntN(8)
				switch {
				case mode < 2: // a healthy call
					sc.reply = func(n int, s *seen, w http.ResponseWriter, r *http.Request) { canned(s, w) }
					if err := call(context.Background()); err != nil {
						bad("healthy:"+k, "%s failed on a healthy server: %v", k, err)
					}
				case mode == 2: // the server stalls until the client gives up
					at := h.Pick(rnd, []string{"before", "after headers", "within body"})
					sc.reply = func(n int, s *seen, w http.ResponseWriter, r *http.Request) {
						switch at {
						case "after headers":
							w.Header().Set("Content-Length", "100")
							w.WriteHeader(200)
							w.(http.Flusher).Flush()
						case "within body":
							w.Header().Set("Content-Length", "100")
							fmt.Fprint(w, `{"data":[`)
							w.(http.Flusher).Flush()
						}
						stall(r)
					}
					ctx, cancel := context.WithCancel(context.Background())
					after := time.Duration(1+rnd.IntN(100000)) * time.Millisecond
					how := h.Pick(rnd, []string{"cancel", "deadline"})
					if how == "deadline" {
						cancel()
						ctx, cancel = context.WithTimeout(context.Background(), after)
					} else {
						time.AfterFunc(after, cancel)
					}
					lim := after
					if o.Timeout > 0 && o.Timeout < lim {
						lim = o.Timeout
					}
					t0 := time.Now()
					err := call(ctx)
					took := time.Since(t0)
					cancel()
					body := at != "before" && (k == "livez" || k == "readyz")
					r.Ev("given_up:" + how)
					switch {
					case err == nil && !body:
						bad("stalled:"+k, "%s returned no error although the server stalled (%s)", k, at)
					case took != lim:
						bad("patience:"+k, "%s gave up on a server stalling %s after %v, with a timeout of %v and the context ending after %v", k, at, took, o.Timeout, after)
					case err != nil && lim == after && (o.Timeout == 0 || o.Timeout > after) && !errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded):
						bad("cause:"+k, "%s failed with %v instead of the error of its context", k, err)
					case d.NonNil:
						bad("fabricated:"+k, "%s returned a result although the server stalled %s", k, at)
					}
				case mode == 3: // already cancelled
					ctx, cancel := context.WithCancel(context.Background())
					cancel()
					sc.reply = func(n int, s *seen, w http.ResponseWriter, r *http.Request) { canned(s, w) }
					if err := call(ctx); !errors.Is(err, context.Canceled) {
						bad("canceled:"+k, "%s with a cancelled context returned %v", k, err)
					}
					if l := sc.take(); len(l) > 0 {
						bad("canceled:"+k, "%s with a cancelled context reached the server", k)
					}
				default:
					f := h.Pick(rnd, faults)
					sc.reply = func(n int, s *seen, w http.ResponseWriter, r *http.Request) { f.f(w, r) }
					err := call(context.Background())
					r.Ev("fault:" + f.name)
					tolerated := (k == "livez" || k == "readyz") && f.code == 0
					switch {
					case err == nil && !tolerated:
						bad("fault:"+k, "%s returned no error for: %s", k, f.name)
					case err != nil && f.code > 0 && h.ErrCode(err) != f.code:
						bad("kind:"+k, "%s returned %v for: %s", k, err, f.name)
					case d.NonNil:
						bad("fabricated:"+k, "%s returned a result together with the error %v for: %s", k, err, f.name)
					}
				}
				for _, s := range sc.take() {
					r.Ev("requests_seen")
					r.Seen(k, s.Method, s.Path, s.Query, host, len(hdrs), mode)
					for name, v := range hdrs {
						if got := s.Hdr.Values(name); len(got) != 1 || got[0] != v {
							bad("header:"+k, "%s sent %s: %q instead of %q", k, name, got, v)
						}
					}
					if a := s.Hdr.Get("User-Agent"); a != agent {
						bad("agent:"+k, "%s sent User-Agent %q instead of %q", k, a, agent)
					}
					if s.Host != host && s.Host != "" {
						r.Ev("host_differs")
					}
				}
			}
			// What can not be requested at all.
			sc.reply = func(n int, s *seen, w http.ResponseWriter, r *http.Request) { canned(s, w) }
			for k := 0; k < 2; k++ {
				var res map[string]any
				var err error
				what := ""
				ctx := context.Background()
				pay := h.Pick(rnd, []any{math.NaN(), func() {}, make(chan int), []any{1, math.Inf(-1)}, map[string]any{"a": complex(1, 2)}})
				tk := &ratus.Task{ID: "id", Topic: "t", Payload: pay}
				var got bool
				switch rnd.IntN(7) {
				case 0:
					what = "an invalid method"
					err = c.Request(ctx, h.Pick(rnd, []string{"BAD METHOD", "G\nET", "é", "GET "}), "/v1/topics", nil, &res)
				case 1:
					what = "an invalid endpoint"
					err = c.Request(ctx, "GET", h.Pick(rnd, []string{"/v1/topics/%zz", "/v1/\x7f", "/v1/topics/\n", "%"}), nil, &res)
				case 2:
					what = "an invalid body"
					err = c.Request(ctx, "POST", "/v1/topics/t/promises", pay, &res)
				case 3:
					what = "an invalid payload"
					var v *ratus.Updated
					v, err = c.InsertTask(ctx, tk)
					got = v != nil
				case 4:
					what = "an invalid payload"
					var v *ratus.Updated
					v, err = c.UpsertTasks(ctx, []*ratus.Task{{ID: "a", Topic: "t"}, tk})
					got = v != nil
				case 5:
					what = "an invalid payload"
					var v *ratus.Task
					v, err = c.PatchTask(ctx, "id", &ratus.Commit{Payload: pay})
					got = v != nil
				case 6:
					what = "an invalid payload"
					var v *ratus.Updated
					v, err = c.UpsertTask(ctx, tk)
					got = v != nil
				}
				if err == nil || got || len(res) > 0 {
					bad("invalid", "a call with %s returned %v, and a result: %v", what, err, got || len(res) > 0)
				}
				if l := sc.take(); len(l) > 0 {
					bad("invalid", "a call with %s sent %s %s %s", what, l[0].Method, l[0].Path, l[0].Body)
				}
				r.Ev("invalid_calls")
			}
			for _, a := range dialed {
				if a != want {
					bad("origin", "a client for origin %s connected to %s", o.Origin, a)
					break
				}
			}
			if len(dialed) == 0 {
				bad("origin", "a client for origin %s connected to nothing", o.Origin)
			}
			r.Ev("connections", len(dialed))
			srv.Stop()
			time.Sleep(time.Hour)
		})
		r.Eval(1)
	}
}

// ---------------------------------------------------------------------------

// setter is one step of building a commit.
type setter struct {
	Name  string
	Str   string
	State int
	Time  time.Time
	Val   any
}

func genSetters(r *rand.Rand, now time.Time) []setter {
	var l []setter
	for k, n := 0, r.IntN(7); k < n; k++ {
		s := setter{Name: h.Pick(r, []string{"Reset", "SetNonce", "SetTopic", "SetState", "SetScheduled", "SetPayload", "SetDefer", "Force", "Abstain", "Archive", "Reschedule", "Retry"})}
		switch s.Name {
		case "SetNonce":
			s.Str = h.Pick(r, []string{"custom", "x", "", "abc\"é"})
		case "SetTopic":
			s.Str = h.AnyString(r)
		case "SetDefer", "Retry":
			s.Str = h.Pick(r, []string{"1s", "10m", "-1s", "1h30m", ""})
		case "SetState":
			s.State = r.IntN(4)
		case "SetScheduled", "Reschedule":
			s.Time = now.Add(time.Duration(r.Int64N(int64(1000*time.Hour)) - int64(300*time.Hour))).In(time.FixedZone("z", 3600*(r.IntN(25)-12)))
		case "SetPayload":
			s.Val = h.JSONValue(r, 3)
		}
		l = append(l, s)
	}
	return l
}

// expect maintains the commit the handler asked for.
type expect struct {
	nonce, topic, def string
	state             *int
	sched             *time.Time
	payload           any
	claim             string
}

func newExpect(nonce string) *expect {
	s := 2
	return &expect{nonce: nonce, claim: nonce, state: &s}
}

// apply performs a step on the context and on the expectation.
func (e *expect) apply(x *ratus.Context, s setter) *ratus.Context {
	st := func(n int) { e.state = &n }
	switch s.Name {
	case "Reset":
		*e = *newExpect(e.claim)
		return x.Reset()
	case "SetNonce":
		e.nonce = s.Str
		return x.SetNonce(s.Str)
	case "SetTopic":
		e.topic = s.Str
		return x.SetTopic(s.Str)
	case "SetState":
		st(s.State)
		return x.SetState(ratus.TaskState(s.State))
	case "SetScheduled":
		e.sched = &s.Time
		return x.SetScheduled(s.Time)
	case "SetPayload":
		e.payload = h.Norm(s.Val)
		return x.SetPayload(s.Val)
	case "SetDefer":
		e.def = s.Str
		return x.SetDefer(s.Str)
	case "Force":
		e.nonce = ""
		return x.Force()
	case "Abstain":
		st(0)
		return x.Abstain()
	case "Archive":
		st(3)
		return x.Archive()
	case "Reschedule":
		st(0)
		e.sched = &s.Time
		return x.Reschedule(s.Time)
	case "Retry":
		st(0)
		e.def = s.Str
		return x.Retry(s.Str)
	}
	panic(s.Name)
}

// judge compares a commit on the wire with the expectation.
func (e *expect) judge(body []byte) string {
	var m map[string]any
	if err := json.Unmarshal(body, &m); err != nil {
		return "the body is not an object: " + h.Q(string(body))
	}
	want := map[string]any{}
	if e.nonce != "" {
		want["nonce"] = e.nonce
	}
	if e.topic != "" {
		want["topic"] = e.topic
	}
	if e.state != nil {
		want["state"] = float64(*e.state)
	}
	if e.payload != nil {
		want["payload"] = e.payload
	}
	if e.def != "" {
		want["defer"] = e.def
	}
	if e.sched != nil {
		s, _ := m["scheduled"].(string)
		if g, err := time.Parse(time.RFC3339Nano, s); err != nil || !g.Equal(*e.sched) {
			return fmt.Sprintf("scheduled %q instead of %v", s, *e.sched)
		}
		delete(m, "scheduled")
	}
	// Absent and empty mean the same for these.
	for _, k := range []string{"nonce", "topic", "defer"} {
		if m[k] == "" {
			delete(m, k)
		}
	}
	if m["payload"] == nil {
		delete(m, "payload")
	}
	if m["scheduled"] == nil {
		delete(m, "scheduled")
	}
	a, _ := json.Marshal(want)
	b, _ := json.Marshal(m)
	if !bytes.Equal(a, b) {
		return "sent " + h.Q(string(b)) + " instead of " + h.Q(string(a))
	}
	return ""
}

type ctxKey struct{}

// runContext watches the context of a claimed task and its commits.
func runContext(t *testing.T, p *h.Params, r *h.Report) {
	for _, i := range p.Cases(6000) {
		h.Beat("context case=%d", i)
		rnd := h.NewRand(p.Seed, 19, i)
		var log []string
		bad := func(sig, f string, a ...any) {
			r.Violate(&h.Violation{Props: []string{"C19"}, Sig: "context:" + sig, Msg: fmt.Sprintf(f, a...), Case: fmt.Sprintf("context case=%d", i), Trace: log})
		}
		synctest.Test(t, func(t *testing.T) {
			sc := &scripted{}
			srv := h.NewMemServer(sc)
			srv.Redirect()
			defer func() { srv.Stop(); time.Sleep(time.Hour) }()
			c, _ := ratus.NewClient(&ratus.ClientOptions{Origin: "http://ratus.test"})
			id, nonce := h.AnyString(rnd), fmt.Sprintf("nonce%d", i)
			if id == "" {
				id = "id"
			}
			// The server's clock may be far off.
			skew := h.Pick(rnd, []time.Duration{0, 0, 24 * time.Hour, -24 * time.Hour, 10 * 365 * 24 * time.Hour, -time.Second})
			timeout := h.Pick(rnd, []time.Duration{time.Second, 10 * time.Minute, time.Hour, 1500 * time.Millisecond, 7 * time.Millisecond, 30 * time.Second, 0, -time.Second})
			shape := rnd.IntN(8) // which times the task carries
			var out any
			tk := map[string]any{"_id": id, "topic": "t", "state": 1, "nonce": nonce}
			has := true
			sc.reply = func(n int, s *seen, w http.ResponseWriter, r *http.Request) {
				now := time.Now().Add(skew)
				if shape != 0 {
					tk["consumed"] = now.Format(time.RFC3339Nano)
				}
				if shape != 1 {
					tk["deadline"] = now.Add(timeout).In(time.FixedZone("x", 7200)).Format(time.RFC3339Nano)
				}
				json.NewEncoder(w).Encode(tk)
			}
			if shape == 0 || shape == 1 {
				has = false
			}
			parent, stop := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, "value"))
			var pend time.Duration = -1
			if rnd.IntN(3) == 0 {
				pend = time.Duration(1+rnd.IntN(3000)) * time.Second
				if rnd.IntN(2) == 0 {
					parent, stop = context.WithTimeout(parent, pend)
				} else {
					time.AfterFunc(pend, stop)
				}
			}
			defer stop()
			t0 := time.Now()
			x, err := c.Poll(parent, "t", &ratus.Promise{Timeout: "1s"})
			if err != nil {
				bad("poll", "Poll: %v", err)
				return
			}
			log = append(log, fmt.Sprintf("task %s timeout %v skew %v shape %d parent ends after %v", h.Q(id), timeout, skew, shape, pend))
			if x.Task == nil || x.Task.ID != id || x.Task.Nonce != nonce {
				bad("task", "Poll returned %s", h.J(x.Task))
				return
			}
			if x.Value(ctxKey{}) != "value" {
				bad("value", "the context does not carry the values of its parent")
			}
			end := time.Duration(-1)
			if has {
				end = max(timeout, 0)
			}
			if pend >= 0 && (end < 0 || pend < end) {
				end = pend
			}
			if dl, ok := x.Deadline(); has && (!ok || dl.After(t0.Add(timeout))) {
				bad("deadline", "deadline %v (%v) of a task with timeout %v", dl.Sub(t0), ok, timeout)
			}
			probe := rnd.IntN(4) == 0
			if probe {
				// Watch when the context ends.
				if end < 0 {
					select {
					case <-x.Done():
						bad("end", "the context of a task without a deadline ended after %v", time.Since(t0))
					case <-time.After(20000 * time.Hour):
					}
				} else {
					select {
					case <-x.Done():
					case <-time.After(end + time.Hour):
						bad("end", "the context did not end after %v", end)
					}
					if got := time.Since(t0); got != end && x.Err() != nil {
						bad("end", "the context ended after %v instead of %v", got, end)
					}
				}
				r.Ev("contexts_watched")
				r.Seen("end", timeout, skew, shape, pend)
			}
			if end == 0 || probe {
				if x.Err() == nil {
					return
				}
				// What was promised is over: nothing can be committed any more.
				sc.take()
				sc.reply = func(n int, s *seen, w http.ResponseWriter, r *http.Request) {
					json.NewEncoder(w).Encode(map[string]any{"_id": id, "topic": "t", "state": 2})
				}
				for k := 0; k < 2; k++ {
					if err := x.Commit(); !errors.Is(err, x.Err()) {
						bad("late", "a commit after the end of the context (%v) returned %v", x.Err(), err)
					}
				}
				if l := sc.take(); len(l) > 0 {
					bad("late", "a commit after the end of the context was sent: %s", l[0].Body)
				}
				r.Ev("late_commits")
				return
			}
			// Build and send commits.
			sc.take()
			exp := newExpect(nonce)
			done := false
			y := x
			for round := 0; round < 1+rnd.IntN(4); round++ {
				sets := genSetters(rnd, time.Now())
				for _, s := range sets {
					y = exp.apply(y, s)
					if y != x {
						bad("chain", "%s returned another context", s.Name)
					}
				}
				fault, stalls := -1, false
				if rnd.IntN(3) == 0 {
					fault = rnd.IntN(len(faults))
					stalls = end > 0 && rnd.IntN(8) == 0
				}
				if !done && rnd.IntN(10) == 0 {
					// What can not be encoded is not sent, and spoils nothing.
					err := x.SetPayload(h.Pick(rnd, []any{math.NaN(), func() {}, make(chan int), map[string]any{"a": math.Inf(1)}})).Commit()
					if l := sc.take(); err == nil || len(l) > 0 {
						bad("unencodable", "a commit of a payload that can not be encoded returned %v and sent %d requests", err, len(l))
					}
					y = exp.apply(y, setter{Name: "SetPayload", Val: h.JSONValue(rnd, 2)})
					r.Ev("unencodable_commits")
				}
				sc.reply = func(n int, s *seen, w http.ResponseWriter, r *http.Request) {
					if stalls {
						stall(r)
						return
					}
					if fault >= 0 {
						faults[fault].f(w, r)
						return
					}
					out = map[string]any{"_id": id, "topic": "t", "state": 2, "nonce": ""}
					json.NewEncoder(w).Encode(out)
				}
				err := x.Commit()
				reqs := sc.take()
				name := "none"
				if fault >= 0 {
					name = faults[fault].name
				}
				if stalls {
					name = "stalled"
				}
				log = append(log, fmt.Sprintf("%s; commit (fault %s) -> %v, %d requests", h.J(sets), name, err, len(reqs)))
				r.Ev("commits")
				if done {
					r.Ev("repeated_commits")
					if err != nil {
						bad("repeat", "a commit after a successful one returned %v", err)
					}
					if len(reqs) > 0 {
						bad("repeat", "a commit after a successful one was sent: %s", reqs[0].Body)
					}
					time.Sleep(time.Duration(rnd.IntN(3)) * time.Hour)
					continue
				}
				if fault >= 0 {
					r.Ev("failed_commits")
					if err == nil {
						bad("failure", "a commit that failed (%s) was reported as success", name)
					}
					if stalls && !done {
						if took := time.Since(t0); took != end {
							bad("stalled", "a commit gave up on a stalling server after %v instead of %v", took, end)
						}
						r.Ev("stalled_commits")
						return
					}
					if c := faults[fault].code; c > 0 && h.ErrCode(err) != c {
						bad("failure", "a commit that failed (%s) returned %v", name, err)
					}
				} else if err != nil {
					bad("commit", "commit failed: %v", err)
				} else {
					done = true
					if has && x.Err() == nil {
						bad("release", "the context of a task is still alive after its commit")
					}
				}
				if len(reqs) != 1 {
					bad("count", "%d requests for one commit", len(reqs))
					continue
				}
				q := reqs[0]
				r.Seen("commit", string(q.Body), name)
				if q.Method != "PATCH" || !strings.HasSuffix(q.Path, "/tasks/"+pathID(q.Path)) || unesc(pathID(q.Path)) != id {
					bad("target", "the commit of task %s was sent as %s %s", h.Q(id), q.Method, q.Path)
				}
				if m := exp.judge(q.Body); m != "" {
					bad("fields", "after %s: %s", log[len(log)-1], m)
				}
			}
		})
		r.Eval(1)
		if len(log) > 1 {
			r.Sample(strings.Join(log, "\n"))
		}
	}
	if err := (&ratus.Context{Context: context.Background(), Task: &ratus.Task{ID: "x"}}).Commit(); err == nil {
		r.Violate(&h.Violation{Props: []string{"C19"}, Sig: "context:clientless", Msg: "a context without a client reported a successful commit"})
	}
}

func pathID(p string) string { return p[strings.LastIndex(p, "/")+1:] }

func unesc(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			var b byte
			fmt.Sscanf(s[i+1:i+3], "%02x", &b)
			sb.WriteByte(b)
			i += 2
		} else {
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}

// ---------------------------------------------------------------------------

// waiting is an error on its way to the handler.
type waiting struct {
	msg string
	at  time.Duration
}

// claim is a task handed out to a subscription.
type claim struct {
	phase   string // claimed, running, auto, sent, done
	at      time.Duration
	handled int
	ok      int           // successful commits
	expiry  time.Duration // end of what was promised
}

// expired tells whether the context of the claim has ended by itself.
func (c *claim) expired(n time.Duration) bool { return c.expiry > 0 && n >= c.expiry }

// machine checks a subscription against its specification as events happen.
// Polling loops are interchangeable: the specification is the multiset of
// moments at which a loop has to poll next.
type machine struct {
	mu       sync.Mutex
	name     string
	opt      *ratus.SubscribeOptions
	start    time.Time
	endAt    time.Duration
	due      []time.Duration // next polls
	errs     []waiting
	claims   map[string]*claim
	handlers int
	lim      int
	maxH     int
	lastH    time.Duration
	dd, ed   time.Duration
	stopped  bool
	log      []string
	bad      func(sig, f string, a ...any)
}

func (m *machine) now() time.Duration { return time.Since(m.start) }

func (m *machine) ended() bool { return m.now() >= m.endAt }

func (m *machine) note(f string, a ...any) {
	if len(m.log) < 400 {
		m.log = append(m.log, fmt.Sprintf("%s %v %s", m.name, m.now(), fmt.Sprintf(f, a...)))
	}
}

func (m *machine) recent() string {
	l := m.log
	if len(l) > 12 {
		l = l[len(l)-12:]
	}
	return strings.Join(l, " | ")
}

// polled is called when a poll arrives.
func (m *machine) polled() {
	n := m.now()
	m.note("poll")
	if n > m.endAt {
		m.bad("cancel", "%s polled after its cancellation: %s", m.name, m.recent())
	}
	for i, d := range m.due {
		if d == n {
			m.due = append(m.due[:i], m.due[i+1:]...)
			return
		}
	}
	if !m.ended() {
		m.bad("interval", "%s polled after %v, but polls were due at %v: %s", m.name, n, m.due, m.recent())
	}
}

// failed is called when a poll or an automatic commit fails.
func (m *machine) failed(notFound bool, msg string) {
	if m.ended() {
		return
	}
	if notFound {
		m.due = append(m.due, m.now()+m.dd)
	} else {
		m.errs = append(m.errs, waiting{msg, m.now()})
	}
}

// overdue reports what should have happened by now.
func (m *machine) overdue() {
	n := m.now()
	for _, d := range m.due {
		if d < n && d < m.endAt {
			m.bad("interval", "%s did not poll at %v: %s", m.name, d, m.recent())
		}
	}
	for _, e := range m.errs {
		if e.at < n && e.at < m.endAt {
			m.bad("error", "%s did not pass the error %q of %v to the handler: %s", m.name, e.msg, e.at, m.recent())
		}
	}
	for k, c := range m.claims {
		if c.at < n && c.at < m.endAt {
			switch c.phase {
			case "claimed":
				m.bad("delivery", "%s claimed %s at %v but did not hand it to the handler: %s", m.name, k, c.at, m.recent())
			case "auto":
				m.bad("commit", "%s did not commit %s, whose handler returned at %v: %s", m.name, k, c.at, m.recent())
			}
		}
	}
}

// committed is called with the outcome of a commit.
func (m *machine) committed(key string, code int, notFound bool, msg string) {
	c := m.claims[key]
	m.note("commit of %s -> %d %s", key, code, msg)
	if code == 200 {
		c.ok++
	}
	if c.phase != "sent" {
		return // the handler's own
	}
	c.phase = "done"
	if code == 200 {
		m.due = append(m.due, m.now()+max(m.opt.PollInterval, 0))
		return
	}
	m.failed(notFound, msg)
}

// hiccup is an injected failure of the transport or the server.
type hiccup struct {
	msg string
	f   func(w http.ResponseWriter, r *http.Request)
	nf  bool
}

func genHiccup(r *rand.Rand, n int) *hiccup {
	msg := fmt.Sprintf("hiccup-%d", n)
	code := h.Pick(r, []int{400, 404, 409, 499, 500, 503, 418})
	switch r.IntN(4) {
	case 0:
		return &hiccup{"EOF", func(w http.ResponseWriter, r *http.Request) { drop(w) }, false}
	case 1:
		return &hiccup{"invalid character '<'", func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(502); fmt.Fprint(w, "<html>") }, false}
	}
	return &hiccup{msg, func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(code)
		fmt.Fprintf(w, `{"error":{"code":%d,"message":"%s"}}`, code, msg)
	}, code == 404}
}

// runSubscribe watches subscriptions to a real server with injected failures.
func runSubscribe(t *testing.T, p *h.Params, r *h.Report) {
	for _, i := range p.Cases(4000) {
		h.Beat("subscribe case=%d", i)
		rnd := h.NewRand(p.Seed, 18, i)
		subscribeCase(t, rnd, r, fmt.Sprintf("subscribe case=%d", i))
		r.Eval(1)
	}
}

func subscribeCase(t *testing.T, rnd *rand.Rand, r *h.Report, name string) {
	var ms []*machine
	var reported sync.Map
	bad := func(sig, f string, a ...any) {
		if _, dup := reported.LoadOrStore(sig, true); dup {
			return
		}
		msg := fmt.Sprintf(f, a...)
		r.Violate(&h.Violation{Props: []string{"C18"}, Sig: "subscribe:" + sig, Msg: msg, Case: name})
	}
	synctest.Test(t, func(t *testing.T) {
		start := time.Now()
		g, _ := memdb.New(&memdb.Config{RetentionPeriod: 1000 * time.Hour})
		g.Open(context.Background())
		hd := h.Handler(g, &config.PaginationConfig{MaxLimit: 1000, MaxOffset: 1000})
		topic := h.AnyString(rnd)
		if topic == "" {
			topic = "t"
		}
		var mu sync.Mutex // guards the generator and the directory of claims
		rr := rand.New(rand.NewPCG(rnd.Uint64(), 1))
		draw := func(n int) int {
			mu.Lock()
			defer mu.Unlock()
			return rr.IntN(n)
		}
		odd := time.Duration(0)
		dur := func(ms int) time.Duration {
			mu.Lock()
			defer mu.Unlock()
			odd++
			return time.Duration(rr.IntN(ms))*time.Millisecond + odd*time.Nanosecond
		}
		pollFail, commitFail, latency := h.Pick(rnd, []int{0, 0, 10, 40}), h.Pick(rnd, []int{0, 0, 10, 40}), h.Pick(rnd, []int{0, 0, 1, 3000})
		owner, keys := map[string]*machine{}, map[string]string{} // by token
		total := 0
		find := func(who string) *machine {
			for _, x := range ms {
				if x.name == who {
					return x
				}
			}
			return nil
		}
		trouble := func(pct int) *hiccup {
			mu.Lock()
			defer mu.Unlock()
			if rr.IntN(100) >= pct {
				return nil
			}
			total++
			return genHiccup(rr, total)
		}
		sc := &scripted{}
		sc.reply = func(n int, s *seen, w http.ResponseWriter, q *http.Request) {
			var delay time.Duration
			if latency > 0 {
				delay = dur(latency)
			}
			wait := func() bool {
				if latency == 0 {
					return true
				}
				select {
				case <-time.After(delay):
					return true
				case <-q.Context().Done():
					return false
				}
			}
			forward := func(o *h.Outcome) {
				w.Header().Set("Content-Type", "application/json")
				w.WriteHeader(o.Code)
				w.Write(o.Body)
			}
			switch {
			case s.Method == "POST" && strings.HasSuffix(s.Path, "/promises"):
				var pr map[string]any
				json.Unmarshal(s.Body, &pr)
				who, _ := pr["consumer"].(string)
				m := find(who)
				if m == nil {
					bad("promise", "a poll was sent with the promise %s", s.Body)
					http.NotFound(w, q)
					return
				}
				if to, _ := pr["timeout"].(string); to != m.opt.Promise.Timeout || pr["deadline"] != nil || (pr["_id"] != nil && pr["_id"] != "") {
					bad("promise", "a poll was sent with the promise %s for the options %s", s.Body, h.J(m.opt.Promise))
				}
				if ps := strings.Split(s.Path, "/"); unesc(ps[len(ps)-2]) != topic {
					bad("promise", "a poll for topic %s was sent to %s", h.Q(topic), s.Path)
				}
				m.mu.Lock()
				m.polled()
				m.mu.Unlock()
				r.Ev("polls")
				hc := trouble(pollFail)
				if !wait() {
					return
				}
				m.mu.Lock()
				if hc != nil {
					r.Ev("failed_polls")
					m.note("poll fails with %s", hc.msg)
					m.failed(hc.nf, hc.msg)
					m.mu.Unlock()
					hc.f(w, q)
					return
				}
				o := h.Serve(hd, s.Method, s.Path, s.Body, nil)
				if o.Code == 200 {
					x, _ := o.JSON.(map[string]any)
					nonce := fmt.Sprint(x["nonce"])
					key := fmt.Sprint(x["_id"], "/", nonce)
					m.note("claims %s", key)
					k := &claim{phase: "claimed", at: m.now()}
					if to, _ := time.ParseDuration(m.opt.Promise.Timeout); to > 0 {
						k.expiry = k.at + to
					}
					m.claims[key] = k
					mu.Lock()
					owner[nonce], keys[nonce] = m, key
					mu.Unlock()
					r.Ev("claims")
				} else {
					m.note("finds nothing")
					m.failed(true, "")
					r.Ev("empty_polls")
				}
				m.mu.Unlock()
				forward(o)
			case s.Method == "PATCH":
				var c map[string]any
				json.Unmarshal(s.Body, &c)
				nonce := fmt.Sprint(c["nonce"])
				mu.Lock()
				m, key := owner[nonce], keys[nonce]
				mu.Unlock()
				if m == nil {
					bad("commit", "a commit carries an unknown token: %s", s.Body)
					http.NotFound(w, q)
					return
				}
				m.mu.Lock()
				k := m.claims[key]
				switch k.phase {
				case "claimed":
					bad("commit", "%s was committed before its handler: %s", key, m.recent())
				case "auto":
					if k.at != m.now() {
						bad("commit", "%s was committed at %v instead of %v: %s", key, m.now(), k.at, m.recent())
					}
					k.phase = "sent"
				case "sent", "done":
					bad("commit", "%s was committed again: %s", key, m.recent())
				}
				if k.ok > 0 {
					bad("commit", "%s was committed again after a successful commit: %s", key, m.recent())
				}
				if n := m.now(); k.expired(n) {
					bad("commit", "%s was committed at %v although its time ended at %v: %s", key, n, k.expiry, m.recent())
				} else if k.expired(n + delay) {
					// The client gives up before the answer.
					r.Ev("commits_given_up")
					m.note("commit of %s will be given up", key)
					if k.phase == "sent" {
						k.phase = "done"
						m.errs = append(m.errs, waiting{"deadline exceeded", k.expiry})
					}
				}
				m.mu.Unlock()
				hc := trouble(commitFail)
				if !wait() {
					return
				}
				m.mu.Lock()
				if hc != nil {
					r.Ev("failed_commits")
					m.committed(key, 0, hc.nf, hc.msg)
					m.mu.Unlock()
					hc.f(w, q)
					return
				}
				o := h.Serve(hd, s.Method, s.Path, s.Body, nil)
				if o.Code != 200 {
					bad("commit", "the commit of %s was rejected with %d: %s", key, o.Code, o.Body)
				}
				r.Ev("commits")
				m.committed(key, o.Code, o.Code == 404, "")
				m.mu.Unlock()
				forward(o)
			default:
				bad("request", "unexpected request %s %s", s.Method, s.Path)
			}
		}
		srv := h.NewMemServer(sc)
		srv.Redirect()
		c, _ := ratus.NewClient(&ratus.ClientOptions{Origin: "http://ratus.test"})

		// Tasks become due over time.
		nt := rnd.IntN(15)
		if rnd.IntN(12) == 0 {
			nt = 30 + rnd.IntN(200)
		}
		for k := 0; k < nt; k++ {
			tk := &ratus.Task{ID: fmt.Sprintf("task%d", k), Topic: topic, Payload: float64(k)}
			at := start.Add(dur(60000))
			if rnd.IntN(2) == 0 {
				at = start
			}
			tk.Scheduled, tk.Produced = &at, &at
			if _, err := g.InsertTask(context.Background(), tk); err != nil {
				t.Fatal(err)
			}
		}
		endAt := time.Duration(5+rnd.IntN(300))*time.Second + 333*time.Microsecond
		ctx, cancel := context.WithCancel(context.Background())
		if rnd.IntN(3) == 0 {
			cancel()
			ctx, cancel = context.WithTimeout(context.Background(), endAt)
		} else {
			time.AfterFunc(endAt, cancel)
		}
		defer cancel()
		ns := 1
		if rnd.IntN(3) == 0 {
			ns = 2 + rnd.IntN(2)
		}
		dflt := func(d, def time.Duration) time.Duration {
			if d <= 0 {
				return def
			}
			return d
		}
		some := func(vals ...time.Duration) time.Duration {
			v := h.Pick(rnd, vals)
			if v > 0 {
				odd++
				v += odd * time.Nanosecond
			}
			return v
		}
		for k := 0; k < ns; k++ {
			dl := start.Add(time.Hour)
			m := &machine{name: fmt.Sprintf("s%d", k), start: start, claims: map[string]*claim{}, bad: bad, endAt: endAt}
			m.opt = &ratus.SubscribeOptions{
				Promise: &ratus.Promise{Consumer: m.name, Timeout: h.Pick(rnd, []string{"10m", "1h", "600s", "10m", "3.0005s", "10.0005s", "150500us"})}, Topic: topic,
				Concurrency: h.Pick(rnd, []int{1, 1, 2, 3, 5, 0, -1, 1, 2, 8 + rnd.IntN(30)}), ConcurrencyDelay: some(0, 0, time.Second, 10*time.Millisecond, 7*time.Second, -time.Second),
				PollInterval: some(0, 0, time.Second, 100*time.Millisecond, 12*time.Second), DrainInterval: some(0, 0, time.Second, 20*time.Second, -time.Second), ErrorInterval: some(0, 0, time.Second, 45*time.Second, -1),
			}
			if rnd.IntN(4) == 0 {
				m.opt.Promise.ID = "task0"
				m.opt.Promise.Deadline = &dl
			}
			m.dd, m.ed = dflt(m.opt.DrainInterval, 5*time.Second), dflt(m.opt.ErrorInterval, 30*time.Second)
			m.lim = max(m.opt.Concurrency, 1)
			for w := 0; w < m.lim; w++ {
				m.due = append(m.due, dflt(m.opt.ConcurrencyDelay, time.Second)*time.Duration(w))
			}
			m.note("concurrency %d delay %v poll %v drain %v error %v; cancelled after %v", m.opt.Concurrency, m.opt.ConcurrencyDelay, m.opt.PollInterval, m.opt.DrainInterval, m.opt.ErrorInterval, endAt)
			ms = append(ms, m)
		}
		var wg sync.WaitGroup
		for _, m := range ms {
			busy := h.Pick(rnd, []int{1, 100, 5000, 30000})
			f := func(x *ratus.Context, err error) {
				m.mu.Lock()
				defer m.mu.Unlock()
				m.handlers++
				m.maxH = max(m.maxH, m.handlers)
				if m.handlers > m.lim {
					bad("concurrency", "%d handlers of %s run at once", m.handlers, m.name)
				}
				if m.stopped || m.now() > endAt {
					bad("cancel", "%s called the handler after its cancellation: %s", m.name, m.recent())
				}
				sleep := func() {
					m.mu.Unlock()
					time.Sleep(dur(busy))
					m.mu.Lock()
				}
				defer func() {
					m.handlers--
					m.lastH = max(m.lastH, m.now())
				}()
				if (x == nil) == (err == nil) {
					bad("handler", "%s called the handler with %v and %v", m.name, x, err)
					return
				}
				if err != nil {
					m.note("handler gets error %v", err)
					r.Ev("errors_delivered")
					if errors.Is(err, ratus.ErrNotFound) {
						bad("error", "%s passed a not-found error to the handler: %v", m.name, err)
					}
					found := false
					for j, e := range m.errs {
						if e.at == m.now() && strings.Contains(err.Error(), e.msg) {
							m.errs = append(m.errs[:j], m.errs[j+1:]...)
							found = true
							break
						}
					}
					if !found && !m.ended() {
						bad("error", "%s called the handler with an error nothing caused: %v; waiting: %v: %s", m.name, err, m.errs, m.recent())
					}
					if draw(3) == 0 {
						sleep()
					}
					m.due = append(m.due, m.now()+m.ed)
					return
				}
				key := x.Task.ID + "/" + x.Task.Nonce
				m.note("handler gets %s", key)
				r.Ev("tasks_delivered")
				k := m.claims[key]
				if k == nil {
					bad("delivery", "%s called the handler with %s, which it did not claim: %s", m.name, key, m.recent())
					return
				}
				k.handled++
				if k.phase != "claimed" || k.at != m.now() && !m.ended() || k.handled > 1 {
					bad("delivery", "%s called the handler with %s, which it claimed at %v (%s, call %d): %s", m.name, key, k.at, k.phase, k.handled, m.recent())
				}
				k.phase = "running"
				sleep()
				switch draw(4) {
				case 0:
					m.mu.Unlock()
					err := x.SetPayload("mine").Commit()
					m.mu.Lock()
					m.note("handler commits %s -> %v", key, err)
					if err == nil && k.ok != 1 {
						bad("commit", "a commit by the handler was reported as success, but did not succeed")
					}
					if k.expired(m.now()) && k.ok == 0 && !m.ended() && !errors.Is(err, context.DeadlineExceeded) {
						bad("commit", "a commit by the handler after the end of its task returned %v", err)
					}
					if draw(2) == 0 {
						sleep()
					}
				case 1:
					x.Retry("10s")
				}
				k.at = m.now()
				if k.ok > 0 {
					k.phase = "done"
					m.due = append(m.due, m.now()+max(m.opt.PollInterval, 0))
				} else if k.expired(m.now()) {
					r.Ev("expired_deliveries")
					m.note("%s took too long", key)
					k.phase = "done"
					m.failed(false, "deadline exceeded")
				} else {
					k.phase = "auto"
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				err := c.Subscribe(ctx, m.opt, f)
				m.mu.Lock()
				defer m.mu.Unlock()
				m.stopped = true
				m.note("subscription ends: %v", err)
				if err == nil || ctx.Err() == nil || !errors.Is(err, ctx.Err()) {
					bad("end", "%s ended with %v (its context: %v) at %v of %v: %s", m.name, err, ctx.Err(), m.now(), endAt, m.recent())
				}
				if m.now() != max(endAt, m.lastH) {
					bad("end", "%s, cancelled after %v with the last handler ending after %v, ended after %v", m.name, endAt, m.lastH, m.now())
				}
			}()
		}
		// Maintenance returns tasks that took too long.
		if rnd.IntN(2) == 0 {
			go func() {
				for time.Since(start) < endAt {
					time.Sleep(1700*time.Millisecond + 321)
					g.Chore(context.Background())
				}
			}()
		}
		// Judge the absence of events as time passes.
		over := func() {
			for _, m := range ms {
				m.mu.Lock()
				m.overdue()
				m.mu.Unlock()
			}
		}
		stop, fin := make(chan struct{}), make(chan struct{})
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(777*time.Millisecond + 123):
					over()
				}
			}
		}()
		go func() { wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(endAt + 2*time.Hour):
			bad("end", "the subscription did not end two hours after its cancellation")
		}
		close(stop)
		time.Sleep(time.Second)
		over()
		for _, m := range ms {
			r.Seen(strings.Join(m.log, "\n"))
			if m.maxH > 1 {
				r.Ev("subscriptions_with_concurrent_handlers")
			}
			if len(m.log) > 12 {
				r.Sample(strings.Join(m.log[:12], "\n"))
			}
		}
		srv.Stop()
		time.Sleep(3 * time.Hour)
	})
}

func init() {
	h.Register("C16", runTransport)
	h.Register("C18", runSubscribe)
	h.Register("C19", runContext)
}
