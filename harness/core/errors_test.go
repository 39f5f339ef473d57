package core

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"

	"github.com/hyperonym/ratus/verif/h"
)

// failing is a storage engine whose every operation fails.
type failing struct {
	engine.Engine
	err error
}

func (g *failing) Ready(context.Context) error { return g.err }
func (g *failing) Chore(context.Context) error { return g.err }
func (g *failing) Poll(context.Context, string, *ratus.Promise) (*ratus.Task, error) {
	return nil, g.err
}
func (g *failing) Commit(context.Context, string, *ratus.Commit) (*ratus.Task, error) {
	return nil, g.err
}
func (g *failing) ListTopics(context.Context, int, int) ([]*ratus.Topic, error) { return nil, g.err }
func (g *failing) DeleteTopics(context.Context) (*ratus.Deleted, error)         { return nil, g.err }
func (g *failing) GetTopic(context.Context, string) (*ratus.Topic, error)       { return nil, g.err }
func (g *failing) DeleteTopic(context.Context, string) (*ratus.Deleted, error)  { return nil, g.err }
func (g *failing) ListTasks(context.Context, string, int, int) ([]*ratus.Task, error) {
	return nil, g.err
}
func (g *failing) InsertTasks(context.Context, []*ratus.Task) (*ratus.Updated, error) {
	return nil, g.err
}
func (g *failing) UpsertTasks(context.Context, []*ratus.Task) (*ratus.Updated, error) {
	return nil, g.err
}
func (g *failing) DeleteTasks(context.Context, string) (*ratus.Deleted, error)     { return nil, g.err }
func (g *failing) GetTask(context.Context, string) (*ratus.Task, error)            { return nil, g.err }
func (g *failing) InsertTask(context.Context, *ratus.Task) (*ratus.Updated, error) { return nil, g.err }
func (g *failing) UpsertTask(context.Context, *ratus.Task) (*ratus.Updated, error) { return nil, g.err }
func (g *failing) DeleteTask(context.Context, string) (*ratus.Deleted, error)      { return nil, g.err }
func (g *failing) ListPromises(context.Context, string, int, int) ([]*ratus.Promise, error) {
	return nil, g.err
}
func (g *failing) DeletePromises(context.Context, string) (*ratus.Deleted, error) { return nil, g.err }
func (g *failing) GetPromise(context.Context, string) (*ratus.Promise, error)     { return nil, g.err }
func (g *failing) InsertPromise(context.Context, *ratus.Promise) (*ratus.Task, error) {
	return nil, g.err
}
func (g *failing) UpsertPromise(context.Context, *ratus.Promise) (*ratus.Task, error) {
	return nil, g.err
}
func (g *failing) DeletePromise(context.Context, string) (*ratus.Deleted, error) { return nil, g.err }

type unwrapper struct {
	msg string
	err error
}

func (e *unwrapper) Error() string { return e.msg }
func (e *unwrapper) Unwrap() error { return e.err }

type matcher struct {
	msg  string
	kind error
}

func (e matcher) Error() string        { return e.msg }
func (e matcher) Is(target error) bool { return target == e.kind }

// sentinels are the documented kinds of errors and their status codes.
var sentinels = []struct {
	name string
	err  error
	code int
}{
	{"bad-request", ratus.ErrBadRequest, 400}, {"not-found", ratus.ErrNotFound, 404}, {"conflict", ratus.ErrConflict, 409},
	{"client-closed", ratus.ErrClientClosedRequest, 499}, {"internal", ratus.ErrInternalServerError, 500}, {"unavailable", ratus.ErrServiceUnavailable, 503},
	{"canceled", context.Canceled, 499}, {"unexpected-eof", io.ErrUnexpectedEOF, 499},
	{"unknown", errors.New("some storage failure"), 500}, {"deadline", context.DeadlineExceeded, 500}, {"eof", io.EOF, 500},
}

// genError generates an error of a known kind.
func genError(r *rand.Rand) (name string, err error, code int) {
	s := h.Pick(r, sentinels)
	name, err, code = s.name, s.err, s.code
	msg := h.AnyString(r)
	switch k := r.IntN(9); k {
	case 0, 1:
	case 2:
		err = fmt.Errorf("%w: %s", err, msg)
	case 3:
		err = fmt.Errorf("%s: %w", msg, err)
	case 4:
		err = fmt.Errorf("outer: %w", fmt.Errorf("%s: %w (%s)", msg, err, "inner"))
	case 5:
		err = errors.Join(errors.New("first "+msg), err)
	case 6:
		err = &unwrapper{msg, err}
	case 7:
		err = matcher{msg, err}
	case 8:
		err = fmt.Errorf("%w%s", err, msg)
	}
	if r.IntN(6) == 0 {
		name, code = "unknown", 500
		err = errors.New(msg)
	}
	return name, err, code
}

// apiKinds lists every API operation.
func apiKinds() []string {
	var o []string
	for k := range h.Routes {
		o = append(o, k)
	}
	return sorted(o)
}

func sorted(s []string) []string {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
	return s
}

// simpleOp builds a valid request of a kind.
func simpleOp(r *rand.Rand, k string) *h.Op {
	id, tp := "id", "topic"
	o := &h.Op{K: k, T: tp, ID: id, Bare: r.IntN(3) == 0}
	if !strings.Contains(h.Routes[k][1], ":id") {
		o.ID = ""
	}
	tk := func(id string) *h.TaskSpec { return &h.TaskSpec{ID: &id, Topic: &tp} }
	switch k {
	case "insTask", "upsTask":
		o.Task = tk(id)
	case "insTasks", "upsTasks":
		o.Tasks = []*h.TaskSpec{tk("x"), tk("y")}
	case "poll", "claim", "force":
		c := "consumer"
		o.Prom = &h.PromSpec{Consumer: &c}
		if k == "poll" && r.IntN(4) == 0 {
			o.Prom.ID = &id
		}
	case "commit":
		n := 2
		o.Commit = &h.CommitSpec{State: &n}
	}
	return o
}

// judgeError checks an error response against the engine's error.
func judgeError(o *h.Outcome, err error, code int) string {
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	if o.Code != code {
		return fmt.Sprintf("status %d instead of %d", o.Code, code)
	}
	if !strings.HasPrefix(o.Hdr.Get("Content-Type"), "application/json") {
		return "content type " + o.Hdr.Get("Content-Type")
	}
	var e struct {
		Error struct {
			Code    *int
			Message *string
		}
	}
	if x := json.Unmarshal(o.Body, &e); x != nil || e.Error.Code == nil || e.Error.Message == nil {
		return "the body is not an error: " + h.Q(string(o.Body))
	}
	if *e.Error.Code != code {
		return fmt.Sprintf("code %d in the body of a response with status %d", *e.Error.Code, code)
	}
	if !strings.Contains(*e.Error.Message, err.Error()) {
		return "message " + h.Q(*e.Error.Message) + " without " + h.Q(err.Error())
	}
	return ""
}

// judgeClient checks the error returned by the client library.
func judgeClient(got, err error, code int) string {
	if got == nil {
		return "no error"
	}
	for _, s := range sentinels[:6] {
		if errors.Is(got, s.err) != (s.code == code) {
			return fmt.Sprintf("error %v matches %v: %v", got, s.err, errors.Is(got, s.err))
		}
	}
	if !strings.Contains(got.Error(), err.Error()) {
		return "error " + h.Q(got.Error()) + " without " + h.Q(err.Error())
	}
	return ""
}

func runErrors(t *testing.T, p *h.Params, r *h.Report) {
	kinds := append(apiKinds(), "readyz")
	for _, i := range p.Cases(6000) {
		h.Beat("errors case=%d", i)
		rnd := h.NewRand(p.Seed, 17, i)
		name, err, code := genError(rnd)
		bad := func(via, k, msg string) {
			if msg == "" {
				return
			}
			r.Violate(&h.Violation{Props: []string{"C17"}, Sig: via + ":" + k + ":" + name, Msg: fmt.Sprintf("%s of %s failing with %T %s (%s): %s", via, k, err, h.Q(err.Error()), name, msg), Case: fmt.Sprintf("errors case=%d", i)})
		}
		// The exported conversions.
		e := ratus.NewError(err)
		if e == nil || e.Error.Code != code || e.Error.Message != err.Error() {
			bad("NewError", "-", h.J(e))
		} else {
			bad("Error.Err", "-", judgeClient(e.Err(), err, code))
			back := ratus.NewError(e.Err())
			if back.Error.Code != code {
				bad("round trip", "-", h.J(back))
			}
		}
		synctest.Test(t, func(t *testing.T) {
			g := &failing{err: err}
			hd := h.Handler(g, &config.PaginationConfig{MaxLimit: 10, MaxOffset: 10})
			srv := h.NewMemServer(hd)
			srv.Redirect()
			cl, e := ratus.NewClient(&ratus.ClientOptions{Origin: "http://ratus.test"})
			if e != nil {
				t.Fatal(e)
			}
			d := &h.ClientDriver{C: cl}
			for _, k := range kinds {
				r.Ev("failures:" + name)
				r.Seen(k, name, code, err.Error())
				if k == "readyz" {
					u := h.Pick(rnd, []string{"/readyz", "/v1/readyz"})
					bad("response", k, judgeError(h.Serve(hd, "GET", u, nil, nil), err, code))
					bad("client", k, judgeClient(cl.GetReadiness(context.Background()), err, code))
					if o := h.Serve(hd, "GET", strings.Replace(u, "readyz", "livez", 1), nil, nil); o.Code != 200 {
						bad("response", "livez", fmt.Sprint("status ", o.Code))
					}
					if e := cl.GetLiveness(context.Background()); e != nil {
						bad("client", "livez", e.Error())
					}
					continue
				}
				q := simpleOp(rnd, k).Resolve(time.Now(), nil)
				u := q.Path
				if q.Query != "" {
					u += "?" + q.Query
				}
				bad("response", k, judgeError(h.Serve(hd, q.Method, u, q.Body, nil), err, code))
				for _, v := range []int{0, 1} {
					q.Op.Var = v
					d.Err = nil
					o := d.Do(q)
					if d.Err == nil {
						bad("client", k, "no error, but "+h.Q(string(o.Body)))
						continue
					}
					bad("client", k, judgeClient(d.Err, err, code))
					if k != "poll" {
						break
					}
				}
			}
			srv.Stop()
			http.DefaultTransport.(*http.Transport).CloseIdleConnections()
		})
		r.Eval(1)
		if i < 8 {
			r.Sample(fmt.Sprintf("%s: %T %s -> status %d, observed over %d operations as raw responses and through the client", name, err, h.Q(err.Error()), code, len(kinds)))
		}
	}
}

func init() { h.Register("C17", runErrors) }
