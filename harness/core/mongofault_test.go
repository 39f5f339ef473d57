package core

import (
	"context"
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"go.mongodb.org/mongo-driver/bson"

	"github.com/hyperonym/ratus/internal/config"

	"github.com/hyperonym/ratus/verif/h"
	"github.com/hyperonym/ratus/verif/mgo"
)

var faultErrs = []*mgo.Failure{
	{Code: 8000, Name: "AtlasError", Msg: "quota"}, {Code: 13, Name: "Unauthorized", Msg: "not authorized"}, {Code: 50, Name: "MaxTimeMSExpired", Msg: "timed out"},
	{Code: 11600, Name: "InterruptedAtShutdown", Msg: "interrupted"}, {Code: 189, Name: "PrimarySteppedDown", Msg: "stepped down"}, {Code: 112, Name: "WriteConflict", Msg: "write conflict"},
	{Code: 2, Name: "BadValue", Msg: "bad value"}, {Code: 59, Name: "CommandNotFound", Msg: "no such command"},
}

var fallbackErrs = []*mgo.Failure{
	{Code: 61, Name: "ShardKeyNotFound", Msg: "Query for sharded findAndModify must contain the shard key"},
	{Code: 31025, Name: "Location31025", Msg: "Shard key update is not allowed without specifying the full shard key in the query"},
}

// storedDocs reads the collection and the order of its listings.
func storedDocs(b *mgo.Backend) (map[string]*h.MTask, *h.Listing) {
	m := map[string]*h.MTask{}
	l := &h.Listing{Tasks: map[string][]string{}, Proms: map[string][]string{}}
	b.Srv.With(func(d *mgo.Deployment) {
		for _, x := range d.Docs(mgo.NS) {
			t, err := mgo.TaskOf(x)
			if err != nil {
				panic(err)
			}
			u := h.TaskOf(t)
			m[u.ID] = u
			if len(l.Tasks[u.Topic]) == 0 {
				l.Topics = append(l.Topics, u.Topic)
			}
			l.Tasks[u.Topic] = append(l.Tasks[u.Topic], u.ID)
			if u.State == h.Active {
				l.Proms[u.Topic] = append(l.Proms[u.Topic], u.ID)
			}
		}
	})
	return m, l
}

// touches tells whether a request may change a task.
func touches(q *h.Req, t *h.MTask, ids map[string]bool) bool {
	if p := q.Op; p != nil && p.Prom != nil && p.Prom.ID != nil && *p.Prom.ID == t.ID {
		return true
	}
	switch q.K {
	case "insTask", "upsTask", "delTask", "commit", "claim", "force", "delProm":
		return t.ID == q.ID
	case "insTasks", "upsTasks":
		return ids[t.ID]
	case "delTasks", "delTopic", "delProms", "poll":
		return t.Topic == q.Topic
	case "delTopics", "chore":
		return true
	}
	return false
}

// faultCase runs a history during which commands fail.
func faultCase(c *h.Cfg, ops []*h.Op, mode mgo.Mode, r *rand.Rand, rep *h.Report) (msg, sig string, log []string, unknown string) {
	ctx := context.Background()
	b := mgo.NewBackend(mode)
	defer b.Done()
	g, err := b.NewEngine(c, "")
	if err != nil {
		panic(err)
	}
	if err := g.Open(ctx); err != nil {
		return "opening: " + err.Error(), "open", nil, ""
	}
	inner := g.(*mgo.Eng).Engine
	d := b.Driver(g, &config.PaginationConfig{MaxLimit: c.MaxLimit, MaxOffset: c.MaxOffset})
	m := h.NewModel()
	m.Gran = time.Millisecond
	m.MaxLimit, m.MaxOffset, m.Retention = c.MaxLimit, c.MaxOffset, c.Retention
	for i, o := range ops {
		if o.K == "sleep" {
			time.Sleep(time.Duration(o.D))
			continue
		}
		before, full := storedDocs(b)
		m.Tasks = h.CopyTasks(before)
		now := time.Now()

		// Arm a fault.
		var fired []string
		var f *mgo.Fault
		at, sticky, kind := r.IntN(3), r.IntN(2) == 0, h.Pick(r, []string{"none", "none", "err", "err", "before", "after", "fallback", "write", "down"})
		if r.IntN(2) == 0 {
			at = 0
		}
		switch kind {
		case "err":
			f = &mgo.Fault{Err: h.Pick(r, faultErrs)}
		case "fallback":
			f, sticky = &mgo.Fault{Err: h.Pick(r, fallbackErrs)}, false
		case "before", "after":
			f = &mgo.Fault{Drop: kind}
		case "write":
			f = &mgo.Fault{Write: map[int]*mgo.Failure{r.IntN(2): {Code: 10334, Name: "BSONObjectTooLarge", Msg: "too large"}}}
		case "down":
			b.Srv.Down(true)
		}
		n := 0
		b.Srv.Inject(func(name string, cmd bson.D) *mgo.Fault {
			n++
			if f == nil || n <= at || !sticky && n > at+1 {
				return nil
			}
			x := f
			if kind == "fallback" && name != "findAndModify" {
				// Bulk writes report it for single writes.
				x = &mgo.Fault{Write: map[int]*mgo.Failure{0: f.Err}}
			}
			if kind == "write" {
				if name != "insert" && name != "update" {
					return nil
				}
				k := 0
				for _, e := range cmd {
					if l, ok := e.Value.(bson.A); ok {
						k = len(l)
					}
				}
				if k < 2 {
					return nil
				}
			}
			fired = append(fired, name)
			return x
		})
		var q *h.Req
		var out *h.Outcome
		if o.K == "chore" {
			q = &h.Req{K: "chore"}
			out = &h.Outcome{Code: 200}
			if err := inner.Chore(ctx); err != nil {
				out = &h.Outcome{Code: 500, Body: []byte(err.Error())}
			}
		} else {
			q = o.Resolve(now, func(x *h.NonceRef) string {
				if t := before[x.ID]; t != nil && x.Kind == "cur" {
					return t.Nonce
				}
				return "stalestalestales"
			})
			out = d.Do(q)
		}
		b.Srv.Inject(nil)
		if kind == "down" {
			if err := inner.Ready(ctx); err == nil {
				return "the engine is ready without a deployment", "ready", log, ""
			}
			b.Srv.Down(false)
			fired = append(fired, "all")
		}
		slow := !time.Now().Equal(now)
		after, _ := storedDocs(b)
		for k := 0; k < 5 && inner.Ready(ctx) != nil; k++ {
			time.Sleep(time.Second)
		}
		if err := inner.Ready(ctx); err != nil {
			return "the engine does not recover from a fault: " + err.Error(), "recover:" + kind, log, ""
		}
		desc := fmt.Sprintf("[%d %s %s -> %d %s] fault %s %v at %d sticky %v hit %v", i, q.K, h.Q(q.Path), out.Code, h.Q(string(out.Body)), kind, f, at, sticky, fired)
		log = append(log, desc)
		if b.D.Unknown != nil {
			return "", "", log, b.D.Unknown[0]
		}
		rep.Ev("fault:" + kind)
		if len(fired) > 0 {
			rep.Ev("faults_hit")
			rep.Seen(fmt.Sprint(mode.Shard, mode.NoPoll, mode.Fallback, q.K, kind, sticky, fired, out.Code))
		}
		fail := func(s, format string, a ...any) (string, string, []string, string) {
			return desc + ": " + fmt.Sprintf(format, a...), "fault:" + kind + ":" + q.K + ":" + s, log, ""
		}
		ids := map[string]bool{}
		for _, t := range o.Tasks {
			if t.ID != nil {
				ids[*t.ID] = true
			}
		}
		reads := strings.HasPrefix(q.K, "get") || strings.HasPrefix(q.K, "list")
		failed := out.Code >= 500
		switch {
		case len(fired) > 0 && failed:
			rep.Ev("failures_reported")
			// Nothing else may have changed; nothing at all if the command
			// was not executed.
			single := q.K != "insTasks" && q.K != "upsTasks" && q.K != "upsTask"
			for _, x := range []map[string]*h.MTask{before, after} {
				for id, t := range x {
					u, v := before[id], after[id]
					if u != nil && v != nil && m.Diff(u, v) == nil {
						continue
					}
					if !touches(q, t, ids) || reads {
						return fail("other", "task %s changed from %s to %s", h.Q(id), h.J(u), h.J(v))
					}
					if single && (kind == "err" || kind == "before" || kind == "down") {
						return fail("changed", "failed although task %s changed from %s to %s", h.Q(id), h.J(u), h.J(v))
					}
				}
			}
			continue
		case q.K == "chore":
			if out.Code != 200 {
				return fail("chore", "maintenance failed")
			}
			for id, t := range before {
				want := *t
				if t.State == h.Active && t.Deadline != nil && t.Deadline.UnixMilli() < now.UnixMilli() {
					want.State, want.Nonce = h.Pending, ""
				}
				if a := after[id]; a == nil || m.Diff(&want, a) != nil {
					return fail("state", "task %s is %s, expected %s", h.Q(id), h.J(a), h.J(want))
				}
			}
			continue
		}
		if slow {
			// The driver waited, so the instant of the operation is unknown.
			for _, x := range []map[string]*h.MTask{before, after} {
				for id, t := range x {
					u, v := before[id], after[id]
					if (u == nil || v == nil || m.Diff(u, v) != nil) && (!touches(q, t, ids) || reads) {
						return fail("other", "task %s changed from %s to %s", h.Q(id), h.J(u), h.J(v))
					}
				}
			}
			rep.Ev("retried_later")
			continue
		}
		if len(fired) > 0 && kind == "write" && q.K == "insTasks" {
			return fail("success", "a failed write is not reported")
		}
		if div := m.Apply(q, out, now, full); div != nil {
			return fail(div.Sig, "%s", div.Msg)
		}
		for id, t := range m.Tasks {
			if a := after[id]; a == nil || m.Diff(t, a) != nil {
				return fail("state", "task %s is stored as %s, expected %s", h.Q(id), h.J(a), h.J(t))
			}
		}
		for id, t := range after {
			if m.Tasks[id] == nil {
				return fail("extra", "task %s should not be stored: %s", h.Q(id), h.J(t))
			}
		}
	}
	return "", "", log, ""
}

func mongoFaults(t *testing.T, p *h.Params, r *h.Report) {
	prof := mongoProfile()
	prof.Bulk = 0
	for _, i := range p.Cases(1600) {
		h.Beat("mongo fault case=%d", i)
		rnd := h.NewRand(p.Seed, 230, i)
		mode := mongoMode(rnd)
		c, ops := h.GenCase(rnd, prof)
		storable(ops)
		synctest.Test(t, func(t *testing.T) {
			msg, sig, log, unknown := faultCase(c, ops, mode, rnd, r)
			r.Eval(1)
			if unknown != "" {
				r.Inconcl("fault case %d: %s", i, unknown)
			} else if msg != "" {
				r.Violate(&h.Violation{Props: []string{"C23"}, Sig: sig, Msg: mode.String() + ": " + msg, Case: fmt.Sprintf("mongo fault case=%d", i), Trace: log})
			} else if len(log) > 3 {
				r.Sample(mode.String() + fmt.Sprint(log[:3]))
			}
		})
	}
}
