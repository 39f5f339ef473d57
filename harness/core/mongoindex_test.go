package core

import (
	"context"
	"fmt"
	"math/rand/v2"
	"testing"
	"testing/synctest"
	"time"

	"go.mongodb.org/mongo-driver/bson"

	"github.com/hyperonym/ratus"

	"github.com/hyperonym/ratus/verif/h"
	"github.com/hyperonym/ratus/verif/mgo"
)

// retentionCase starts instances with generated retention periods over the
// same database and watches when tasks in every state disappear.
func retentionCase(r *rand.Rand, rep *h.Report) (msg, sig string) {
	ctx := context.Background()
	b := mgo.NewBackend(mgo.Mode{Shard: h.Pick(r, []string{"", "", "_id", "topic"})})
	defer b.Done()
	refused := false
	for k, n := 0, 1+r.IntN(3); k < n; k++ {
		ret := h.Pick(r, []time.Duration{0, time.Second, time.Minute, 72 * time.Hour, time.Duration(1+r.IntN(100000)) * time.Second, 500 * time.Millisecond, 1500 * time.Millisecond, time.Duration(1+r.IntN(5000)) * time.Millisecond, 60 * 365 * 24 * time.Hour, 100 * 365 * 24 * time.Hour, 290 * 365 * 24 * time.Hour})
		desc := fmt.Sprintf("instance %d with retention %v", k, ret)
		g, err := b.Inner(ret)
		if err != nil {
			return desc + ": " + err.Error(), "retention:new"
		}
		// Sometimes the deployment refuses while starting.
		hit := ""
		if r.IntN(4) == 0 {
			at, c := r.IntN(3), 0
			b.Srv.Inject(func(name string, cmd bson.D) *mgo.Fault {
				c++
				if c == at+1 {
					hit = name
					return &mgo.Fault{Err: &mgo.Failure{Code: 13, Name: "Unauthorized", Msg: "not authorized"}}
				}
				return nil
			})
		}
		err = g.Open(ctx)
		b.Srv.Inject(nil)
		rep.Ev("instances_started")
		if hit != "" {
			rep.Ev("startups_refused")
			if err == nil && refused {
				// The command may be one that the start refused before has
				// given up waiting for.
				rep.Ev("startups_unclear")
			} else if err == nil {
				return desc + ": started although " + hit + " failed", "retention:refused"
			}
			refused = true
			// Started again, it must get things right.
			if g, err = b.Inner(ret); err != nil {
				panic(err)
			}
			err = g.Open(ctx)
		}
		if err != nil {
			return desc + ": does not start: " + err.Error(), "retention:open"
		}
		id := fmt.Sprintf("x%d-", k)
		now := time.Now()
		for s := range 4 {
			t := &ratus.Task{ID: fmt.Sprint(id, s), Topic: "t", State: ratus.TaskState(s), Produced: &now, Scheduled: &now, Consumed: &now, Deadline: &now}
			if _, err := g.InsertTask(ctx, t); err != nil {
				return desc + ": " + err.Error(), "retention:insert"
			}
		}
		left := func(at time.Duration) string {
			s := ""
			b.Srv.With(func(d *mgo.Deployment) {
				d.Expire(now.Add(at))
				for _, x := range d.Docs(mgo.NS) {
					t, err := mgo.TaskOf(x)
					if err != nil {
						panic(err)
					}
					for i := range 4 {
						if t.ID == fmt.Sprint(id, i) {
							s += fmt.Sprint(i)
						}
					}
				}
			})
			return s
		}
		check := func(at time.Duration, want string) string {
			if got := left(at); got != want {
				return fmt.Sprintf("%s: %v after consumption, tasks in states %q are left, expected %q", desc, at, got, want)
			}
			return ""
		}
		rep.Seen(fmt.Sprint(k, ret, hit, b.Mode.Shard))
		// Deployments can not keep documents longer than about 68 years.
		if ret > 0 && ret < 60*365*24*time.Hour {
			if m := check(ret-time.Millisecond, "0123"); m != "" {
				return m, "retention:early"
			}
		}
		if ret < 60*365*24*time.Hour {
			if m := check(ret+time.Second, "013"); m != "" {
				return m, "retention:late"
			}
		} else if m := check(20*365*24*time.Hour, "0123"); m != "" {
			return m, "retention:early"
		}
	}
	return "", ""
}

func mongoRetention(t *testing.T, p *h.Params, r *h.Report) {
	for _, i := range p.Cases(1600) {
		h.Beat("mongo retention case=%d", i)
		rnd := h.NewRand(p.Seed, 231, i)
		synctest.Test(t, func(t *testing.T) {
			msg, sig := retentionCase(rnd, r)
			r.Eval(1)
			if msg != "" {
				r.Violate(&h.Violation{Props: []string{"C23"}, Sig: sig, Msg: msg, Case: fmt.Sprintf("mongo retention case=%d", i)})
			}
		})
	}
}
