package conc

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"testing"
	"time"

	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/verifyield"

	"github.com/hyperonym/ratus/verif/h"
	"github.com/hyperonym/ratus/verif/mgo"
)

// first is the instance whose deployment is inspected and stopped at the end.
type first struct {
	engine.Engine
	look *mgo.Eng
}

// Close implements engine.Engine.
func (f *first) Close(context.Context) error {
	f.look.B.Done()
	return nil
}

// instances makes several engines share one deployment. The first one reads
// the stored documents directly when the final state is recorded.
func instances(b *mgo.Backend, n int) []engine.Engine {
	var l []engine.Engine
	for i := range n {
		g, err := b.Inner(72 * time.Hour)
		if err != nil {
			panic(err)
		}
		if i == 0 {
			l = append(l, &first{Engine: g, look: &mgo.Eng{Engine: g, B: b}})
			continue
		}
		l = append(l, g)
	}
	return l
}

// maintenance, claims, releases and commits race for few tasks.
func mongoProfileOf(r *rand.Rand, m mgo.Mode) *profile {
	p := &profile{topics: 1 + r.IntN(2), ids: 1 + r.IntN(4), setup: 4, clients: 4, ops: 3, rounds: 3, chores: true}
	w := map[string]int{"poll": 30, "claim": 14, "force": 8, "commit": 30, "chore": 10, "delProm": 6, "getTask": 3, "getProm": 2, "listTasks": 2, "insTask": 3, "insTasks": 2, "delTask": 3, "delTasks": 1, "delTopic": 1, "delTopics": 1, "getTopic": 1, "listTopics": 1, "listProms": 2, "delProms": 4}
	if _, byID := m.Optimistic(); !byID {
		// Otherwise they consist of several steps.
		w["upsTask"], w["upsTasks"] = 4, 2
	}
	p.kinds = weights(w)
	return p
}

// crowd makes many clients poll for as many tasks, or claim the same task by
// force, at once.
func crowd(r *rand.Rand) *plan {
	g := &gen{r: r, p: &profile{}, ts: []string{"t0"}}
	pl := &plan{cfg: &h.Cfg{MaxLimit: 100, MaxOffset: 100, Retention: 72 * time.Hour, Interval: time.Hour}}
	k, per, kind := 4+r.IntN(20), 1+r.IntN(2), "poll"
	if r.IntN(4) == 0 {
		k, per, kind = 4+r.IntN(6), 1, "force"
	}
	n := k*per + h.Pick(r, []int{0, 0, 3, -2})
	o := &h.Op{K: "upsTasks", T: "t0", Tasks: []*h.TaskSpec{}}
	for i := range n {
		t := &h.TaskSpec{ID: sp(fmt.Sprintf("i%d", i)), Topic: sp("t0"), Payload: float64(i), HasPayload: true}
		if r.IntN(2) == 0 {
			t.Defer = sp(h.Pick(r, []string{"-1s", "-2s", "-1h", "-5ms"}))
		}
		o.Tasks = append(o.Tasks, t)
		g.ids = append(g.ids, *t.ID)
	}
	pl.setup = []*h.Op{o}
	rd := round{sleep: time.Second}
	if kind == "force" {
		g.ids = g.ids[:1]
	}
	for range k {
		var l []*h.Op
		for range per {
			o := g.op(kind)
			o.Prom.Timeout = sp("1h")
			l = append(l, o)
		}
		rd.clients = append(rd.clients, l)
	}
	pl.rounds = []round{rd}
	return pl
}

// served checks that a crowd got everything there was.
func served(pl *plan, x *result) string {
	polls, got, forced, missed := 0, map[string]bool{}, 0, 0
	for _, o := range x.hist.Ops {
		in, out := o.Input.(*h.LinIn), o.Output.(*h.Outcome)
		switch in.Q.K {
		case "poll":
			polls++
			if t, err := h.TaskFromJSON(out.JSON); out.Code == 200 && err == nil {
				if got[t.ID] {
					return fmt.Sprintf("task %s was handed out twice", t.ID)
				}
				got[t.ID] = true
			}
		case "force":
			forced++
			if out.Code != 200 {
				missed++
			}
		}
	}
	if want := min(polls, len(pl.setup[0].Tasks)); len(got) != want {
		return fmt.Sprintf("%d concurrent polls got %d of %d due tasks", polls, len(got), len(pl.setup[0].Tasks))
	}
	if missed > 0 {
		return fmt.Sprintf("%d of %d concurrent forced claims failed", missed, forced)
	}
	return ""
}

func init() {
	h.Register("C24", func(t *testing.T, p *h.Params, r *h.Report) {
		runtime.GOMAXPROCS(1)
		if p.Shard%4 == 3 {
			runtime.GOMAXPROCS(4)
		}
		for _, i := range p.Cases(16000) {
			h.Beat("mongo conc case=%d", i)
			rnd := h.NewRand(p.Seed, 24, i)
			mode := mgo.Mode{Shard: h.Pick(rnd, []string{"", "", "", "_id", "topic"}), NoPoll: rnd.IntN(4) == 0, Fallback: rnd.IntN(3) == 0}
			pl := generate(rnd, mongoProfileOf(rnd, mode))
			many := rnd.IntN(16) == 0
			if many {
				pl = crowd(rnd)
				r.Ev("crowds")
			}
			// Expired documents are removed by the deployment, not by engines.
			pl.cfg.Retention = 200 * 365 * 24 * time.Hour
			any, _ := mode.Optimistic()
			tune := func(m *h.Model) {
				m.Gran, m.Spurious, m.AnyDue = time.Millisecond, true, any
			}
			n := 1 + rnd.IntN(3)
			var b *mgo.Backend
			x := execute(t, pl, rnd, func() []engine.Engine {
				b = mgo.NewBackend(mode)
				b.Srv.Sched = func() {
					if f := verifyield.Hook.Load(); f != nil {
						for range 3 {
							(*f)()
						}
					}
				}
				return instances(b, n)
			}, tune)
			r.Ev("instances", n)
			r.Ev("mode:" + mode.String())
			for k, v := range b.D.Counts {
				r.Ev("command:"+k, v)
			}
			if len(b.D.Unknown) > 0 {
				r.Inconcl("case %d: the emulated deployment does not support %v", i, b.D.Unknown)
				continue
			}
			if many {
				if msg := served(pl, x); msg != "" {
					r.Violate(&h.Violation{Props: []string{"C24"}, Sig: "crowd", Msg: mode.String() + ": " + msg, Case: fmt.Sprintf("mongo conc case=%d", i), Trace: x.hist.Strings()})
					continue
				}
			}
			judge("C24", i, p, r, pl, x, tune)
		}
	})
}
