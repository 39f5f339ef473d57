package core

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"
	"time"

	"github.com/hyperonym/ratus/verif/h"
	"github.com/hyperonym/ratus/verif/mgo"
)

func mongoMode(r *rand.Rand) mgo.Mode {
	m := mgo.Mode{Shard: h.Pick(r, []string{"", "", "", "_id", "topic"}), NoPoll: r.IntN(4) == 0, Fallback: r.IntN(4) == 0, NoIndexes: r.IntN(4) == 0}
	m.NoAuto = (m.Shard == "" || m.Shard == "_id" && m.NoPoll) && r.IntN(4) == 0
	if m.NoAuto && m.Fallback {
		m.NoAuto = false
	}
	if r.IntN(3) == 0 {
		m.Batch = 1 + r.IntN(4)
	}
	if r.IntN(3) == 0 {
		m.MaxBatch = 1 + r.IntN(3)
	}
	return m
}

func mongoProfile() *h.Profile {
	p := &h.Profile{Name: "C23", Topics: 4, IDs: 8, Ops: 60, Plain: 0.3, Payload: 3, BadFrac: 0.02, MS: true, Bulk: 0.006, BulkMax: 300}
	p.Weights = h.StdWeights(map[string]int{"claim": 8, "force": 6, "commit": 16, "upsTasks": 6})
	p.Gate = func(r *rand.Rand, c *h.Cfg) {
		c.Retention = h.Pick(r, []time.Duration{72 * time.Hour, time.Second, time.Minute, 0, 5 * time.Second})
		c.Snapshot = false
		c.MaxLimit, c.MaxOffset = min(c.MaxLimit, 1000), min(c.MaxOffset, 10000)
	}
	return p
}

// storable restricts a history to what BSON can represent: instants in whole
// milliseconds and no null characters in the names of fields.
func storable(ops []*h.Op) {
	ts := func(t *h.TS) {
		if t == nil {
			return
		}
		t.Ns = t.Ns / 1_000_000 * 1_000_000
		if x, err := time.Parse(time.RFC3339Nano, t.Abs); err == nil && x.Nanosecond()%1_000_000 != 0 {
			t.Abs = x.Truncate(time.Millisecond).Format(time.RFC3339Nano)
		}
	}
	dur := func(s *string) {
		if s != nil {
			if d, err := time.ParseDuration(*s); err == nil && d%time.Millisecond != 0 {
				*s = d.Truncate(time.Millisecond).String()
			}
		}
	}
	var val func(v any, depth int) any
	val = func(v any, depth int) any {
		switch x := v.(type) {
		case map[string]any:
			m := map[string]any{}
			for k, e := range x {
				m[strings.ReplaceAll(k, "\x00", "0")] = val(e, depth+1)
			}
			return m
		case []any:
			for i, e := range x {
				x[i] = val(e, depth+1)
			}
		}
		return v
	}
	task := func(t *h.TaskSpec) {
		if t == nil {
			return
		}
		ts(t.Produced)
		ts(t.Scheduled)
		ts(t.Consumed)
		ts(t.Deadline)
		dur(t.Defer)
		t.Payload = val(t.Payload, 0)
	}
	for _, o := range ops {
		o.D = o.D / 1_000_000 * 1_000_000
		task(o.Task)
		for _, t := range o.Tasks {
			task(t)
		}
		if o.Prom != nil {
			ts(o.Prom.Deadline)
			dur(o.Prom.Timeout)
		}
		if o.Commit != nil {
			ts(o.Commit.Scheduled)
			dur(o.Commit.Defer)
			o.Commit.Payload = val(o.Commit.Payload, 0)
		}
	}
}

func init() {
	h.Register("C23", func(t *testing.T, p *h.Params, r *h.Report) {
		mongoFaults(t, p, r)
		mongoRetention(t, p, r)
		prof := mongoProfile()
		tune := func(m *h.Model) { m.Gran = time.Millisecond }
		for _, i := range p.Cases(8000) {
			h.Beat("mongo case=%d", i)
			rnd := h.NewRand(p.Seed, 23, i)
			mode := mongoMode(rnd)
			c, ops := h.GenCase(rnd, prof)
			storable(ops)
			var b *mgo.Backend
			mk := func() h.Backend { b = mgo.NewBackend(mode); return b }
			res := h.RunCase(t, c, ops, mk, tune)
			r.Eval(1)
			for k, v := range res.Stats {
				r.Ev(k, int(v))
			}
			for k, v := range b.D.Counts {
				r.Ev("command:"+k, v)
			}
			for _, l := range res.Log {
				r.Seen(l)
			}
			if len(res.Log) > 8 {
				r.Sample(mode.String() + fmt.Sprint(res.Log[:8]))
			}
			if len(b.D.Unknown) > 0 {
				r.Inconcl("case %d: %s", i, b.D.Unknown[0])
				continue
			}
			if res.Div == nil {
				continue
			}
			v := &h.Violation{Props: []string{"C23"}, Sig: res.Div.Sig, Msg: mode.String() + ": " + res.Div.Msg, Case: fmt.Sprintf("mongo case=%d op=%d", i, res.At)}
			if r.Events["shrunk"] < 3 && res.At >= 0 {
				r.Ev("shrunk")
				min := h.Shrink(t, c, ops[:res.At+1], mk, tune, func(x *h.CaseResult) bool { return x.Div.Sig == res.Div.Sig })
				x := h.RunCase(t, c, min, mk, tune)
				v.Msg = mode.String() + ": " + x.Div.Msg
				v.Trace = map[string]any{"mode": mode.String(), "config": c, "ops": min, "log": x.Log}
			}
			r.Violate(v)
		}
	})
}
