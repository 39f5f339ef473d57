package core

import (
	"fmt"
	"strings"
	"testing"

	"github.com/hyperonym/ratus/verif/h"
)

// seqProfile returns the workload emphasis for a property.
func seqProfile(id string) *h.Profile {
	p := &h.Profile{Name: id, Topics: 4, IDs: 8, Ops: 60, Plain: 0.3, Payload: 2, BadFrac: 0.02, Snapshot: 0.1, Bulk: 0.006, Huge: 0.0005}
	switch id {
	case "C01":
		p.Weights = h.StdWeights(map[string]int{"poll": 25, "claim": 12, "force": 6, "delProm": 6, "delProms": 3, "commit": 15, "chore": 10})
	case "C03":
		p.Weights = h.StdWeights(map[string]int{"poll": 20, "claim": 10, "force": 8, "delProm": 6, "delProms": 3, "commit": 40, "chore": 10, "upsTask": 8, "restart": 3})
		p.IDs, p.Topics, p.Snapshot = 4, 2, 0.5
	case "C04":
		p.Weights = h.StdWeights(map[string]int{"poll": 25, "claim": 10, "chore": 25, "sleep": 25, "force": 5, "delTask": 1, "delTasks": 0, "delTopic": 0, "delTopics": 0})
	case "C05":
		p.Weights = h.StdWeights(map[string]int{"insTasks": 14, "poll": 40, "commit": 14, "sleep": 14, "chore": 6})
		p.IDs, p.Prefill, p.SameTime = 14, 3, 0.1
	case "C06":
		p.Weights = h.StdWeights(map[string]int{"delTasks": 4, "delTopic": 4, "delProms": 4, "delTask": 5, "getTopic": 8, "listTasks": 8, "poll": 20, "delTopics": 1})
		p.Plain, p.Topics, p.IDs = 0, 6, 10
	case "C07":
		p.Weights = h.StdWeights(map[string]int{"chore": 30, "sleep": 30, "commit": 20, "poll": 15, "insTasks": 10, "upsTasks": 8, "delTopics": 0, "delTopic": 0, "delTasks": 0})
		p.IDs = 12
	case "C08":
		p.Weights = h.StdWeights(map[string]int{"restart": 8, "crash": 3, "chore": 10, "sleep": 10})
		p.Snapshot, p.Payload, p.IDs = 1, 4, 12
	case "C10":
		p.Weights = h.StdWeights(map[string]int{"insTask": 20, "insTasks": 20, "upsTask": 15, "upsTasks": 15, "delTask": 8, "delTasks": 4, "delTopic": 4, "delTopics": 2})
	case "C11":
		p.Weights = h.StdWeights(map[string]int{"commit": 50, "upsTask": 8})
		p.IDs, p.Topics = 5, 3
	case "C12":
		p.Weights = h.StdWeights(map[string]int{"claim": 20, "force": 15, "delProm": 12, "delProms": 6, "getProm": 15, "listProms": 12, "poll": 15})
	case "C13":
		p.Weights = h.StdWeights(map[string]int{"listTopics": 25, "listTasks": 25, "listProms": 20, "getTopic": 8, "insTasks": 12, "delTopics": 0})
		p.IDs, p.Topics, p.Prefill, p.BadFrac = 40, 14, 4, 0.1
	case "C14":
		p.Weights = h.StdWeights(map[string]int{"insTask": 15, "insTasks": 15, "upsTask": 10, "upsTasks": 10, "commit": 20, "claim": 10, "force": 6})
		p.BadFrac = 0.4
	case "C26":
		p.Weights = h.StdWeights(map[string]int{"insTask": 15, "upsTask": 15, "commit": 20, "restart": 3, "getTask": 10, "listTasks": 8})
		p.Payload, p.Snapshot, p.Plain = 5, 0.5, 0.1
		p.Huge = 0.01
	default:
		p.Weights = h.StdWeights(nil)
	}
	return p
}

// runClientSeq executes histories with diverse payloads through the client.
func runClientSeq(t *testing.T, p *h.Params, r *h.Report) {
	prof := seqProfile(p.Check)
	prof.BadFrac, prof.Snapshot, prof.Huge = 0, 0, 0.02
	prof.Weights = h.StdWeights(map[string]int{"insTask": 15, "upsTask": 15, "commit": 20, "getTask": 10, "listTasks": 8, "restart": 0, "crash": 0})
	mk := func() h.Backend { return &h.ClientBackend{} }
	for _, i := range p.Cases(1600) {
		h.Beat("client seq case=%d", i)
		c, ops := h.GenCase(h.NewRand(p.Seed, 261, i), prof)
		res := h.RunCase(t, c, ops, mk, nil)
		r.Eval(1)
		r.Ev("client_histories")
		for _, l := range res.Log {
			r.Seen("client", l)
		}
		if res.Div == nil {
			continue
		}
		if !h.Has(res.Div.Tags, p.Check) && !strings.Contains(res.Div.Sig, "[200]->-1") {
			r.Ev("other:" + h.Join(res.Div.Tags))
			continue
		}
		r.Violate(&h.Violation{Props: []string{p.Check}, Sig: "client:" + res.Div.Sig, Msg: res.Div.Msg, Case: fmt.Sprintf("client seq case=%d op=%d", i, res.At)})
	}
}

// runSeq executes the sequential model-based histories for a property.
func runSeq(n int) h.Check {
	return func(t *testing.T, p *h.Params, r *h.Report) {
		prof := seqProfile(p.Check)
		if p.Check == "C26" {
			runClientSeq(t, p, r)
		}
		mk := func() h.Backend { return h.MemBackend{} }
		for _, i := range p.Cases(n) {
			h.Beat("seq case=%d", i)
			c, ops := h.GenCase(h.NewRand(p.Seed, 1, i), prof)
			res := h.RunCase(t, c, ops, mk, nil)
			r.Eval(1)
			for k, v := range res.Stats {
				r.Ev(k, int(v))
			}
			for _, l := range res.Log {
				r.Seen(l)
			}
			if len(res.Log) > 8 {
				r.Sample(fmt.Sprint(res.Log[:8]))
			}
			if res.Div == nil {
				continue
			}
			if !h.Has(res.Div.Tags, p.Check) {
				r.Ev("other:" + h.Join(res.Div.Tags))
				continue
			}
			v := &h.Violation{Props: res.Div.Tags, Sig: res.Div.Sig, Msg: res.Div.Msg, Case: fmt.Sprintf("seq case=%d op=%d", i, res.At)}
			if r.Events["shrunk"] < 3 {
				r.Ev("shrunk")
				min := h.Shrink(t, c, ops[:res.At+1], mk, nil, func(x *h.CaseResult) bool { return x.Div.Sig == res.Div.Sig })
				x := h.RunCase(t, c, min, mk, nil)
				v.Msg = x.Div.Msg
				v.Trace = map[string]any{"config": c, "ops": min, "log": x.Log}
			}
			r.Violate(v)
		}
	}
}

func init() {
	for _, id := range []string{"C01", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C14", "C26"} {
		h.Register(id, runSeq(16000))
	}
}
