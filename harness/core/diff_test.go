package core

import (
	"fmt"
	"testing"

	"github.com/hyperonym/ratus/verif/h"
)

// runDiff executes histories through an alternative route to the server and
// reports those that diverge from the model only that way.
func runDiff(id string, n int, prof *h.Profile, mk func() h.Backend, salt uint64) h.Check {
	return func(t *testing.T, p *h.Params, r *h.Report) {
		plain := func() h.Backend { return h.MemBackend{} }
		for _, i := range p.Cases(n) {
			h.Beat("diff case=%d", i)
			c, ops := h.GenCase(h.NewRand(p.Seed, salt, i), prof)
			for k, o := range ops {
				o.Var = k
			}
			res := h.RunCase(t, c, ops, mk, nil)
			r.Eval(1)
			for k, v := range res.Stats {
				r.Ev(k, int(v))
			}
			for _, l := range res.Log {
				r.Seen(l)
			}
			if len(res.Log) > 8 {
				r.Sample(fmt.Sprint(res.Log[:8]))
			}
			if res.Div == nil {
				continue
			}
			base := h.RunCase(t, c, ops, plain, nil)
			if base.Div != nil && base.At <= res.At {
				r.Ev("other:" + h.Join(res.Div.Tags))
				continue
			}
			v := &h.Violation{Props: append(res.Div.Tags, id), Sig: res.Div.Sig, Msg: res.Div.Msg, Case: fmt.Sprintf("diff case=%d op=%d", i, res.At)}
			if r.Events["shrunk"] < 3 {
				r.Ev("shrunk")
				min := h.Shrink(t, c, ops[:res.At+1], mk, nil, func(x *h.CaseResult) bool { return x.Div.Sig == res.Div.Sig })
				x := h.RunCase(t, c, min, mk, nil)
				if x.Div != nil {
					v.Msg = x.Div.Msg
				}
				v.Trace = map[string]any{"config": c, "ops": min, "log": x.Log}
			}
			r.Violate(v)
		}
	}
}

func init() {
	p := &h.Profile{Name: "C16", Topics: 4, IDs: 8, Ops: 50, Plain: 0.2, Payload: 4, BadFrac: 0, Snapshot: 0, Bulk: 0.01, Huge: 0.006, Weights: h.StdWeights(map[string]int{"restart": 0, "crash": 0})}
	h.Register("C16", runDiff("C16", 6000, p, func() h.Backend { return &h.ClientBackend{} }, 16))
	p = &h.Profile{Name: "C25", Topics: 4, IDs: 8, Ops: 50, Plain: 0.3, Payload: 3, BadFrac: 0.1, Snapshot: 0, Bulk: 0.003, BulkMax: 400, Huge: 0.002, Weights: h.StdWeights(map[string]int{"getTask": 10, "listTasks": 8, "listTopics": 8, "getTopic": 8})}
	h.Register("C25", runDiff("C25", 6000, p, func() h.Backend { return h.VariantBackend{} }, 25))
}
