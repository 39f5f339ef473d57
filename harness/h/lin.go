package h

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
)

// LinIn is the invocation of one operation in a concurrent history.
type LinIn struct {
	Q   *Req
	Now time.Time // virtual instant at which the operation ran
}

// History records invocations and responses at the client boundary.
type History struct {
	clock atomic.Int64
	mu    sync.Mutex
	Ops   []porcupine.Operation
}

// Record runs one operation and records it.
func (x *History) Record(client int, q *Req, f func() *Outcome) *Outcome {
	in := &LinIn{Q: q, Now: time.Now()}
	call := x.clock.Add(1)
	out := f()
	ret := x.clock.Add(1)
	x.mu.Lock()
	x.Ops = append(x.Ops, porcupine.Operation{ClientId: client, Input: in, Call: call, Output: out, Return: ret})
	x.mu.Unlock()
	return out
}

// Strings renders the history in call order.
func (x *History) Strings() []string {
	ops := append([]porcupine.Operation{}, x.Ops...)
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	var o []string
	for _, p := range ops {
		o = append(o, fmt.Sprintf("client %d [%d,%d] %s", p.ClientId, p.Call, p.Return, DescOp(p.Input, p.Output)))
	}
	return o
}

// DescOp describes one recorded operation.
func DescOp(in, out any) string {
	q, o := in.(*LinIn).Q, out.(*Outcome)
	if q.K == "chore" || q.K == "dump" {
		return q.K + " -> " + Q(string(o.Body))
	}
	b := string(o.Body)
	if len(b) > 300 {
		b = b[:300]
	}
	return fmt.Sprintf("%s -> %d %s", q.desc(), o.Code, b)
}

type linState map[string]*MTask

// LinModel is the sequential specification used to judge histories.
func LinModel(cfg *Cfg, tune func(*Model)) porcupine.Model {
	return porcupine.Model{
		Init: func() any { return linState{} },
		Step: func(st, in, out any) (bool, any) {
			ok, s, _ := LinStep(cfg, tune, st.(linState), in.(*LinIn), out.(*Outcome))
			return ok, s
		},
		Equal: func(a, b any) bool {
			x, y := a.(linState), b.(linState)
			if len(x) != len(y) {
				return false
			}
			m := Model{}
			for id, t := range x {
				u := y[id]
				if u == nil || t != u && m.Diff(t, u) != nil {
					return false
				}
			}
			return true
		},
		DescribeOperation: func(in, out any) string { return DescOp(in, out) },
	}
}

// LinStep applies one operation of a history to a state of the model.
func LinStep(cfg *Cfg, tune func(*Model), st linState, in *LinIn, out *Outcome) (bool, linState, *Div) {
	m := &Model{Tasks: CopyTasks(st), Retention: cfg.Retention, MaxLimit: cfg.MaxLimit, MaxOffset: cfg.MaxOffset, Nonces: map[string]bool{}, History: map[string][]string{}}
	if tune != nil {
		tune(m)
	}
	q := in.Q
	switch q.K {
	case "chore":
		if out.Code != 200 {
			return false, nil, nil
		}
		for id, c := range m.ChoreMaybe(in.Now) {
			if len(c) != 1 {
				panic("ambiguous maintenance in a concurrent history")
			}
			if c[0] == nil {
				delete(m.Tasks, id)
			} else {
				m.Tasks[id] = c[0]
			}
		}
		return true, m.Tasks, nil
	case "dump":
		got := out.JSON.(map[string]*MTask)
		if len(got) != len(m.Tasks) {
			return false, nil, nil
		}
		for id, t := range m.Tasks {
			if got[id] == nil || m.Diff(t, got[id]) != nil {
				return false, nil, nil
			}
		}
		return true, m.Tasks, nil
	}
	var full *Listing
	if strings.HasPrefix(q.K, "list") {
		full = m.observedListing(q, out)
	}
	d := m.Apply(q, out, in.Now, full)
	if d != nil {
		return false, nil, d
	}
	return true, m.Tasks, nil
}

// observedListing accepts any order of a complete listing.
func (m *Model) observedListing(q *Req, o *Outcome) *Listing {
	want := map[string]bool{}
	for id, t := range m.Tasks {
		switch {
		case q.K == "listTopics":
			want[t.Topic] = true
		case t.Topic == q.Topic && (q.K == "listTasks" || t.State == Active):
			want[id] = true
		}
	}
	var exp []string
	for k := range want {
		exp = append(exp, k)
	}
	sort.Strings(exp)
	mm, _ := o.JSON.(map[string]any)
	data, _ := mm["data"].([]any)
	var got []string
	for _, x := range data {
		xm, _ := x.(map[string]any)
		if q.K == "listTopics" {
			got = append(got, str(xm, "name"))
		} else {
			got = append(got, str(xm, "_id"))
		}
	}
	srt := append([]string{}, got...)
	sort.Strings(srt)
	if strings.Join(srt, "\x1f") == strings.Join(exp, "\x1f") {
		exp = got
	}
	return &Listing{Topics: exp, Tasks: map[string][]string{q.Topic: exp}, Proms: map[string][]string{q.Topic: exp}}
}

// Check searches for a sequential explanation of the history.
func (x *History) Check(cfg *Cfg, tune func(*Model), limit time.Duration) porcupine.CheckResult {
	r, _ := porcupine.CheckOperationsVerbose(LinModel(cfg, tune), x.Ops, limit)
	return r
}

// Explain prints what the sequential model says along the completion order.
func (x *History) Explain(cfg *Cfg, tune func(*Model)) {
	ops := append([]porcupine.Operation{}, x.Ops...)
	sort.Slice(ops, func(i, j int) bool { return ops[i].Return < ops[j].Return })
	st := linState{}
	for _, o := range ops {
		ok, s, d := LinStep(cfg, tune, st, o.Input.(*LinIn), o.Output.(*Outcome))
		fmt.Println(ok, DescOp(o.Input, o.Output))
		if !ok {
			fmt.Println("   REJECTED", d, J(st))
			continue
		}
		st = s
	}
}
