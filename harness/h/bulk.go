package h

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"
)

// bulkSize picks a number of tasks around and beyond sizes at which
// implementations tend to split, cap or page.
func (g *seqGen) bulkSize() int {
	r := g.r
	m := g.p.BulkMax
	if m == 0 {
		m = 2600
	}
	n := 0
	switch r.IntN(10) {
	case 0, 1, 2, 3:
		n = 20 + r.IntN(240)
	case 4, 5, 6:
		n = Pick(r, []int{64, 100, 101, 128, 200, 256, 257, 300, 500, 512, 513}) + r.IntN(3)
	case 7, 8:
		n = 300 + r.IntN(900)
	default:
		n = Pick(r, []int{1000, 1024, 1025, 2000, 2048, 2500}) + r.IntN(3)
	}
	if n > m {
		n = 20 + r.IntN(m-19)
	}
	return n
}

// bulkTask is a small task in one of the states that mass operations act on.
func (g *seqGen) bulkTask(id string, style int) *TaskSpec {
	r := g.r
	t := &TaskSpec{ID: sp(id), Topic: sp(g.topic())}
	s := style
	if s == 4 {
		s = r.IntN(4)
	}
	if g.p.NoState {
		s = 0
	}
	t.Scheduled = &TS{Rel: true, Ns: (r.Int64N(8000) - 6000) * 1_000_000}
	switch s {
	case Active:
		t.State, t.Nonce = ip(Active), sp(fmt.Sprintf("%016d", r.Uint64N(1e16)))
		t.Consumed = &TS{Rel: true, Ns: -r.Int64N(5000) * 1_000_000}
		t.Deadline = &TS{Rel: true, Ns: (r.Int64N(8000) - 4000) * 1_000_000}
	case Completed:
		t.State = ip(Completed)
		t.Consumed = &TS{Rel: true, Ns: -r.Int64N(8000) * 1_000_000}
	case Archived:
		t.State = ip(Archived)
	}
	if r.IntN(4) == 0 {
		t.HasPayload, t.Payload = true, float64(r.IntN(1000))
	}
	return t
}

// genBulk generates a history over many tasks.
func (g *seqGen) genBulk() []*Op {
	r := g.r
	n := g.bulkSize()
	pre := Pick(r, []string{"n", "task-", "日", "a/", "0"})
	name := func(i int) string { return pre + strconv.Itoa(i) }
	g.c.MaxLimit = Pick(r, []int{10, 100, 1000, 5000})
	g.c.MaxOffset = 10000
	style := r.IntN(5)
	batch := func(k string, a, b int) *Op {
		o := &Op{K: k, T: g.topic(), Bare: r.IntN(2) == 0}
		o.Tasks = []*TaskSpec{}
		for i := a; i < b; i++ {
			o.Tasks = append(o.Tasks, g.bulkTask(name(i), style))
		}
		return o
	}
	var ops []*Op
	first := Pick(r, []string{"insTasks", "upsTasks"})
	if r.IntN(3) == 0 {
		m := r.IntN(n)
		ops = append(ops, batch(first, 0, m), batch(first, m, n))
	} else {
		ops = append(ops, batch(first, 0, n))
	}
	for len(g.c.IDs) < 12 {
		g.c.IDs = append(g.c.IDs, name(r.IntN(n)))
	}
	g.c.IDs = append(g.c.IDs, name(0), name(n-1), name(n))
	for i, m := 0, 6+r.IntN(8); i < m; i++ {
		switch r.IntN(14) {
		case 0:
			ops = append(ops, batch(Pick(r, []string{"insTasks", "upsTasks"}), r.IntN(n), n+r.IntN(n)))
		case 1:
			// A batch of which one element is invalid.
			o := batch(Pick(r, []string{"insTasks", "upsTasks"}), n, 2*n)
			x := o.Tasks[Pick(r, []int{len(o.Tasks) - 1, r.IntN(len(o.Tasks))})]
			if g.p.BadFrac == 0 || r.IntN(2) == 0 {
				x.State = ip(4 + r.IntN(5))
			} else {
				x.ID = sp("")
			}
			ops = append(ops, o)
		case 2:
			for k := 5 + r.IntN(30); k > 0; k-- {
				ops = append(ops, g.op("poll"))
			}
		case 3, 4:
			ops = append(ops, g.op("sleep"), g.op("chore"))
		case 5:
			for o, k := 0, Pick(r, []string{"listTasks", "listProms", "listTasks"}); o < n && len(ops) < 120; {
				l := 1 + r.IntN(g.c.MaxLimit)
				ops = append(ops, &Op{K: k, T: g.c.Topics[0], Lim: sp(strconv.Itoa(l)), Off: sp(strconv.Itoa(o))})
				o += max(l, n/5)
			}
		case 6:
			ops = append(ops, &Op{K: "listTopics", Lim: sp(strconv.Itoa(g.c.MaxLimit)), Off: sp("0")}, g.op("getTopic"))
		case 7:
			ops = append(ops, g.op(Pick(r, []string{"delProms", "delProms", "delTasks", "delTopic"})))
		case 8:
			if g.c.Snapshot {
				ops = append(ops, g.op("restart"))
			}
		default:
			o := g.op(PickW(r, g.p.Weights))
			ops = append(ops, o)
		}
	}
	return append(ops, &Op{K: "sleep", D: int64(6 * time.Second)}, &Op{K: "chore"})
}

// Huge is a JSON value of a few mebibytes.
func Huge(r *rand.Rand, mib int) any {
	n := mib<<20 + r.IntN(1<<20)
	switch r.IntN(4) {
	case 0:
		return strings.Repeat("x", n)
	case 1:
		return map[string]any{"k": strings.Repeat("é", n/2), "l": []any{nil, false, 0.0, ""}}
	case 2:
		l := make([]any, n/200)
		for i := range l {
			l[i] = strings.Repeat(string(rune('a'+i%26)), 190)
		}
		return l
	default:
		var sb strings.Builder
		for sb.Len() < n {
			sb.WriteString(strconv.FormatUint(r.Uint64(), 36))
		}
		return sb.String()
	}
}

// genHuge generates a short history in which one payload is large.
func (g *seqGen) genHuge() []*Op {
	r := g.r
	id := g.id()
	t := g.task(id, "", true)
	mib := r.IntN(4)
	if r.IntN(10) == 0 {
		mib = 10 + r.IntN(30)
	}
	v := Huge(r, mib)
	var ops []*Op
	for i := r.IntN(3); i > 0; i-- {
		ops = append(ops, g.op(PickW(r, g.p.Weights)))
	}
	switch r.IntN(4) {
	case 0:
		ops = append(ops, &Op{K: "upsTask", ID: id, T: "", Task: t}, &Op{K: "commit", ID: id, Commit: &CommitSpec{HasPayload: true, Payload: v}})
	case 1:
		t.HasPayload, t.Payload = true, v
		ops = append(ops, &Op{K: Pick(r, []string{"insTasks", "upsTasks"}), T: "", Tasks: []*TaskSpec{g.task(id+"0", "", true), t}})
	default:
		t.HasPayload, t.Payload = true, v
		ops = append(ops, &Op{K: Pick(r, []string{"insTask", "upsTask", "upsTask"}), ID: id, T: "", Task: t})
	}
	ops = append(ops, &Op{K: "getTask", ID: id}, &Op{K: "force", ID: id, Prom: g.prom(id)}, &Op{K: "listTasks", T: *t.Topic})
	if g.c.Snapshot {
		ops = append(ops, g.op("restart"))
	}
	for i := 2 + r.IntN(4); i > 0; i-- {
		ops = append(ops, g.op(PickW(r, g.p.Weights)))
	}
	return ops
}
