package h

import (
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"
)

// Cfg is the configuration of one sequential case.
type Cfg struct {
	MaxLimit  int           `json:"max_limit"`
	MaxOffset int           `json:"max_offset"`
	Retention time.Duration `json:"retention"`
	Snapshot  bool          `json:"snapshot"`
	Interval  time.Duration `json:"interval"`
	Topics    []string      `json:"topics"`
	IDs       []string      `json:"ids"`
	DumpEvery int           `json:"dump_every"`
}

// Profile steers workload generation.
type Profile struct {
	Name     string
	Weights  []W
	Topics   int // number of topic names
	IDs      int // number of IDs
	Ops      int // operations per history
	Plain    float64
	Prefill  int
	Snapshot float64
	Payload  int // payload depth
	BadFrac  float64
	MS       bool // whole milliseconds only
	NoState  bool // no explicit states/claim fields in created tasks
	SameTime float64
	Gate     func(r *rand.Rand, c *Cfg)
	NoWeird  bool // restrict names to what the client library can address
	Dump     int
	Bulk     float64 // fraction of histories over many tasks
	BulkMax  int     // limit of the number of tasks
	Huge     float64 // fraction of histories with a large payload
}

// StdWeights is a balanced mix of all operations.
func StdWeights(over map[string]int) []W {
	def := []W{{"insTask", 10}, {"insTasks", 6}, {"upsTask", 5}, {"upsTasks", 4}, {"delTask", 2}, {"delTasks", 1}, {"delTopic", 1}, {"delTopics", 1},
		{"getTask", 4}, {"getTopic", 3}, {"listTopics", 3}, {"listTasks", 4}, {"listProms", 3}, {"getProm", 3}, {"poll", 14}, {"claim", 5}, {"force", 3},
		{"delProm", 2}, {"delProms", 1}, {"commit", 12}, {"chore", 6}, {"sleep", 8}, {"restart", 0}, {"crash", 0}, {"checksnap", 0}}
	for i := range def {
		if n, ok := over[def[i].K]; ok {
			def[i].N = n
		}
	}
	return def
}

type seqGen struct {
	r *rand.Rand
	p *Profile
	c *Cfg
}

// GenCase generates a configuration and a history.
func GenCase(r *rand.Rand, p *Profile) (*Cfg, []*Op) {
	c := &Cfg{MaxLimit: Pick(r, []int{100, 100, 100, 1, 2, 3, 10, 11, math.MaxInt}), MaxOffset: Pick(r, []int{10000, 10000, 0, 1, 5, math.MaxInt}), Retention: Pick(r, []time.Duration{72 * time.Hour, time.Second, time.Minute, 0, time.Millisecond, 5 * time.Second}), DumpEvery: 1}
	c.Interval = Pick(r, []time.Duration{0, time.Second, 5 * time.Second, time.Minute, 5 * time.Minute})
	c.Snapshot = r.Float64() < p.Snapshot
	plain := r.Float64() < p.Plain
	c.Topics = Names(r, 1+r.IntN(p.Topics), plain)
	c.IDs = Names(r, 1+r.IntN(p.IDs), plain)
	if p.Dump > 0 {
		c.DumpEvery = p.Dump
	}
	if p.Gate != nil {
		p.Gate(r, c)
	}
	g := &seqGen{r, p, c}
	if x := r.Float64(); x < p.Bulk {
		return c, g.genBulk()
	} else if x < p.Bulk+p.Huge {
		return c, g.genHuge()
	}
	var ops []*Op
	if p.Prefill > 0 {
		n := r.IntN(p.Prefill + 1)
		for len(ops) < n {
			ops = append(ops, g.op("insTasks"))
		}
	}
	for i := 0; i < p.Ops; i++ {
		k := PickW(r, p.Weights)
		ops = append(ops, g.op(k))
		if k == "sleep" && r.IntN(2) == 0 {
			ops = append(ops, g.op("chore"))
		}
	}
	return c, ops
}

func (g *seqGen) topic() string { return Pick(g.r, g.c.Topics) }
func (g *seqGen) id() string    { return Pick(g.r, g.c.IDs) }
func sp(s string) *string       { return &s }
func ip(i int) *int             { return &i }

func (g *seqGen) ts() *TS {
	t := GenTS(g.r)
	if g.p.MS && t.Rel {
		t.Ns = t.Ns / 1_000_000 * 1_000_000
	}
	if g.p.SameTime > 0 && g.r.Float64() < g.p.SameTime {
		t = &TS{Rel: false, Abs: Pick(g.r, []string{"1999-12-31T23:59:58Z", "2000-01-01T00:00:05Z", "1999-12-31T23:59:58.001Z", "1999-12-31T23:59:58+00:00"})}
	}
	return t
}

// future-ish deadline: around now, so that maintenance has something to decide
func (g *seqGen) deadline() *TS {
	if g.r.IntN(4) == 0 {
		return g.ts()
	}
	return &TS{Rel: true, Ns: (g.r.Int64N(12_000) - 4_000) * 1_000_000, Zone: Pick(g.r, zones)}
}

func (g *seqGen) task(id, pathTopic string, inBatch bool) *TaskSpec {
	r := g.r
	t := &TaskSpec{}
	if inBatch || r.IntN(2) == 0 {
		t.ID = sp(id)
	}
	if pathTopic == "" || r.IntN(2) == 0 {
		t.Topic = sp(g.topic())
	}
	if !g.p.NoState && r.IntN(4) == 0 {
		t.State = ip(r.IntN(4))
	}
	if !g.p.NoState && r.IntN(6) == 0 {
		t.Nonce = sp(Pick(r, []string{"n", "0123456789abcdef", "ZZZZZZZZZZZZZZZZ"}))
	}
	if r.IntN(2) == 0 {
		t.Producer = sp(Pick(r, []string{"p1", "p2", AnyString(r)}))
	}
	if !g.p.NoState && r.IntN(6) == 0 {
		t.Consumer = sp(Pick(r, []string{"c1", AnyString(r)}))
	}
	if r.IntN(5) == 0 {
		t.Produced = g.ts()
	}
	if r.IntN(5) < 3 {
		t.Scheduled = g.ts()
	}
	if !g.p.NoState && r.IntN(4) == 0 {
		t.Consumed = g.ts()
	}
	if !g.p.NoState && r.IntN(4) == 0 {
		t.Deadline = g.deadline()
	}
	if r.IntN(2) == 0 {
		t.HasPayload = true
		t.Payload = JSONValue(r, g.p.Payload)
		if g.p.Payload >= 3 && r.IntN(20) == 0 {
			t.Payload = Deep(r, 1+r.IntN(60))
		}
	}
	if r.IntN(5) == 0 {
		t.Defer = sp(Pick(r, goodDurations))
	}
	return t
}

// spoil makes a task specification semantically invalid.
func (g *seqGen) spoil(t *TaskSpec, pathID string, pathTopic *string) {
	switch g.r.IntN(4) {
	case 0:
		t.State = ip(Pick(g.r, []int{-1, 4, 9, 127, 255, -2147483648, 2147483647, 256, 65536}))
	case 1:
		t.Scheduled = nil
		t.Defer = sp(Pick(g.r, badDurations))
	case 2:
		if pathID != "" {
			t.ID = sp(pathID + "x")
		} else {
			t.ID = Pick(g.r, []*string{nil, sp("")})
		}
	default:
		*pathTopic = ""
		t.Topic = Pick(g.r, []*string{nil, sp("")})
	}
}

// Malformed request bodies per kind of resource; every one must be rejected.
func (g *seqGen) malformed(kind string) *string {
	r := g.r
	common := []string{"{", "nul", "{\"", "[", "\"", "{\"payload\":}", "{'a':1}", "[]", "1", "\"x\"", "true", "{\"state\":\"x\"}", "{\"state\":1.5}", "{\"state\":99999999999}", "{\"state\":true}", "{\"topic\":1}", "{\"topic\":{}}", "{\"scheduled\":\"yesterday\"}", "{\"scheduled\":0}", "{\"scheduled\":\"2000-01-01\"}", "{\"scheduled\":\"2000-13-01T00:00:00Z\"}", "{\"scheduled\":\"2000-01-01T00:00:00+24:00\"}", "{\"defer\":5}", "{\"nonce\":1}", "{\"nonce\":[]}", "{\"nonce\":{}}", "\x00", "}", ",", "{\"a\":1,}", "{\"a\" 1}"}
	switch kind {
	case "task":
		common = append(common, "", "{\"_id\":1}", "{\"produced\":1}", "{\"consumed\":\"\"}", "{\"deadline\":\"x\"}", "{\"producer\":0}", "{\"_id\":null,\"topic\":[]}")
	case "tasks":
		common = []string{"", "{", "[", "{\"data\":1}", "{\"data\":{}}", "{\"data\":\"x\"}", "{\"data\":[1]}", "{\"data\":[\"a\"]}", "{\"data\":[[]]}", "{\"data\":[null]}", "{\"data\":[{\"_id\":\"ok\",\"topic\":\"t\"},null]}", "{\"data\":[{\"_id\":\"ok\",\"topic\":\"t\"},{\"_id\":5}]}", "{\"data\":[{\"_id\":\"ok\",\"topic\":\"t\"},{\"topic\":\"t\"}]}", "{\"data\":[{\"_id\":\"ok\",\"topic\":\"t\"}", "[]", "1", "\"data\"", "{\"data\":[{\"_id\":\"ok\",\"topic\":\"t\",\"state\":4}]}", "{\"data\":[{\"_id\":\"ok\",\"topic\":\"t\",\"defer\":\"x\"}]}"}
	case "promise":
		common = []string{"{", "[", "[]", "1", "\"x\"", "{\"_id\":1}", "{\"consumer\":1}", "{\"deadline\":\"soon\"}", "{\"deadline\":\"2000-01-01T00:00:00-24:00\"}", "{\"deadline\":5}", "{\"timeout\":5}", "{\"timeout\":\"soon\"}", "{\"timeout\":\"10\"}", "{\"timeout\":{}}", "{\"consumer\":\"c\"", "nul"}
	}
	return sp(Pick(r, common))
}

func (g *seqGen) prom(id string) *PromSpec {
	r := g.r
	p := &PromSpec{}
	if id != "" && r.IntN(2) == 0 {
		p.ID = sp(id)
	}
	if r.IntN(4) > 0 {
		p.Consumer = sp(Pick(r, []string{"c1", "c2", "consumer é", AnyString(r)}))
	}
	if r.IntN(3) == 0 {
		p.Deadline = g.deadline()
	}
	if r.IntN(2) == 0 {
		p.Timeout = sp(Pick(r, goodDurations))
	}
	switch r.IntN(4) {
	case 0:
		p.InQuery = true
		p.NoBody = r.IntN(2) == 0
		// Empty values in query strings are not addressed here.
		if p.Consumer != nil && *p.Consumer == "" {
			p.Consumer = nil
		}
	}
	return p
}

func (g *seqGen) pagestr(max int) *string {
	r := g.r
	switch r.IntN(8) {
	case 0:
		return nil
	case 1:
		return sp(strconv.Itoa(Pick(r, []int{0, -1, max, max + 1, max - 1, -2147483648})))
	case 2:
		if r.Float64() < g.p.BadFrac {
			return sp(Pick(r, []string{"foo", "1.5", "99999999999999999999", "1e3", "0x1", " ", "-", "1;2", "null", "true", "１"}))
		}
	}
	return sp(strconv.Itoa(r.IntN(min(max, 12) + 1)))
}

func (g *seqGen) op(k string) *Op {
	r := g.r
	o := &Op{K: k, Bare: r.IntN(3) == 0, Enc: r.IntN(3)}
	bad := r.Float64() < g.p.BadFrac
	switch k {
	case "insTask", "upsTask":
		o.ID = g.id()
		o.T = g.topic()
		if r.IntN(3) == 0 {
			o.T = ""
		}
		o.Task = g.task(o.ID, o.T, false)
		if bad {
			if r.IntN(2) == 0 {
				o.Raw = g.malformed("task")
			} else {
				g.spoil(o.Task, o.ID, &o.T)
			}
		}
	case "insTasks", "upsTasks":
		o.T = g.topic()
		if r.IntN(3) == 0 {
			o.T = ""
		}
		n := r.IntN(7)
		if r.IntN(10) == 0 {
			n = r.IntN(30)
		}
		o.Tasks = []*TaskSpec{}
		for i := 0; i < n; i++ {
			o.Tasks = append(o.Tasks, g.task(g.id(), o.T, true))
		}
		if n == 0 && r.IntN(2) == 0 {
			o.Tasks = nil
		}
		if bad {
			if r.IntN(2) == 0 || n == 0 {
				o.Raw = g.malformed("tasks")
			} else {
				g.spoil(o.Tasks[r.IntN(n)], "", &o.T)
			}
		}
	case "delTask", "getTask", "getProm", "delProm":
		o.ID = g.id()
		o.T = Pick(r, []string{"", g.topic(), g.topic()})
	case "delTasks", "delTopic", "getTopic", "delProms":
		o.T = g.topic()
	case "listTopics", "listTasks", "listProms":
		if k != "listTopics" {
			o.T = g.topic()
		}
		o.Lim, o.Off = g.pagestr(g.c.MaxLimit), g.pagestr(min(g.c.MaxOffset, 10))
		if r.IntN(2) == 0 {
			o.Off = sp("0")
		}
		if r.IntN(3) == 0 {
			o.Lim = sp(strconv.Itoa(g.c.MaxLimit))
		}
	case "poll":
		o.T = g.topic()
		o.Prom = g.prom("")
		if r.IntN(12) == 0 {
			o.Prom.ID = sp(g.id())
		}
		if r.IntN(6) == 0 {
			o.Prom = nil
		}
		if bad {
			g.badProm(o, "")
		}
	case "claim", "force":
		o.ID = g.id()
		o.T = Pick(r, []string{"", g.topic()})
		o.Prom = g.prom(o.ID)
		if r.IntN(6) == 0 {
			o.Prom = nil
		}
		if bad {
			g.badProm(o, o.ID)
		}
	case "commit":
		o.ID = g.id()
		o.T = Pick(r, []string{"", g.topic()})
		c := &CommitSpec{}
		switch x := r.IntN(10); {
		case x < 4:
			c.Nonce = &NonceRef{Kind: "cur", ID: o.ID}
		case x < 6:
			c.Nonce = &NonceRef{Kind: "stale", ID: o.ID, N: 1 + r.IntN(3)}
		case x == 6:
			c.Nonce = &NonceRef{Kind: "cur", ID: g.id()}
		case x == 7:
			c.Nonce = &NonceRef{Kind: "mut", ID: o.ID, N: r.IntN(6)}
		}
		if r.IntN(4) == 0 {
			c.Topic = sp(Pick(r, []string{g.topic(), g.topic(), ""}))
		}
		if r.IntN(3) > 0 {
			c.State = ip(r.IntN(4))
		}
		if r.IntN(4) == 0 {
			c.Scheduled = g.ts()
		}
		if r.IntN(3) == 0 {
			c.HasPayload, c.Payload = true, JSONValue(r, g.p.Payload)
		}
		if r.IntN(4) == 0 {
			c.Defer = sp(Pick(r, goodDurations))
		}
		if r.IntN(8) == 0 {
			c = &CommitSpec{NoBody: true}
		}
		o.Commit = c
		if bad {
			switch r.IntN(3) {
			case 0:
				o.Raw = g.malformed("commit")
			case 1:
				c.NoBody, c.Scheduled = false, nil
				c.Defer = sp(Pick(r, badDurations))
			default:
				c.NoBody = false
				c.State = ip(Pick(r, []int{-1, 4, 5, 255, 256, -2147483648, 2147483647}))
			}
		}
	case "sleep":
		o.D = int64(Pick(r, []time.Duration{0, time.Nanosecond, time.Millisecond, time.Second, time.Second, 5 * time.Second, 10 * time.Second, time.Minute, 10 * time.Minute, time.Hour, 72 * time.Hour, time.Duration(r.Int64N(20000)) * time.Millisecond}))
	case "checksnap":
	}
	return o
}

func (g *seqGen) badProm(o *Op, id string) {
	r := g.r
	if o.Prom == nil {
		o.Prom = &PromSpec{}
	}
	switch r.IntN(4) {
	case 0:
		o.Raw = g.malformed("promise")
		o.Prom = nil
	case 1:
		o.Prom.Deadline = nil
		o.Prom.Timeout = sp(Pick(r, badDurations))
	case 2:
		if id != "" {
			o.Prom.ID = sp(id + Pick(r, []string{"x", " ", "\x00"}))
		} else {
			o.BadQ = Pick(r, []string{"deadline=soon", "deadline=1", "deadline=2000-01-01", "timeout=soon", "timeout=5"})
			o.Prom = &PromSpec{NoBody: true, InQuery: true}
		}
	default:
		o.BadQ = "deadline=" + Pick(r, []string{"x", "0", "2000-01-01T00:00:00", "tomorrow"})
		if o.Prom != nil {
			o.Prom = &PromSpec{}
		}
	}
}

// OpsString renders a history compactly.
func OpsString(ops []*Op) string {
	var s []string
	for _, o := range ops {
		s = append(s, J(o))
	}
	return strings.Join(s, "\n")
}
