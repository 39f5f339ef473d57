package h

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
)

// Task states.
const (
	Pending = iota
	Active
	Completed
	Archived
)

// MTask is a task in the reference model.
type MTask struct {
	ID, Topic                               string
	State                                   int
	Nonce, Producer, Consumer               string
	Produced, Scheduled, Consumed, Deadline *time.Time
	Payload                                 any
}

// Clone copies the task (fields are never mutated in place).
func (t *MTask) Clone() *MTask { c := *t; return &c }

// Model is the executable specification of the store.
type Model struct {
	Tasks      map[string]*MTask
	Retention  time.Duration
	MaxLimit   int
	MaxOffset  int
	Gran       time.Duration       // resolution at which the store keeps instants (0: exact)
	Nonces     map[string]bool     // every token ever issued by a claim
	History    map[string][]string // tokens issued per task
	UnionOrder bool                // listings carry no order obligations
	BatchDup   bool
	AnyDue     bool // polling may return any task that is due
	Spurious   bool // claims and commits may give up with a conflict
}

// NewModel creates an empty model.
func NewModel() *Model {
	return &Model{Tasks: map[string]*MTask{}, Nonces: map[string]bool{}, History: map[string][]string{}, Retention: 72 * time.Hour, MaxLimit: 100, MaxOffset: 10000}
}

// CopyTasks copies the task map.
func CopyTasks(m map[string]*MTask) map[string]*MTask {
	o := make(map[string]*MTask, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

// Div is a divergence between the model and the observation.
type Div struct {
	Tags []string
	Sig  string
	Msg  string
}

func div(tags []string, sig, f string, a ...any) *Div {
	return &Div{Tags: tags, Sig: sig, Msg: fmt.Sprintf(f, a...)}
}

// BaseTags lists the properties an operation's direct effect belongs to.
var BaseTags = map[string][]string{
	"insTask": {"C10"}, "insTasks": {"C10"}, "upsTask": {"C10"}, "upsTasks": {"C10"},
	"delTask": {"C10"}, "delTasks": {"C10"}, "delTopic": {"C10"}, "delTopics": {"C10"},
	"getTask": {"C10"}, "getTopic": {"C13"}, "listTopics": {"C13"}, "listTasks": {"C13"},
	"listProms": {"C12", "C13"}, "getProm": {"C12"},
	"poll": {"C05"}, "claim": {"C12", "C01"}, "force": {"C12"}, "delProm": {"C12"}, "delProms": {"C12"},
	"commit": {"C11"}, "chore": {"C04", "C07"}, "restart": {"C08"}, "crash": {"C08"}, "checksnap": {"C08"}, "sleep": {"C04"},
}

func tags(k string, more ...string) []string {
	o := append([]string{}, BaseTags[k]...)
	for _, m := range more {
		if !Has(o, m) {
			o = append(o, m)
		}
	}
	return o
}

func str(m map[string]any, k string) string { s, _ := m[k].(string); return s }

func num(m map[string]any, k string) (int, bool) {
	f, ok := m[k].(float64)
	return int(f), ok
}

func tm(m map[string]any, k string) (*time.Time, error) {
	v, ok := m[k]
	if !ok || v == nil {
		return nil, nil
	}
	s, ok := v.(string)
	if !ok {
		return nil, fmt.Errorf("field %s is not a string", k)
	}
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		return nil, err
	}
	return &t, nil
}

// TaskFromJSON decodes a task as any client would.
func TaskFromJSON(v any) (*MTask, error) {
	m, ok := v.(map[string]any)
	if !ok {
		return nil, fmt.Errorf("not an object: %s", J(v))
	}
	t := &MTask{}
	for k, p := range map[string]*string{"_id": &t.ID, "topic": &t.Topic, "nonce": &t.Nonce, "producer": &t.Producer, "consumer": &t.Consumer} {
		if x, ok := m[k]; ok {
			s, ok := x.(string)
			if !ok {
				return nil, fmt.Errorf("field %s is not a string", k)
			}
			*p = s
		}
	}
	if x, ok := m["state"]; ok {
		f, ok := x.(float64)
		if !ok {
			return nil, fmt.Errorf("field state is not a number")
		}
		t.State = int(f)
	} else {
		return nil, fmt.Errorf("field state is missing")
	}
	for k, p := range map[string]**time.Time{"produced": &t.Produced, "scheduled": &t.Scheduled, "consumed": &t.Consumed, "deadline": &t.Deadline} {
		x, err := tm(m, k)
		if err != nil {
			return nil, err
		}
		*p = x
	}
	t.Payload = m["payload"]
	if d, ok := m["defer"]; ok && d != "" {
		return nil, fmt.Errorf("field defer is stored: %v", d)
	}
	return t, nil
}

func (m *Model) sameT(a, b *time.Time) bool {
	if a == nil || b == nil {
		return a == b
	}
	if m.Gran > 0 {
		return a.UnixMilli() == b.UnixMilli()
	}
	return a.Equal(*b)
}

// Diff lists the fields in which two tasks differ.
func (m *Model) Diff(want, got *MTask) []string {
	var d []string
	add := func(n string, same bool) {
		if !same {
			d = append(d, n)
		}
	}
	add("id", want.ID == got.ID)
	add("topic", want.Topic == got.Topic)
	add("state", want.State == got.State)
	add("nonce", want.Nonce == got.Nonce)
	add("producer", want.Producer == got.Producer)
	add("consumer", want.Consumer == got.Consumer)
	add("produced", m.sameT(want.Produced, got.Produced))
	add("scheduled", m.sameT(want.Scheduled, got.Scheduled))
	add("consumed", m.sameT(want.Consumed, got.Consumed))
	add("deadline", m.sameT(want.Deadline, got.Deadline))
	add("payload", reflect.DeepEqual(want.Payload, got.Payload))
	return d
}

// fieldTags maps differing fields to the further properties they contradict.
func fieldTags(k string, fields []string) []string {
	var o []string
	create := k == "insTask" || k == "insTasks" || k == "upsTask" || k == "upsTasks"
	for _, f := range fields {
		switch f {
		case "id":
			o = append(o, "C06")
		case "topic":
			o = append(o, "C06")
			if create {
				o = append(o, "C14")
			}
		case "nonce":
			o = append(o, "C03")
		case "state":
			switch k {
			case "poll", "claim", "force", "delProm", "delProms":
				o = append(o, "C01", "C12")
			}
			if create {
				o = append(o, "C14")
			}
		case "producer", "payload":
			o = append(o, "C26")
		case "consumer":
			o = append(o, "C26")
			if k == "poll" || k == "claim" || k == "force" {
				o = append(o, "C12")
			}
		case "produced", "scheduled", "consumed", "deadline":
			o = append(o, "C26")
			if create {
				o = append(o, "C14")
			}
			if k == "commit" {
				o = append(o, "C14")
			}
			if k == "poll" || k == "claim" || k == "force" {
				o = append(o, "C12", "C14")
			}
			if f == "scheduled" {
				o = append(o, "C05")
			}
			if f == "deadline" {
				o = append(o, "C04")
			}
		}
	}
	return o
}

// due reports whether the task may be handed out at now.
func due(t *MTask, now time.Time) bool { return t.Scheduled == nil || !t.Scheduled.After(now) }

func schedMS(t *MTask) int64 {
	if t.Scheduled == nil {
		return -1 << 62
	}
	return t.Scheduled.UnixMilli()
}

// PollChoices returns the IDs that may be returned by a poll, and whether
// "not found" is acceptable.
func (m *Model) PollChoices(topic string, now time.Time) (ids []string, none bool) {
	var min int64
	first := true
	for _, t := range m.Tasks {
		if t.Topic != topic || t.State != Pending {
			continue
		}
		if s := schedMS(t); first || s < min {
			min, first = s, false
		}
	}
	if first {
		return nil, true
	}
	for _, t := range m.Tasks {
		if t.Topic != topic || t.State != Pending || schedMS(t) != min && !(m.AnyDue && due(t, now)) {
			continue
		}
		if due(t, now) {
			ids = append(ids, t.ID)
		} else {
			none = true
		}
	}
	if m.Gran > 0 && min >= now.UnixMilli() {
		none = true
	}
	sort.Strings(ids)
	return ids, none
}

// normTask applies the documented defaults; err means it must be rejected.
func normTask(b map[string]any, pathID, pathTopic string, now time.Time) (*MTask, error) {
	t := &MTask{ID: str(b, "_id"), Topic: str(b, "topic"), Nonce: str(b, "nonce"), Producer: str(b, "producer"), Consumer: str(b, "consumer"), Payload: b["payload"]}
	if t.ID == "" {
		t.ID = pathID
	}
	if t.ID == "" {
		return nil, fmt.Errorf("missing ID")
	}
	if pathID != "" && t.ID != pathID {
		return nil, fmt.Errorf("ID mismatch")
	}
	if t.Topic == "" {
		t.Topic = pathTopic
	}
	if t.Topic == "" {
		return nil, fmt.Errorf("missing topic")
	}
	t.State, _ = num(b, "state")
	if t.State < Pending || t.State > Archived {
		return nil, fmt.Errorf("bad state")
	}
	var err error
	for k, p := range map[string]**time.Time{"produced": &t.Produced, "scheduled": &t.Scheduled, "consumed": &t.Consumed, "deadline": &t.Deadline} {
		if *p, err = tm(b, k); err != nil {
			return nil, err
		}
	}
	if t.Produced == nil {
		n := now
		t.Produced = &n
	}
	if t.Scheduled == nil {
		n := now
		if d := str(b, "defer"); d != "" {
			x, err := time.ParseDuration(d)
			if err != nil {
				return nil, err
			}
			n = now.Add(x)
		}
		t.Scheduled = &n
	}
	return t, nil
}

type mprom struct {
	ID, Consumer string
	Deadline     *time.Time
}

func normProm(q *Req, b map[string]any, now time.Time) (*mprom, error) {
	p := &mprom{ID: str(b, "_id"), Consumer: str(b, "consumer")}
	to := str(b, "timeout")
	dl, err := tm(b, "deadline")
	if err != nil {
		return nil, err
	}
	for k, v := range q.QProm {
		switch k {
		case "_id":
			p.ID = v
		case "consumer":
			p.Consumer = v
		case "timeout":
			to = v
		case "deadline":
			t, err := time.Parse(time.RFC3339Nano, v)
			if err != nil {
				return nil, err
			}
			dl = &t
		}
	}
	if q.ID != "" {
		if p.ID == "" {
			p.ID = q.ID
		}
		if p.ID != q.ID {
			return nil, fmt.Errorf("ID mismatch")
		}
	}
	if dl == nil {
		if to == "" {
			to = "10m"
		}
		d, err := time.ParseDuration(to)
		if err != nil {
			return nil, err
		}
		n := now.Add(d)
		dl = &n
	}
	p.Deadline = dl
	return p, nil
}

// TokenOK reports whether s is a well-formed claim token.
func TokenOK(s string) bool {
	if len(s) != 16 {
		return false
	}
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

func (o *Outcome) errShape() string {
	m, ok := o.JSON.(map[string]any)
	if !ok {
		return "error body is not a JSON object: " + Q(string(o.Body))
	}
	e, ok := m["error"].(map[string]any)
	if !ok {
		return "error body has no error object: " + Q(string(o.Body))
	}
	if c, ok := num(e, "code"); !ok || c != o.Code {
		return fmt.Sprintf("error code %v in the body differs from the status %d", e["code"], o.Code)
	}
	if s, ok := e["message"].(string); !ok || s == "" {
		return "error message is missing"
	}
	return ""
}

// expectErr checks an error response.
func (m *Model) expectErr(q *Req, o *Outcome, code int, why string, t []string) *Div {
	if o.Code != code {
		if o.Code >= 500 || o.Code < 0 {
			t = append(t, "C15")
		}
		return div(t, fmt.Sprintf("%s:status:%d->%d", q.K, code, o.Code), "%s must be answered with %d (%s), got %d %s%s", q.desc(), code, why, o.Code, Q(string(o.Body)), o.Panic)
	}
	if s := o.errShape(); s != "" {
		return div(tags(q.K, "C15", "C17"), q.K+":errshape", "%s: %s", q.desc(), s)
	}
	return nil
}

func (m *Model) expectOK(q *Req, o *Outcome, codes ...int) *Div {
	for _, c := range codes {
		if o.Code == c {
			return nil
		}
	}
	t := tags(q.K)
	if o.Code == 400 {
		t = tags(q.K, "C14")
	}
	if o.Code >= 500 || o.Code < 0 {
		t = tags(q.K, "C15")
	}
	switch {
	case q.K == "commit" && o.Code == 409:
		t = append(t, "C03")
	case o.Code == 404:
		t = append(t, "C04", "C06")
	}
	switch q.K {
	case "insTask", "insTasks", "upsTask", "upsTasks", "commit":
		t = append(t, "C26")
	}
	return div(t, fmt.Sprintf("%s:status:%v->%d", q.K, codes, o.Code), "%s must succeed with %v, got %d %s %s", q.desc(), codes, o.Code, Q(string(o.Body)), o.Panic)
}

func (q *Req) desc() string {
	b := ""
	if q.Body != nil {
		b = " body " + Q(string(q.Body))
		if len(q.Body) > 80 {
			b = " body " + string(q.Body[:min(len(q.Body), 400)])
		}
	}
	u := q.Path
	if q.Query != "" {
		u += "?" + q.Query
	}
	return q.Method + " " + u + b
}

func (m *Model) counts(q *Req, o *Outcome, a string, na int, b string, nb int) *Div {
	mm, ok := o.JSON.(map[string]any)
	if !ok {
		return div(tags(q.K, "C15"), q.K+":shape", "%s: body is not an object: %s", q.desc(), Q(string(o.Body)))
	}
	x, ok1 := num(mm, a)
	y, ok2 := 0, true
	if b != "" {
		y, ok2 = num(mm, b)
	}
	if !ok1 || !ok2 {
		return div(tags(q.K, "C15"), q.K+":shape", "%s: counts are missing: %s", q.desc(), Q(string(o.Body)))
	}
	if x != na || y != nb {
		return div(tags(q.K, "C06"), q.K+":count", "%s: reported %s, expected %s=%d %s=%d", q.desc(), Q(string(o.Body)), a, na, b, nb)
	}
	return nil
}

// claim applies a successful claim and checks the returned task.
func (m *Model) applyClaim(q *Req, o *Outcome, t *MTask, p *mprom, now time.Time) *Div {
	got, err := TaskFromJSON(o.JSON)
	if err != nil {
		return div(tags(q.K, "C15"), q.K+":shape", "%s: %v", q.desc(), err)
	}
	u := t.Clone()
	u.State = Active
	u.Consumer = p.Consumer
	n := now
	u.Consumed = &n
	u.Deadline = p.Deadline
	u.Nonce = got.Nonce
	if !TokenOK(got.Nonce) {
		return div(tags(q.K, "C03"), q.K+":token-form", "%s: claim token %q is not 16 alphanumeric characters", q.desc(), got.Nonce)
	}
	if m.Nonces[got.Nonce] {
		return div(tags(q.K, "C03"), q.K+":token-reused", "%s: claim token %q was issued before", q.desc(), got.Nonce)
	}
	m.Nonces[got.Nonce] = true
	m.History[t.ID] = append(m.History[t.ID], got.Nonce)
	if d := m.Diff(u, got); d != nil {
		return div(tags(q.K, fieldTags(q.K, d)...), q.K+":fields:"+Join(d), "%s: returned task differs in %v: got %s want %s", q.desc(), d, J(got), J(u))
	}
	m.Tasks[t.ID] = u
	return nil
}

func (m *Model) page(q *Req) (lim, off int, bad bool) {
	lim, ok1 := Atoi(q.Lim)
	off, ok2 := Atoi(q.Off)
	if !ok1 || !ok2 {
		return 0, 0, true
	}
	if lim == 0 {
		lim = min(10, m.MaxLimit)
	}
	if lim < 0 || off < 0 || lim > m.MaxLimit || off > m.MaxOffset {
		return 0, 0, true
	}
	return lim, off, false
}

// Listing is the store's complete listing, used to judge pages.
type Listing struct {
	Topics []string
	Tasks  map[string][]string // per topic, IDs in listing order
	Proms  map[string][]string
}

func window(v []string, off, lim int) []string {
	if off >= len(v) {
		return nil
	}
	return v[off : off+min(len(v)-off, lim)]
}

// Apply judges the outcome of a request and advances the model.
func (m *Model) Apply(q *Req, o *Outcome, now time.Time, full *Listing) *Div {
	if o.Panic != "" {
		return div(tags(q.K, "C15"), q.K+":panic", "%s: the server panicked: %s", q.desc(), o.Panic)
	}
	if q.Bad {
		return m.expectErr(q, o, 400, "malformed request", []string{"C14"})
	}
	var b map[string]any
	if q.Body != nil {
		var v any
		if err := json.Unmarshal(q.Body, &v); err != nil {
			panic(err)
		}
		b, _ = v.(map[string]any)
	}
	switch q.K {
	case "insTask", "upsTask":
		if q.Body == nil {
			return m.expectErr(q, o, 400, "missing body", []string{"C14"})
		}
		t, err := normTask(b, q.ID, q.Topic, now)
		if err != nil {
			return m.expectErr(q, o, 400, err.Error(), []string{"C14"})
		}
		old := m.Tasks[t.ID]
		if q.K == "insTask" && old != nil {
			return m.expectErr(q, o, 409, "the ID exists", tags(q.K))
		}
		c, u := 1, 0
		code := 201
		if old != nil {
			c, u, code = 0, 1, 200
		}
		if d := m.expectOK(q, o, code); d != nil {
			return d
		}
		if d := m.counts(q, o, "created", c, "updated", u); d != nil {
			return d
		}
		m.Tasks[t.ID] = t
	case "insTasks", "upsTasks":
		l, _ := b["data"].([]any)
		var ts []*MTask
		for _, x := range l {
			t, err := normTask(x.(map[string]any), "", q.Topic, now)
			if err != nil {
				return m.expectErr(q, o, 400, err.Error(), []string{"C14"})
			}
			ts = append(ts, t)
		}
		next := CopyTasks(m.Tasks)
		c, u := 0, 0
		for _, t := range ts {
			if next[t.ID] != nil {
				if q.K == "insTasks" {
					continue
				}
				u++
			} else {
				c++
			}
			next[t.ID] = t
		}
		code := 200
		if c > 0 {
			code = 201
		}
		if d := m.expectOK(q, o, code); d != nil {
			return d
		}
		if d := m.counts(q, o, "created", c, "updated", u); d != nil {
			return d
		}
		m.Tasks = next
	case "delTask", "delTasks", "delTopic", "delTopics":
		next := CopyTasks(m.Tasks)
		n := 0
		for id, t := range m.Tasks {
			if q.K == "delTopics" || q.K == "delTask" && id == q.ID || (q.K == "delTasks" || q.K == "delTopic") && t.Topic == q.Topic {
				delete(next, id)
				n++
			}
		}
		if d := m.expectOK(q, o, 200); d != nil {
			return d
		}
		if d := m.counts(q, o, "deleted", n, "", 0); d != nil {
			return d
		}
		m.Tasks = next
	case "getTask":
		t := m.Tasks[q.ID]
		if t == nil {
			return m.expectErr(q, o, 404, "no such task", tags(q.K, "C06"))
		}
		if d := m.expectOK(q, o, 200); d != nil {
			d.Tags = append(d.Tags, "C04", "C06")
			return d
		}
		got, err := TaskFromJSON(o.JSON)
		if err != nil {
			return div(tags(q.K, "C15"), q.K+":shape", "%s: %v", q.desc(), err)
		}
		if f := m.Diff(t, got); f != nil {
			return div(tags(q.K, fieldTags(q.K, f)...), q.K+":fields:"+Join(f), "%s: task differs in %v: got %s want %s", q.desc(), f, J(got), J(t))
		}
	case "commit":
		ns := Completed
		sched, err := tm(b, "scheduled")
		if err != nil {
			return m.expectErr(q, o, 400, "bad time", []string{"C14"})
		}
		if s, ok := num(b, "state"); ok {
			ns = s
		}
		if ns < Pending || ns > Archived {
			return m.expectErr(q, o, 400, "bad state", []string{"C14"})
		}
		if d := str(b, "defer"); d != "" && sched == nil {
			x, err := time.ParseDuration(d)
			if err != nil {
				return m.expectErr(q, o, 400, "bad delay", []string{"C14"})
			}
			n := now.Add(x)
			sched = &n
		}
		if m.Spurious && o.Code == 409 {
			return m.expectErr(q, o, 409, "gave up", tags(q.K, "C24"))
		}
		t := m.Tasks[q.ID]
		if t == nil {
			return m.expectErr(q, o, 404, "no such task", tags(q.K, "C06"))
		}
		if n := str(b, "nonce"); n != "" && n != t.Nonce {
			return m.expectErr(q, o, 409, "stale token", tags(q.K, "C03"))
		}
		if d := m.expectOK(q, o, 200); d != nil {
			return d
		}
		u := t.Clone()
		u.Nonce = ""
		u.State = ns
		if s := str(b, "topic"); s != "" {
			u.Topic = s
		}
		if sched != nil {
			u.Scheduled = sched
		}
		if b["payload"] != nil {
			u.Payload = b["payload"]
		}
		got, err := TaskFromJSON(o.JSON)
		if err != nil {
			return div(tags(q.K, "C15"), q.K+":shape", "%s: %v", q.desc(), err)
		}
		if f := m.Diff(u, got); f != nil {
			return div(tags(q.K, fieldTags(q.K, f)...), q.K+":fields:"+Join(f), "%s: returned task differs in %v: got %s want %s", q.desc(), f, J(got), J(u))
		}
		m.Tasks[t.ID] = u
	case "getTopic":
		n := 0
		for _, t := range m.Tasks {
			if t.Topic == q.Topic {
				n++
			}
		}
		if n == 0 {
			return m.expectErr(q, o, 404, "no tasks in the topic", tags(q.K, "C06"))
		}
		if d := m.expectOK(q, o, 200); d != nil {
			return d
		}
		mm, _ := o.JSON.(map[string]any)
		c, _ := num(mm, "count")
		if str(mm, "name") != q.Topic || c != n {
			return div(tags(q.K, "C06"), q.K+":count", "%s: got %s, want name %s count %d", q.desc(), Q(string(o.Body)), Q(q.Topic), n)
		}
	case "listTopics", "listTasks", "listProms":
		lim, off, bad := m.page(q)
		if bad {
			return m.expectErr(q, o, 400, "page out of range", []string{"C14", "C13"})
		}
		if d := m.expectOK(q, o, 200); d != nil {
			return d
		}
		mm, _ := o.JSON.(map[string]any)
		data, ok := mm["data"].([]any)
		if !ok {
			return div(tags(q.K, "C15"), q.K+":shape", "%s: data is not a list: %s", q.desc(), Q(string(o.Body)))
		}
		var want []string
		switch q.K {
		case "listTopics":
			want = full.Topics
		case "listTasks":
			want = full.Tasks[q.Topic]
		default:
			want = full.Proms[q.Topic]
		}
		want = window(want, off, lim)
		var got []string
		for _, x := range data {
			xm, _ := x.(map[string]any)
			if q.K == "listTopics" {
				got = append(got, str(xm, "name"))
				continue
			}
			id := str(xm, "_id")
			got = append(got, id)
			t := m.Tasks[id]
			if t == nil {
				return div(tags(q.K, "C06"), q.K+":ghost", "%s lists %s, which does not exist", q.desc(), Q(id))
			}
			if q.K == "listTasks" {
				g, err := TaskFromJSON(x)
				if err != nil {
					return div(tags(q.K, "C15"), q.K+":shape", "%s: %v", q.desc(), err)
				}
				if f := m.Diff(t, g); f != nil {
					return div(tags(q.K, fieldTags(q.K, f)...), q.K+":fields:"+Join(f), "%s: listed task differs in %v: got %s want %s", q.desc(), f, J(g), J(t))
				}
			} else if d := m.promDiff(q, t, xm); d != nil {
				return d
			}
		}
		if strings.Join(got, "\x1f") != strings.Join(want, "\x1f") {
			return div(tags(q.K), q.K+":page", "%s: page holds %s, want %s (limit %d offset %d of the full listing)", q.desc(), J(got), J(want), lim, off)
		}
	case "getProm":
		t := m.Tasks[q.ID]
		if t == nil || t.State != Active {
			return m.expectErr(q, o, 404, "no active task", tags(q.K, "C06"))
		}
		if d := m.expectOK(q, o, 200); d != nil {
			return d
		}
		mm, _ := o.JSON.(map[string]any)
		return m.promDiff(q, t, mm)
	case "poll", "claim", "force":
		p, err := normProm(q, b, now)
		if err != nil {
			return m.expectErr(q, o, 400, err.Error(), []string{"C14"})
		}
		if q.K == "poll" && p.ID == "" {
			return m.applyPoll(q, o, p, now)
		}
		if m.Spurious && q.K != "force" && o.Code == 409 {
			return m.expectErr(q, o, 409, "gave up", tags(q.K, "C24"))
		}
		t := m.Tasks[p.ID]
		if t == nil {
			return m.expectErr(q, o, 404, "no such task", tags(q.K, "C06"))
		}
		if q.K != "force" && t.State != Pending {
			return m.expectErr(q, o, 409, "the task is not pending", []string{"C12", "C01"})
		}
		if d := m.expectOK(q, o, 200); d != nil {
			d.Tags = append(d.Tags, "C12")
			return d
		}
		return m.applyClaim(q, o, t, p, now)
	case "delProm", "delProms":
		next := CopyTasks(m.Tasks)
		n := 0
		for id, t := range m.Tasks {
			if t.State == Active && (q.K == "delProm" && id == q.ID || q.K == "delProms" && t.Topic == q.Topic) {
				u := t.Clone()
				u.State, u.Nonce = Pending, ""
				next[id] = u
				n++
			}
		}
		if d := m.expectOK(q, o, 200); d != nil {
			return d
		}
		if d := m.counts(q, o, "deleted", n, "", 0); d != nil {
			return d
		}
		m.Tasks = next
	default:
		panic(q.K)
	}
	return nil
}

func (m *Model) promDiff(q *Req, t *MTask, g map[string]any) *Div {
	dl, err := tm(g, "deadline")
	if t.State != Active {
		return div(tags(q.K, "C12"), q.K+":inactive", "%s shows a promise for %s, which is not active", q.desc(), Q(t.ID))
	}
	if err != nil || str(g, "_id") != t.ID || str(g, "consumer") != t.Consumer || !m.sameT(dl, t.Deadline) {
		return div(tags(q.K, "C12"), q.K+":promise", "%s shows promise %s for task %s", q.desc(), J(g), J(t))
	}
	return nil
}

func (m *Model) applyPoll(q *Req, o *Outcome, p *mprom, now time.Time) *Div {
	ids, none := m.PollChoices(q.Topic, now)
	if o.Code == 404 {
		if none || len(ids) == 0 {
			return m.expectErr(q, o, 404, "", tags(q.K))
		}
		return div(tags(q.K, "C04"), "poll:starved", "%s: not found, although %s is pending and due", q.desc(), J(ids))
	}
	if d := m.expectOK(q, o, 200); d != nil {
		return d
	}
	got, err := TaskFromJSON(o.JSON)
	if err != nil {
		return div(tags(q.K, "C15"), q.K+":shape", "%s: %v", q.desc(), err)
	}
	t := m.Tasks[got.ID]
	switch {
	case t == nil:
		return div(tags(q.K, "C06"), "poll:ghost", "%s returned unknown task %s", q.desc(), J(got))
	case t.Topic != q.Topic:
		return div([]string{"C06", "C05"}, "poll:topic", "%s returned task %s of topic %s", q.desc(), Q(t.ID), Q(t.Topic))
	case t.State != Pending:
		return div([]string{"C01", "C05"}, "poll:owned", "%s returned task %s, which was in state %d", q.desc(), Q(t.ID), t.State)
	case !due(t, now):
		return div(tags(q.K), "poll:early", "%s returned task %s scheduled at %v before its time (now %v)", q.desc(), Q(t.ID), t.Scheduled, now)
	case !Has(ids, t.ID):
		return div(tags(q.K), "poll:order", "%s returned task %s scheduled at %v, earlier ones are pending: %s", q.desc(), Q(t.ID), t.Scheduled, J(ids))
	}
	return m.applyClaim(q, o, t, p, now)
}

// ChoreMaybe computes, per task, the acceptable results of a maintenance run:
// a nil entry in the list means deleted.
func (m *Model) ChoreMaybe(now time.Time) map[string][]*MTask {
	res := map[string][]*MTask{}
	for id, t := range m.Tasks {
		switch {
		case t.State == Active && t.Deadline != nil && !t.Deadline.After(now):
			u := t.Clone()
			u.State, u.Nonce = Pending, ""
			res[id] = []*MTask{u}
			if t.Deadline.UnixMilli() >= now.UnixMilli() {
				res[id] = append(res[id], t)
			}
		case t.State == Completed && t.Consumed != nil && !t.Consumed.Add(m.Retention).After(now):
			res[id] = []*MTask{nil}
			if t.Consumed.Add(m.Retention).UnixMilli() >= now.UnixMilli() {
				res[id] = append(res[id], t)
			}
		default:
			res[id] = []*MTask{t}
		}
	}
	return res
}
