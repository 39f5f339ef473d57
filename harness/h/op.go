package h

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strconv"
	"strings"
	"time"
)

// TaskSpec describes a task in a request body.
type TaskSpec struct {
	ID         *string `json:"id,omitempty"`
	Topic      *string `json:"topic,omitempty"`
	State      *int    `json:"state,omitempty"`
	Nonce      *string `json:"nonce,omitempty"`
	Producer   *string `json:"producer,omitempty"`
	Consumer   *string `json:"consumer,omitempty"`
	Produced   *TS     `json:"produced,omitempty"`
	Scheduled  *TS     `json:"scheduled,omitempty"`
	Consumed   *TS     `json:"consumed,omitempty"`
	Deadline   *TS     `json:"deadline,omitempty"`
	HasPayload bool    `json:"has_payload,omitempty"`
	Payload    any     `json:"payload,omitempty"`
	Defer      *string `json:"defer,omitempty"`
}

// PromSpec describes a promise.
type PromSpec struct {
	ID       *string `json:"id,omitempty"`
	Consumer *string `json:"consumer,omitempty"`
	Deadline *TS     `json:"deadline,omitempty"`
	Timeout  *string `json:"timeout,omitempty"`
	InQuery  bool    `json:"in_query,omitempty"`
	NoBody   bool    `json:"no_body,omitempty"`
}

// NonceRef names a claim token symbolically.
type NonceRef struct {
	Kind string `json:"kind"` // cur, stale, lit, other
	ID   string `json:"id,omitempty"`
	N    int    `json:"n,omitempty"`
	Lit  string `json:"lit,omitempty"`
}

// CommitSpec describes a commit.
type CommitSpec struct {
	Nonce      *NonceRef `json:"nonce,omitempty"`
	Topic      *string   `json:"topic,omitempty"`
	State      *int      `json:"state,omitempty"`
	Scheduled  *TS       `json:"scheduled,omitempty"`
	HasPayload bool      `json:"has_payload,omitempty"`
	Payload    any       `json:"payload,omitempty"`
	Defer      *string   `json:"defer,omitempty"`
	NoBody     bool      `json:"no_body,omitempty"`
}

// Op is one symbolic operation of a history.
type Op struct {
	K      string      `json:"k"`
	T      string      `json:"t,omitempty"`
	ID     string      `json:"id,omitempty"`
	Task   *TaskSpec   `json:"task,omitempty"`
	Tasks  []*TaskSpec `json:"tasks,omitempty"`
	Prom   *PromSpec   `json:"prom,omitempty"`
	Commit *CommitSpec `json:"commit,omitempty"`
	Raw    *string     `json:"raw,omitempty"` // malformed body: must be rejected
	Lim    *string     `json:"lim,omitempty"`
	Off    *string     `json:"off,omitempty"`
	BadQ   string      `json:"badq,omitempty"` // malformed query: must be rejected
	D      int64       `json:"d,omitempty"`
	Bare   bool        `json:"bare,omitempty"` // without the /v1 prefix
	Enc    int         `json:"enc,omitempty"`  // path encoding variant
	Var    int         `json:"var,omitempty"`  // driver-specific variant
}

// Req is a resolved operation.
type Req struct {
	K            string
	Method, Path string // raw path, without query
	Topic, ID    string
	Query        string
	Body         []byte // nil: no body
	Bad          bool   // syntactically malformed: must be rejected
	Lim, Off     *string
	Op           *Op
	QProm        map[string]string // promise fields in the query
}

func set(m map[string]any, k string, p *string) {
	if p != nil {
		m[k] = *p
	}
}

// Map renders the specification as a JSON object.
func (s *TaskSpec) Map(now time.Time) map[string]any {
	m := map[string]any{}
	set(m, "_id", s.ID)
	set(m, "topic", s.Topic)
	if s.State != nil {
		m["state"] = *s.State
	}
	set(m, "nonce", s.Nonce)
	set(m, "producer", s.Producer)
	set(m, "consumer", s.Consumer)
	for k, t := range map[string]*TS{"produced": s.Produced, "scheduled": s.Scheduled, "consumed": s.Consumed, "deadline": s.Deadline} {
		if t != nil {
			m[k] = t.Resolve(now)
		}
	}
	if s.HasPayload {
		m["payload"] = s.Payload
	}
	set(m, "defer", s.Defer)
	return m
}

// Escape encodes a path segment in one of several equivalent ways.
func Escape(s string, enc int) string {
	switch enc {
	case 1: // everything percent-encoded
		var sb strings.Builder
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&sb, "%%%02X", s[i])
		}
		return sb.String()
	case 2: // lower-case hexadecimal digits
		var sb strings.Builder
		for i := 0; i < len(s); i++ {
			c := s[i]
			if c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c == '-' || c == '_' || c == '~' {
				sb.WriteByte(c)
			} else {
				fmt.Fprintf(&sb, "%%%02x", c)
			}
		}
		return sb.String()
	default:
		return url.PathEscape(s)
	}
}

// Routes maps operation kinds to methods and path templates.
var Routes = map[string][2]string{
	"listTopics": {"GET", "/topics"}, "delTopics": {"DELETE", "/topics"},
	"getTopic": {"GET", "/topics/:t"}, "delTopic": {"DELETE", "/topics/:t"},
	"listTasks": {"GET", "/topics/:t/tasks"}, "insTasks": {"POST", "/topics/:t/tasks"}, "upsTasks": {"PUT", "/topics/:t/tasks"}, "delTasks": {"DELETE", "/topics/:t/tasks"},
	"getTask": {"GET", "/topics/:t/tasks/:id"}, "insTask": {"POST", "/topics/:t/tasks/:id"}, "upsTask": {"PUT", "/topics/:t/tasks/:id"}, "delTask": {"DELETE", "/topics/:t/tasks/:id"}, "commit": {"PATCH", "/topics/:t/tasks/:id"},
	"listProms": {"GET", "/topics/:t/promises"}, "poll": {"POST", "/topics/:t/promises"}, "delProms": {"DELETE", "/topics/:t/promises"},
	"getProm": {"GET", "/topics/:t/promises/:id"}, "claim": {"POST", "/topics/:t/promises/:id"}, "force": {"PUT", "/topics/:t/promises/:id"}, "delProm": {"DELETE", "/topics/:t/promises/:id"},
}

// IsAPI reports whether the operation is an HTTP request.
func (o *Op) IsAPI() bool { _, ok := Routes[o.K]; return ok }

// Resolve renders the operation against the current moment and tokens.
func (o *Op) Resolve(now time.Time, nonce func(*NonceRef) string) *Req {
	q := &Req{K: o.K, Topic: o.T, ID: o.ID, Op: o, Lim: o.Lim, Off: o.Off}
	rt, ok := Routes[o.K]
	if !ok {
		return q
	}
	q.Method = rt[0]
	p := strings.ReplaceAll(rt[1], ":id", "\x00I")
	p = strings.ReplaceAll(p, ":t", "\x00T")
	p = strings.ReplaceAll(p, "\x00I", Escape(o.ID, o.Enc))
	p = strings.ReplaceAll(p, "\x00T", Escape(o.T, o.Enc))
	if !o.Bare {
		p = "/v1" + p
	}
	q.Path = p
	vals := url.Values{}
	if o.Lim != nil {
		vals.Set("limit", *o.Lim)
	}
	if o.Off != nil {
		vals.Set("offset", *o.Off)
	}
	var body any
	has := false
	switch o.K {
	case "insTask", "upsTask":
		if o.Task != nil {
			body, has = o.Task.Map(now), true
		}
	case "insTasks", "upsTasks":
		l := make([]any, 0, len(o.Tasks))
		for _, t := range o.Tasks {
			l = append(l, t.Map(now))
		}
		body, has = map[string]any{"data": l}, true
		if o.Tasks == nil {
			body = map[string]any{}
		}
	case "poll", "claim", "force":
		if o.Prom != nil {
			m := map[string]string{}
			if o.Prom.ID != nil {
				m["_id"] = *o.Prom.ID
			}
			if o.Prom.Consumer != nil {
				m["consumer"] = *o.Prom.Consumer
			}
			if o.Prom.Deadline != nil {
				m["deadline"] = o.Prom.Deadline.Resolve(now)
			}
			if o.Prom.Timeout != nil {
				m["timeout"] = *o.Prom.Timeout
			}
			if o.Prom.InQuery {
				q.QProm = m
				for k, v := range m {
					vals.Set(k, v)
				}
				if !o.Prom.NoBody {
					body, has = map[string]any{}, true
				}
			} else {
				b := map[string]any{}
				for k, v := range m {
					b[k] = v
				}
				body, has = b, true
			}
		}
	case "commit":
		if c := o.Commit; c != nil && !c.NoBody {
			m := map[string]any{}
			if c.Nonce != nil {
				m["nonce"] = nonce(c.Nonce)
			}
			set(m, "topic", c.Topic)
			if c.State != nil {
				m["state"] = *c.State
			}
			if c.Scheduled != nil {
				m["scheduled"] = c.Scheduled.Resolve(now)
			}
			if c.HasPayload {
				m["payload"] = c.Payload
			}
			set(m, "defer", c.Defer)
			body, has = m, true
		}
	}
	if has {
		b, err := json.Marshal(body)
		if err != nil {
			panic(err)
		}
		q.Body = b
	}
	if o.Raw != nil {
		q.Body = []byte(*o.Raw)
		q.Bad = true
	}
	q.Query = vals.Encode()
	if o.BadQ != "" {
		if q.Query != "" {
			q.Query += "&"
		}
		q.Query += o.BadQ
		q.Bad = true
	}
	return q
}

// Atoi parses a pagination number the way clients mean it.
func Atoi(s *string) (int, bool) {
	if s == nil {
		return 0, true
	}
	n, err := strconv.Atoi(*s)
	return n, err == nil
}
