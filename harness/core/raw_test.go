package core

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"

	"github.com/hyperonym/ratus/verif/h"
)

// spec is the published API specification as served.
type spec struct {
	// statuses and shapes by method and path template.
	ops  map[string]map[int]string
	defs map[string]map[string]any
}

func loadSpec(hd http.Handler) (*spec, error) {
	o := h.Serve(hd, "GET", "/swagger.json", nil, nil)
	if o.Code != 200 {
		return nil, fmt.Errorf("GET /swagger.json -> %d", o.Code)
	}
	var d struct {
		Paths map[string]map[string]struct {
			Responses map[string]struct {
				Schema map[string]any
			}
		}
		Definitions map[string]map[string]any
	}
	if err := json.Unmarshal(o.Body, &d); err != nil {
		return nil, err
	}
	s := &spec{ops: map[string]map[int]string{}, defs: d.Definitions}
	for p, ms := range d.Paths {
		for m, op := range ms {
			st := map[int]string{}
			for c, r := range op.Responses {
				var code int
				fmt.Sscan(c, &code)
				ref, _ := r.Schema["$ref"].(string)
				if ref == "" {
					ref, _ = r.Schema["type"].(string)
				}
				st[code] = strings.TrimPrefix(ref, "#/definitions/")
			}
			s.ops[strings.ToUpper(m)+" "+p] = st
		}
	}
	return s, nil
}

// independent list of the endpoints and the statuses they are to produce.
var documented = map[string][]int{
	"GET /livez": {200}, "GET /metrics": {200}, "GET /readyz": {200, 503},
	"GET /topics": {200, 400, 500}, "DELETE /topics": {200, 500},
	"GET /topics/{topic}": {200, 404, 500}, "DELETE /topics/{topic}": {200, 500},
	"GET /topics/{topic}/promises": {200, 400, 500}, "POST /topics/{topic}/promises": {200, 400, 404, 409, 500}, "DELETE /topics/{topic}/promises": {200, 500},
	"GET /topics/{topic}/promises/{id}": {200, 404, 500}, "PUT /topics/{topic}/promises/{id}": {200, 400, 404, 500}, "POST /topics/{topic}/promises/{id}": {200, 400, 404, 409, 500}, "DELETE /topics/{topic}/promises/{id}": {200, 500},
	"GET /topics/{topic}/tasks": {200, 400, 500}, "PUT /topics/{topic}/tasks": {200, 201, 400, 500}, "POST /topics/{topic}/tasks": {200, 201, 400, 500}, "DELETE /topics/{topic}/tasks": {200, 500},
	"GET /topics/{topic}/tasks/{id}": {200, 404, 500}, "PUT /topics/{topic}/tasks/{id}": {200, 201, 400, 500}, "POST /topics/{topic}/tasks/{id}": {201, 400, 409, 500}, "DELETE /topics/{topic}/tasks/{id}": {200, 500}, "PATCH /topics/{topic}/tasks/{id}": {200, 400, 404, 409, 500},
}

// match finds the endpoint a request path names. sure is false where the
// standard leaves equivalence open: encoded static segments and empty ones.
func match(method, path string) (key string, sure bool) {
	segs := strings.Split(strings.TrimPrefix(path, "/"), "/")
	sure = true
	if !strings.HasPrefix(path, "/") {
		return "", false
	}
	if len(segs) > 1 && segs[0] == "v1" {
		segs = segs[1:]
	}
	for k := range documented {
		i := strings.Index(k, " ")
		if k[:i] != method {
			continue
		}
		t := strings.Split(k[i+2:], "/")
		if len(t) != len(segs) {
			continue
		}
		ok, s := true, true
		for j := range t {
			if strings.HasPrefix(t[j], "{") {
				if segs[j] == "" {
					s = false
				}
				continue
			}
			if t[j] != segs[j] {
				d, err := url.PathUnescape(segs[j])
				if err != nil || d != t[j] {
					ok = false
					break
				}
				s = false
			}
		}
		if ok {
			return k, s
		}
	}
	for _, s := range segs {
		if strings.Contains(s, "%") {
			sure = false
		}
	}
	return "", sure
}

// shape checks a JSON value against a definition of the specification.
func (s *spec) shape(def map[string]any, v any, at string) string {
	if ref, ok := def["$ref"].(string); ok {
		return s.shape(s.defs[strings.TrimPrefix(ref, "#/definitions/")], v, at)
	}
	if all, ok := def["allOf"].([]any); ok && len(all) == 1 {
		return s.shape(all[0].(map[string]any), v, at)
	}
	switch def["type"] {
	case "object":
		m, ok := v.(map[string]any)
		if !ok {
			return at + " is not an object"
		}
		props, _ := def["properties"].(map[string]any)
		if props == nil {
			return ""
		}
		for k, x := range m {
			d, ok := props[k].(map[string]any)
			if !ok {
				return at + "." + k + " is not documented"
			}
			if e := s.shape(d, x, at+"."+k); e != "" {
				return e
			}
		}
		return ""
	case "array":
		l, ok := v.([]any)
		if !ok {
			return at + " is not a list"
		}
		for i, x := range l {
			if e := s.shape(def["items"].(map[string]any), x, fmt.Sprintf("%s[%d]", at, i)); e != "" {
				return e
			}
		}
	case "string":
		if _, ok := v.(string); !ok {
			return at + " is not a string"
		}
	case "integer":
		f, ok := v.(float64)
		if !ok || f != float64(int64(f)) {
			return at + " is not an integer"
		}
	}
	return ""
}

// must list the members a successful answer always has.
var must = map[string][]string{"ratus.Topics": {"data"}, "ratus.Tasks": {"data"}, "ratus.Promises": {"data"}, "ratus.Topic": {"name"}, "ratus.Task": {"_id", "topic", "state", "nonce"}, "ratus.Promise": {"_id"}, "ratus.Updated": {"created", "updated"}, "ratus.Deleted": {"deleted"}}

// wire generates requests as bytes.
type wire struct {
	r *rand.Rand
}

func (g *wire) bytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.r.IntN(256))
	}
	return string(b)
}

func (g *wire) segment(good []string) string {
	switch g.r.IntN(10) {
	case 0:
		return h.Escape(g.bytes(1+g.r.IntN(6)), 1)
	case 1:
		return h.Escape(h.AnyString(g.r), g.r.IntN(3))
	case 2:
		return h.Pick(g.r, []string{"", ".", "..", "%2e%2e", "%2F", "%00", "a%2Fb", "%25", "%", "%zz", "%4", "*", ":topic", "a;b=c", "a,b", "é", "~", "tasks", "promises", "%20", "+", "a+b", "%ff%fe"})
	default:
		return h.Pick(g.r, good)
	}
}

func (g *wire) path(tmpl string) string {
	r := g.r
	p := tmpl
	for strings.Contains(p, "{topic}") {
		p = strings.Replace(p, "{topic}", g.segment([]string{"t0", "t1", "t2"}), 1)
	}
	for strings.Contains(p, "{id}") {
		p = strings.Replace(p, "{id}", g.segment([]string{"i0", "i1", "i2", "i3"}), 1)
	}
	if r.IntN(2) == 0 {
		p = "/v1" + p
	}
	switch r.IntN(40) {
	case 0:
		p += "/"
	case 1:
		p = "/" + p
	case 2:
		p += "/extra"
	case 3:
		p = strings.ToUpper(p)
	case 4:
		p = "/v2" + p
	case 5:
		i := r.IntN(len(p))
		p = p[:i] + h.Pick(r, []string{"/", "%2F", "x", "..", "/../", "/./", "%00"}) + p[i:]
	case 6:
		p = strings.Replace(p, "topics", h.Pick(r, []string{"topic", "Topics", "%74opics", "topics%20", ""}), 1)
	}
	return p
}

func (g *wire) query() string {
	r := g.r
	if r.IntN(3) > 0 {
		return ""
	}
	var l []string
	for i, n := 0, 1+r.IntN(3); i < n; i++ {
		k := h.Pick(r, []string{"limit", "offset", "limit", "offset", "_id", "consumer", "deadline", "timeout", "x", "", "limit[]", "Limit"})
		v := h.Pick(r, []string{"0", "1", "10", "-1", "1.5", "1e2", "abc", "", "99999999999999999999", "%00", "%ff", "%", "i0", "2030-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999-23:59", "10000-01-01T00:00:00Z", "1h", "-1h", "1s1s", "10", "9223372036854775807ns", "2562048h", "+5", " 5", "0x10", "0b1", "1_000", "٣"})
		l = append(l, k+"="+v)
	}
	return "?" + strings.Join(l, h.Pick(r, []string{"&", "&", "&", ";"}))
}

// value generates fields of any type, mostly almost right.
func (g *wire) value() any {
	r := g.r
	switch r.IntN(12) {
	case 0:
		return nil
	case 1:
		return r.IntN(6) - 1
	case 2:
		return h.Pick(r, []float64{1.5, -0.0, 1e300, 2, 3, 1e18})
	case 3:
		return r.IntN(2) == 0
	case 4:
		return []any{}
	case 5:
		return map[string]any{}
	case 6:
		return h.Pick(r, []string{"2030-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "0000-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999Z", "2000-01-01T00:00:00+24:00", "2000-01-01T00:00:00-23:59", "2000-02-30T00:00:00Z", "2000-01-01", "2000-01-01T00:00:00", "2000-01-01T00:00:60Z", "2000-01-01t00:00:00z", "1969-12-31T23:59:59.9Z", "1677-09-21T00:12:43Z", "2262-04-12T00:00:00Z"})
	case 7:
		return h.Pick(r, []string{"1s", "-1s", "", "1", "h", "1h1h", "1e3s", "9223372036854775807ns", "2562047h47m16.854775807s", "2562048h", "NaN", "0", "1.5h", "µs", "1µs"})
	case 8:
		return h.JSONValue(r, 4)
	default:
		return h.Pick(r, []string{"i0", "i1", "i2", "t0", "t1", "x"})
	}
}

func (g *wire) object() map[string]any {
	r := g.r
	m := map[string]any{}
	for i, n := 0, r.IntN(6); i < n; i++ {
		k := h.Pick(r, []string{"_id", "topic", "state", "nonce", "producer", "consumer", "produced", "scheduled", "consumed", "deadline", "payload", "defer", "timeout", "unknown", "", "_ID", "Topic"})
		m[k] = g.value()
	}
	if r.IntN(2) == 0 {
		m["_id"] = h.Pick(r, []string{"i0", "i1", "i2", "i3"})
	}
	if r.IntN(2) == 0 {
		m["topic"] = h.Pick(r, []string{"t0", "t1"})
	}
	return m
}

func (g *wire) body() []byte {
	r := g.r
	var v any
	switch r.IntN(8) {
	case 0:
		return nil
	case 1:
		return []byte(h.Pick(r, []string{"", " ", "{", "}", "[]", "null", "true", "1", "\"x\"", "{}", "{}{}", "{} x", "[1", "{\"data\":null}", "{\"data\":[null]}", "{\"data\":{}}", "{\"data\":[[]]}", "{\"_id\":\"a\",\"_id\":\"b\"}", "\ufeff{}", "nul", "{\"a\":}", "{\"state\":1e0}", "{\"state\":1.0}", "{'a':1}", "{\"payload\":1e999}", "{\"payload\":-0}", "{\"payload\":\"\\ud800\"}", "//c\n{}"}))
	case 2, 3:
		l := []any{}
		for i, n := 0, r.IntN(4); i < n; i++ {
			l = append(l, g.object())
		}
		if r.IntN(6) == 0 {
			l = append(l, g.value())
		}
		v = map[string]any{"data": l}
	default:
		v = g.object()
	}
	b, err := json.Marshal(v)
	if err != nil {
		return nil
	}
	switch r.IntN(12) {
	case 0:
		if len(b) > 0 {
			b = b[:r.IntN(len(b))]
		}
	case 1:
		if len(b) > 0 {
			b[r.IntN(len(b))] = byte(r.IntN(256))
		}
	case 2:
		b = append(b, g.bytes(3)...)
	case 3:
		n := h.Pick(r, []int{100, 5000, 9900, 10001, 20000})
		b = []byte(`{"payload":` + strings.Repeat("[", n) + strings.Repeat("]", n) + `}`)
	case 4:
		if r.IntN(10) == 0 {
			b = []byte(`{"payload":"` + strings.Repeat("x", 1<<20) + `"}`)
		}
	}
	return b
}

type rawReq struct {
	method, target string
	bytes          []byte
	close          bool
	head           bool
	origin         bool
	wf             bool // well-formed HTTP
}

func (g *wire) request(keys []string) *rawReq {
	r := g.r
	k := h.Pick(r, keys)
	i := strings.Index(k, " ")
	q := &rawReq{method: k[:i], wf: true}
	if r.IntN(12) == 0 {
		q.method = h.Pick(r, []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "get", "FOO", "PROPFIND"})
	}
	p := g.path(k[i+1:])
	if r.IntN(60) == 0 {
		p = h.Pick(r, []string{"/", "//", "/v1", "/v1/", "/topics/", "/index.html", "/swagger.json", "/favicon.ico", "/healthz", "/v1/healthz", "/debug/pprof/", "*", "http://other/topics", "/v1/v1/topics", "/topics/t0/tasks/i0/x", "/topics/t0/foo", "/livez/"})
	}
	q.target = p + g.query()
	if _, err := url.ParseRequestURI(q.target); err != nil || strings.ContainsAny(q.target, " \r\n") {
		q.wf = false
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\n", q.method, q.target, h.Pick(r, []string{"ratus.test", "localhost:80", "[::1]"}))
	hd := func(k, v string) { fmt.Fprintf(&b, "%s: %s\r\n", k, v) }
	if r.IntN(3) == 0 {
		hd("Accept-Encoding", h.Pick(r, []string{"gzip", "gzip, deflate, br", "*", "identity", "gzip;q=0", "", "GZIP", "br"}))
	}
	if r.IntN(6) == 0 {
		hd("Origin", h.Pick(r, []string{"https://a.example", "null", "junk", "http://localhost:3000"}))
		q.origin = true
		if r.IntN(2) == 0 {
			hd("Access-Control-Request-Method", "PUT")
		}
	}
	if r.IntN(5) == 0 {
		hd("Content-Type", h.Pick(r, []string{"application/json", "text/plain", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "application/xml", "a/b/c", ";", "application/json; charset=latin1"}))
	}
	for i, n := 0, r.IntN(3); i < n; i++ {
		switch r.IntN(8) {
		case 0:
			hd("X-Anything", strings.Repeat("v", r.IntN(8000)))
		case 1:
			hd("Cookie", "a=b; c=\"d\"")
		case 2:
			hd("Range", h.Pick(r, []string{"bytes=0-1", "bytes=5-", "items=1-2"}))
		case 3:
			hd("If-None-Match", "*")
		case 4:
			hd("Accept", h.Pick(r, []string{"text/html", "application/xml", "*/*;q=0", "text/event-stream"}))
		case 5:
			hd("X-HTTP-Method-Override", "DELETE")
		case 6:
			hd("X-Bytes", "\xff\xfe\x80")
		case 7:
			hd("Content-Encoding", "gzip")
		}
	}
	if r.IntN(15) == 0 {
		hd("Connection", "close")
		q.close = true
	}
	body := g.body()
	if q.method == "GET" && r.IntN(4) > 0 || q.method == "HEAD" || q.method == "TRACE" {
		body = nil
	}
	switch {
	case body == nil:
		if r.IntN(3) == 0 {
			hd("Content-Length", "0")
		}
		b.WriteString("\r\n")
	case r.IntN(5) == 0:
		hd("Transfer-Encoding", "chunked")
		b.WriteString("\r\n")
		for len(body) > 0 {
			n := min(len(body), 1+r.IntN(50000))
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, body[:n])
			body = body[n:]
		}
		b.WriteString("0\r\n\r\n")
	default:
		if r.IntN(20) == 0 {
			hd("Expect", "100-continue")
		}
		hd("Content-Length", fmt.Sprint(len(body)))
		b.WriteString("\r\n")
		b.Write(body)
	}
	q.head = q.method == "HEAD"
	q.bytes = b.Bytes()
	return q
}

// session is a connection on which requests are answered one by one.
type session struct {
	c  net.Conn
	br *bufio.Reader
}

type answer struct {
	code  int
	hdr   http.Header
	body  []byte
	close bool
}

// roundtrip sends bytes and reads exactly one final response.
func (s *session) roundtrip(b []byte, method string) (*answer, error) {
	s.c.SetDeadline(time.Now().Add(time.Hour))
	werr := make(chan error, 1)
	go func() {
		_, err := s.c.Write(b)
		werr <- err
	}()
	for {
		res, err := http.ReadResponse(s.br, &http.Request{Method: method})
		if err != nil {
			return nil, err
		}
		if res.StatusCode == 100 {
			continue
		}
		body, err := io.ReadAll(res.Body)
		if err != nil {
			return nil, fmt.Errorf("reading the body of a response with status %d: %w", res.StatusCode, err)
		}
		a := &answer{res.StatusCode, res.Header, body, res.Close}
		if res.Header.Get("Content-Encoding") == "gzip" && len(body) > 0 {
			z, err := gzip.NewReader(bytes.NewReader(body))
			if err != nil {
				return nil, fmt.Errorf("damaged gzip: %w", err)
			}
			if a.body, err = io.ReadAll(z); err != nil {
				return nil, fmt.Errorf("damaged gzip: %w", err)
			}
		}
		return a, nil
	}
}

func (q *rawReq) desc() string { return fmt.Sprintf("%+q", q.bytes[:min(len(q.bytes), 600)]) }

// directed requests witness every documented status at least once.
func directed() []string {
	j := func(m, p, b string) string {
		if b == "" {
			return fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\n\r\n", m, p)
		}
		return fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", m, p, len(b), b)
	}
	return []string{
		j("GET", "/livez", ""), j("GET", "/readyz", ""), j("GET", "/v1/metrics", ""), j("GET", "/topics", ""), j("GET", "/topics?limit=-1", ""),
		j("POST", "/topics/d/tasks/d0", `{}`), j("POST", "/topics/d/tasks/d0", `{}`), j("POST", "/topics/d/tasks/d0", `{`),
		j("PUT", "/topics/d/tasks/d0", `{}`), j("PUT", "/topics/d/tasks/d1", `{}`), j("PUT", "/topics/d/tasks/d1", ``),
		j("POST", "/topics/d/tasks", `{"data":[{"_id":"d2"}]}`), j("POST", "/topics/d/tasks", `{"data":[{"_id":"d2"}]}`), j("POST", "/topics/d/tasks", `{"data":[{}]}`),
		j("PUT", "/topics/d/tasks", `{"data":[{"_id":"d3"}]}`), j("PUT", "/topics/d/tasks", `{"data":[{"_id":"d3"}]}`), j("PUT", "/topics/d/tasks", `[]`),
		j("GET", "/topics/d", ""), j("GET", "/topics/nosuch", ""), j("GET", "/topics/d/tasks", ""), j("GET", "/topics/d/tasks?offset=x", ""), j("GET", "/topics/d/tasks/d0", ""), j("GET", "/topics/d/tasks/nosuch", ""),
		j("POST", "/topics/d/promises", ""), j("POST", "/topics/nosuch/promises", ""), j("POST", "/topics/d/promises", `{"timeout":"x"}`), j("POST", "/topics/d/promises", `{"_id":"d0"}`), j("POST", "/topics/d/promises", `{"_id":"d0"}`),
		j("POST", "/topics/d/promises/d1", ""), j("POST", "/topics/d/promises/d1", ""), j("POST", "/topics/d/promises/nosuch", ""), j("POST", "/topics/d/promises/d1", `{"_id":"x"}`),
		j("PUT", "/topics/d/promises/d1", ""), j("PUT", "/topics/d/promises/nosuch", ""), j("PUT", "/topics/d/promises/d1", `1`),
		j("GET", "/topics/d/promises", ""), j("GET", "/topics/d/promises?limit=1000000", ""), j("GET", "/topics/d/promises/d1", ""), j("GET", "/topics/d/promises/nosuch", ""),
		j("PATCH", "/topics/d/tasks/d1", `{"nonce":"wrong"}`), j("PATCH", "/topics/d/tasks/d1", ``), j("PATCH", "/topics/d/tasks/nosuch", ``), j("PATCH", "/topics/d/tasks/d1", `{"state":9}`),
		j("DELETE", "/topics/d/promises/d0", ""), j("DELETE", "/topics/d/promises", ""), j("DELETE", "/topics/d/tasks/d0", ""), j("DELETE", "/topics/d/tasks", ""), j("DELETE", "/topics/d", ""), j("DELETE", "/topics", ""),
	}
}

func runRaw(t *testing.T, p *h.Params, r *h.Report) {
	var keys []string
	for k := range documented {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	witnessed := map[string]bool{}
	dir := t.TempDir()
	var sp *spec
	for _, i := range p.Cases(1600) {
		h.Beat("raw case=%d", i)
		var trace []string
		rnd := h.NewRand(p.Seed, 15, i)
		bad := func(sig, f string, a ...any) {
			r.Violate(&h.Violation{Props: []string{"C15"}, Sig: "raw:" + sig, Msg: fmt.Sprintf(f, a...), Case: fmt.Sprintf("raw case=%d", i), Trace: append([]string(nil), trace...)})
		}
		r.Eval(1)
		synctest.Test(t, func(t *testing.T) {
			snap := ""
			if i%16 == 5 {
				snap = filepath.Join(dir, fmt.Sprint(i))
			}
			g, _ := memdb.New(&memdb.Config{SnapshotPath: snap, SnapshotInterval: time.Hour, RetentionPeriod: 72 * time.Hour})
			if err := g.Open(context.Background()); err != nil {
				t.Fatal(err)
			}
			hd := h.Handler(g, &config.PaginationConfig{MaxLimit: 100, MaxOffset: 100})
			if sp == nil {
				var err error
				if sp, err = loadSpec(hd); err != nil {
					bad("spec", "the specification is not served: %v", err)
					g.Close(context.Background())
					return
				}
				sp.compare(bad, hd)
			}
			srv := h.NewMemServer(hd)
			srv.S.ErrorLog = discard
			var s *session
			wg := &wire{rnd}
			send := func(b []byte, method, target, desc string, wf, origin bool) {
				if s == nil {
					c, err := srv.Dial(context.Background(), "tcp", "x")
					if err != nil {
						t.Fatal(err)
					}
					s = &session{c, bufio.NewReader(c)}
				}
				a, err := s.roundtrip(b, method)
				r.Ev("requests")
				line := fmt.Sprintf("%+q", b[:min(len(b), 2000)])
				if err == nil {
					line += fmt.Sprintf(" -> %d %+q", a.code, a.body[:min(len(a.body), 1000)])
				}
				trace = append(trace, line)
				if err != nil {
					bad("no response", "%s was not answered properly: %v", desc, err)
					s.c.Close()
					s = nil
					return
				}
				path := target
				if k := strings.IndexByte(path, '?'); k >= 0 {
					path = path[:k]
				}
				key, sure := match(method, path)
				sp.judge(a, method, path, key, sure, wf, origin, desc, bad)
				r.Ev(fmt.Sprintf("status:%d", a.code))
				r.Seen(method, path, key, a.code, string(b))
				if key != "" && sure {
					witnessed[fmt.Sprintf("%s -> %d", key, a.code)] = true
				}
				if wf && s.br.Buffered() > 0 {
					bad("extra bytes", "%s was answered with extra bytes after the response", desc)
				}
				if a.close {
					s.c.Close()
					s = nil
					return
				}
				// The connection has to be usable for the next request.
				l, err := s.roundtrip([]byte("GET /v1/livez HTTP/1.1\r\nHost: x\r\n\r\n"), "GET")
				if err != nil || l.code != 200 || len(l.body) != 0 {
					bad("framing", "after %s the next request on the connection got %+v %v", desc, l, err)
					s.c.Close()
					s = nil
				}
			}
			if i%20 == uint64(p.Shard)%20 || len(witnessed) == 0 {
				for _, d := range directed() {
					f := strings.Fields(d)
					send([]byte(d), f[0], f[1], h.Q(d), true, false)
				}
			}
			for n := 0; n < 50; n++ {
				q := wg.request(keys)
				send(q.bytes, q.method, q.target, q.desc(), q.wf, q.origin)
				if rnd.IntN(20) == 0 {
					time.Sleep(time.Duration(rnd.IntN(3600*24)) * time.Second)
					if s != nil {
						s.c.Close()
						s = nil
					}
					if err := g.Chore(context.Background()); err != nil {
						bad("chore", "maintenance fails after the requests: %v", err)
					}
				}
			}
			if s != nil {
				s.c.Close()
			}
			srv.Stop()
			// Connections being closed by the server linger for a moment.
			time.Sleep(time.Hour)
			if err := g.Close(context.Background()); err != nil {
				bad("close", "closing fails after the requests: %v", err)
			} else if snap != "" {
				g, _ := memdb.New(&memdb.Config{SnapshotPath: snap, SnapshotInterval: time.Hour, RetentionPeriod: 72 * time.Hour})
				if err := g.Open(context.Background()); err != nil {
					bad("reopen", "opening the snapshot fails after the requests: %v", err)
				} else {
					g.Close(context.Background())
				}
			}
		})
	}
	if p.Only == "" {
		for k, l := range documented {
			for _, c := range l {
				if w := fmt.Sprintf("%s -> %d", k, c); c < 500 && !witnessed[w] {
					r.Violate(&h.Violation{Props: []string{"C15"}, Sig: "raw:never:" + w, Msg: "the documented answer " + w + " was never produced, even by a request made for it", Case: "directed"})
				} else if c < 500 {
					r.Ev("documented_answers_witnessed")
				}
			}
		}
	}
}

// judge checks one answer.
func (sp *spec) judge(a *answer, method, path, key string, sure, wf, origin bool, desc string, bad func(sig, f string, x ...any)) {
	if a.code >= 500 {
		if a.code != 501 && a.code != 505 {
			bad("5xx", "%s -> %d %s", desc, a.code, h.Q(string(a.body)))
		}
		return
	}
	ct := a.hdr.Get("Content-Type")
	if !wf {
		// Rejected by the HTTP layer before any endpoint is involved.
		if a.code != 400 && a.code != 404 && key == "" {
			bad("malformed", "%s -> %d %s", desc, a.code, h.Q(string(a.body)))
		}
		return
	}
	if method == "OPTIONS" && origin {
		if a.code != 204 || len(a.body) != 0 {
			bad("preflight", "%s -> %d %s", desc, a.code, h.Q(string(a.body)))
		}
		return
	}
	if path == "*" || strings.HasPrefix(path, "http://") || method == "TRACE" {
		return
	}
	for _, p := range []string{"/swagger", "/openapi", "/healthz", "/v1/healthz"} {
		if strings.HasPrefix(path, p) {
			return
		}
	}
	if path == "/" {
		return
	}
	if key == "" || !sure && a.code == 404 {
		if key == "" && a.code != 404 {
			if !sure {
				return
			}
			bad("unknown", "%s names no endpoint, but -> %d %s", desc, a.code, h.Q(string(a.body)))
			return
		}
		if method != "HEAD" {
			sp.err(a, desc, bad)
		}
		return
	}
	shape, ok := sp.ops[key][a.code]
	if !ok {
		bad("undocumented", "%s -> %d, which is not documented for %s: %s", desc, a.code, key, h.Q(string(a.body)))
		return
	}
	if a.code >= 400 {
		sp.err(a, desc, bad)
		return
	}
	switch key {
	case "GET /livez", "GET /readyz":
		if len(a.body) != 0 {
			bad("body", "%s -> %s", desc, h.Q(string(a.body)))
		}
		return
	case "GET /metrics":
		if !strings.HasPrefix(ct, "text/plain") {
			bad("content type", "%s -> %s", desc, ct)
		}
		return
	}
	if !strings.HasPrefix(ct, "application/json") {
		bad("content type", "%s -> %s", desc, ct)
	}
	var v any
	if err := json.Unmarshal(a.body, &v); err != nil {
		bad("not JSON", "%s -> %d %s: %v", desc, a.code, h.Q(string(a.body)), err)
		return
	}
	if e := sp.shape(sp.defs[shape], v, shape); e != "" {
		bad("shape", "%s -> %d: %s: %s", desc, a.code, e, h.Q(string(a.body)))
		return
	}
	m, _ := v.(map[string]any)
	for _, k := range must[shape] {
		if x, ok := m[k]; !ok || x == nil {
			bad("missing", "%s -> %d without %s: %s", desc, a.code, k, h.Q(string(a.body)))
		}
	}
}

// err checks an error response.
func (sp *spec) err(a *answer, desc string, bad func(sig, f string, x ...any)) {
	var v any
	if !strings.HasPrefix(a.hdr.Get("Content-Type"), "application/json") {
		bad("error type", "%s -> %d as %s: %s", desc, a.code, a.hdr.Get("Content-Type"), h.Q(string(a.body)))
		return
	}
	if err := json.Unmarshal(a.body, &v); err != nil {
		bad("error body", "%s -> %d %s: %v", desc, a.code, h.Q(string(a.body)), err)
		return
	}
	if e := sp.shape(sp.defs["ratus.Error"], v, "error"); e != "" {
		bad("error shape", "%s -> %d %s: %s", desc, a.code, h.Q(string(a.body)), e)
		return
	}
	m, _ := v.(map[string]any)
	e, _ := m["error"].(map[string]any)
	if c, _ := e["code"].(float64); int(c) != a.code {
		bad("error code", "%s -> %d with code %v", desc, a.code, e["code"])
	}
	if s, _ := e["message"].(string); s == "" {
		bad("error message", "%s -> %d without a message", desc, a.code)
	}
}

// compare checks that the specification and the implementation agree on
// endpoints, using an engine that succeeds at everything.
func (sp *spec) compare(bad func(sig, f string, a ...any), real http.Handler) {
	for k, l := range documented {
		var got []int
		for c := range sp.ops[k] {
			got = append(got, c)
		}
		sort.Ints(got)
		if fmt.Sprint(got) != fmt.Sprint(l) {
			bad("spec statuses", "the specification lists %v for %s, expected %v", got, k, l)
		}
	}
	for k := range sp.ops {
		if documented[k] == nil {
			bad("spec endpoint", "the specification lists the unknown endpoint %s", k)
		}
	}
	paths := map[string]bool{}
	for k := range documented {
		paths[k[strings.Index(k, " ")+1:]] = true
	}
	hd := h.Handler(&succeeding{}, &config.PaginationConfig{MaxLimit: 10, MaxOffset: 10})
	for p := range paths {
		u := strings.NewReplacer("{topic}", "t", "{id}", "i").Replace(p)
		for _, m := range []string{"GET", "POST", "PUT", "DELETE", "PATCH"} {
			for _, pre := range []string{"", "/v1"} {
				o := h.Serve(hd, m, pre+u, nil, nil)
				if (o.Code != 404) != (documented[m+" "+p] != nil) {
					bad("endpoints", "%s %s%s -> %d, documented: %v", m, pre, u, o.Code, documented[m+" "+p])
				}
			}
		}
	}
	// All forms of the specification agree.
	sw := h.Serve(real, "GET", "/swagger.json", nil, nil)
	oa := h.Serve(real, "GET", "/openapi.json", nil, nil)
	a, b := endpoints(sw.Body), endpoints(oa.Body)
	if a == "" || a != b {
		bad("spec forms", "swagger.json and openapi.json list different endpoints: %s and %s", a, b)
	}
	for _, f := range []string{"/swagger.yaml", "/openapi.yaml"} {
		if c := yamlEndpoints(h.Serve(real, "GET", f, nil, nil).Body); c != a {
			bad("spec forms", "swagger.json and %s list different endpoints: %s and %s", f, a, c)
		}
	}
}

func endpoints(b []byte) string {
	var d struct {
		Paths map[string]map[string]struct{ Responses map[string]any }
	}
	if json.Unmarshal(b, &d) != nil {
		return ""
	}
	var l []string
	for p, ms := range d.Paths {
		for m, o := range ms {
			for c := range o.Responses {
				l = append(l, m+" "+p+" "+c)
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func yamlEndpoints(b []byte) string {
	var l []string
	in, path, method := false, "", ""
	for _, line := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(line)
		ind := len(line) - len(strings.TrimLeft(line, " "))
		k := strings.Trim(strings.TrimSuffix(t, ":"), `"'`)
		switch {
		case t == "":
		case ind == 0:
			in = t == "paths:"
		case !in || !strings.HasSuffix(t, ":"):
		case ind == 2:
			path = k
		case ind == 4:
			method = k
		case ind == 8 && len(k) == 3 && k[0] >= '2' && k[0] <= '5':
			l = append(l, method+" "+path+" "+k)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

var _ engine.Engine = (*succeeding)(nil)

func init() { h.Register("C15", runRaw) }
