package h

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"io"
	"net/http"
	"strings"

	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
)

// VariantBackend varies prefix, encoding and origin of every request.
type VariantBackend struct{}

// NewEngine implements Backend.
func (VariantBackend) NewEngine(c *Cfg, snap string) (engine.Engine, error) {
	return memdb.New(&memdb.Config{SnapshotPath: snap, SnapshotInterval: c.Interval, RetentionPeriod: c.Retention})
}

// Driver implements Backend.
func (VariantBackend) Driver(g engine.Engine, pc *config.PaginationConfig) Driver {
	return &VariantDriver{H: Handler(g, pc)}
}

// Done implements Backend.
func (VariantBackend) Done() {}

// VariantDriver sends equivalent forms of a request.
type VariantDriver struct {
	H   http.Handler
	n   int
	Bad string
}

// Gunzip decodes a response body according to its headers.
func Gunzip(o *Outcome) (*Outcome, string) {
	if o.Hdr.Get("Content-Encoding") != "gzip" || len(o.Body) == 0 {
		return o, ""
	}
	z, err := gzip.NewReader(bytes.NewReader(o.Body))
	if err != nil {
		return o, "the body is not gzip: " + err.Error()
	}
	b, err := io.ReadAll(z)
	if err != nil {
		return o, "the gzip body is damaged: " + err.Error()
	}
	p := *o
	p.Body = b
	p.JSON = nil
	var v any
	if json.Unmarshal(b, &v) == nil {
		p.JSON = v
	}
	return &p, ""
}

var variantHeaders = []map[string]string{
	nil,
	{"Accept-Encoding": "gzip"},
	{"Origin": "https://app.example.com"},
	{"Accept-Encoding": "gzip, deflate, br", "Origin": "http://localhost:3000"},
	{"Accept-Encoding": "identity"},
	{"Origin": "null", "Accept-Encoding": "gzip;q=1.0"},
	{"Accept": "application/json", "User-Agent": "Mozilla/5.0", "Origin": "http://a.b:1"},
}

// Form returns the i-th equivalent form of a request.
func Form(q *Req, i int) (url string, hdr map[string]string) {
	u := q.Path
	if i%2 == 1 {
		if strings.HasPrefix(u, "/v1/") {
			u = u[3:]
		} else {
			u = "/v1" + u
		}
	}
	if q.Query != "" {
		u += "?" + q.Query
	}
	return u, variantHeaders[(i/2)%len(variantHeaders)]
}

// Forms is the number of equivalent forms.
func Forms() int { return 2 * len(variantHeaders) }

// Do implements Driver: one form is executed; reads are executed in all forms
// and must answer alike.
func (d *VariantDriver) Do(q *Req) *Outcome {
	d.n++
	do := func(i int) *Outcome {
		u, hd := Form(q, i)
		o := Serve(d.H, q.Method, u, q.Body, hd)
		p, e := Gunzip(o)
		if e != "" {
			d.bad(q, u, hd, e)
		}
		if hd["Origin"] != "" && o.Code > 0 {
			if a := o.Hdr.Get("Access-Control-Allow-Origin"); a != "*" && a != hd["Origin"] {
				d.bad(q, u, hd, "no Access-Control-Allow-Origin for "+hd["Origin"]+": "+a)
			}
		}
		return p
	}
	o := do(d.n % Forms())
	if q.Method == "GET" {
		for i := 0; i < Forms(); i++ {
			p := do(i)
			if p.Code != o.Code || !bytes.Equal(p.Body, o.Body) || p.Hdr.Get("Content-Type") != o.Hdr.Get("Content-Type") {
				u, hd := Form(q, i)
				d.bad(q, u, hd, "answered "+Q(string(p.Body))+" instead of "+Q(string(o.Body)))
			}
		}
	}
	if d.Bad != "" {
		o.Panic = d.Bad
	}
	return o
}

func (d *VariantDriver) bad(q *Req, u string, hd map[string]string, s string) {
	d.Bad = "equivalent request " + q.Method + " " + u + " " + J(hd) + ": " + s
}
