package h

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime/debug"

	"github.com/gin-gonic/gin"

	"github.com/hyperonym/ratus/docs"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/controller"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/middleware"
	"github.com/hyperonym/ratus/internal/router"
)

func init() { gin.SetMode(gin.ReleaseMode) }

// Handler mounts the real API on an engine.
func Handler(g engine.Engine, pc *config.PaginationConfig) http.Handler {
	return router.New(&controller.V1{
		Pagination: middleware.Pagination(pc),
		Topic:      controller.NewTopicController(g),
		Task:       controller.NewTaskController(g),
		Promise:    controller.NewPromiseController(g),
		Health:     controller.NewHealthController(g),
		Metrics:    controller.NewMetricsController(g),
	}, &docs.Swagger{})
}

// Outcome is what a caller observed.
type Outcome struct {
	Code  int
	Body  []byte
	Hdr   http.Header
	JSON  any
	Panic string
	Stack string
}

// Serve executes one request against a handler, in process.
func Serve(hd http.Handler, method, rawURL string, body []byte, hdr map[string]string) (out *Outcome) {
	return ServeCtx(context.Background(), hd, method, rawURL, body, hdr)
}

// ServeCtx is Serve with a request context.
func ServeCtx(ctx context.Context, hd http.Handler, method, rawURL string, body []byte, hdr map[string]string) (out *Outcome) {
	u, err := url.ParseRequestURI(rawURL)
	if err != nil {
		return &Outcome{Code: -1, Panic: "unparsable URL " + rawURL}
	}
	req := (&http.Request{Method: method, URL: u, RequestURI: rawURL, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "ratus.test", RemoteAddr: "192.0.2.1:1234"}).WithContext(ctx)
	if body != nil {
		req.Body = io.NopCloser(bytes.NewReader(body))
		req.ContentLength = int64(len(body))
		req.Header.Set("Content-Type", "application/json")
	} else {
		req.Body = http.NoBody
	}
	for k, v := range hdr {
		req.Header.Set(k, v)
	}
	w := httptest.NewRecorder()
	out = &Outcome{}
	defer func() {
		if e := recover(); e != nil {
			out.Panic = fmt.Sprint(e)
			out.Stack = string(debug.Stack())
			out.Code = -2
		}
	}()
	hd.ServeHTTP(w, req)
	out.Code = w.Code
	out.Body = w.Body.Bytes()
	out.Hdr = w.Result().Header
	if len(out.Body) > 0 && out.Hdr.Get("Content-Encoding") == "" {
		var v any
		if json.Unmarshal(out.Body, &v) == nil {
			out.JSON = v
		}
	}
	return out
}

// Driver executes resolved requests.
type Driver interface {
	Do(q *Req) *Outcome
}

// PlainDriver sends requests straight to the handler.
type PlainDriver struct{ H http.Handler }

// Do implements Driver.
func (d *PlainDriver) Do(q *Req) *Outcome {
	u := q.Path
	if q.Query != "" {
		u += "?" + q.Query
	}
	return Serve(d.H, q.Method, u, q.Body, nil)
}
