package core

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/fs"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"

	"github.com/hyperonym/ratus/verif/h"
)

// stored renders everything in an engine.
func stored(g engine.Engine) string {
	ctx := context.Background()
	ts, err := g.ListTopics(ctx, 10000, 0)
	if err != nil {
		return err.Error()
	}
	var l []string
	for _, t := range ts {
		v, err := g.ListTasks(ctx, t.Name, 10000, 0)
		if err != nil {
			return err.Error()
		}
		for _, k := range v {
			b, _ := json.Marshal(k)
			l = append(l, string(b))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// populated creates an engine with tasks in all states.
func populated() engine.Engine {
	ctx := context.Background()
	g, err := memdb.New(&memdb.Config{RetentionPeriod: 72 * time.Hour})
	if err != nil {
		panic(err)
	}
	if err := g.Open(ctx); err != nil {
		panic(err)
	}
	n := time.Now()
	d := n.Add(time.Hour)
	var ts []*ratus.Task
	for i := 0; i < 12; i++ {
		k := &ratus.Task{ID: fmt.Sprintf("i%d", i), Topic: fmt.Sprintf("t%d", i%3), State: ratus.TaskState(i / 3), Produced: &n, Scheduled: &n, Payload: i}
		if k.State == ratus.TaskStateActive {
			k.Nonce, k.Consumed, k.Deadline, k.Consumer = "0123456789abcdef", &n, &d, "c"
		}
		ts = append(ts, k)
	}
	if _, err := g.InsertTasks(ctx, ts); err != nil {
		panic(err)
	}
	return g
}

// runRoutes sends requests that name no endpoint, or only almost.
func runRoutes(t *testing.T, p *h.Params, r *h.Report) {
	var keys []string
	for k := range documented {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	bad := func(c, sig, f string, a ...any) {
		r.Violate(&h.Violation{Props: []string{"C25"}, Sig: "routes:" + sig, Msg: fmt.Sprintf(f, a...), Case: c})
	}
	pc := &config.PaginationConfig{MaxLimit: 100, MaxOffset: 100}
	for _, i := range p.Cases(160) {
		h.Beat("routes case=%d", i)
		cs := fmt.Sprintf("routes case=%d", i)
		rnd := h.NewRand(p.Seed, 251, i)
		g := populated()
		hd := h.Handler(g, pc)
		before := stored(g)
		if strings.Count(before, "\n") != 11 {
			bad(cs, "populate", "12 tasks inserted, stored:\n%s", before)
			continue
		}
		w := &wire{rnd}
		r.Eval(1)
		for n := 0; n < 200; n++ {
			q := w.request(keys)
			if !q.wf || strings.HasPrefix(q.target, "http:") || q.target == "*" {
				continue
			}
			path := q.target
			if k := strings.IndexByte(path, '?'); k >= 0 {
				path = path[:k]
			}
			key, sure := match(q.method, path)
			desc := q.method + " " + q.target
			if strings.HasSuffix(key, "/metrics") && rnd.IntN(20) > 0 {
				continue // slow
			}
			var hdr map[string]string
			if rnd.IntN(3) == 0 {
				hdr = map[string]string{"Origin": "https://a.example", "Accept-Encoding": "gzip"}
			}
			o := h.Serve(hd, q.method, q.target, nil, hdr)
			o, e := h.Gunzip(o)
			if e != "" {
				bad(cs, "gzip", "%s: %s", desc, e)
			}
			preflight := q.method == "OPTIONS" && hdr["Origin"] != ""
			docs := path == "/" || strings.HasPrefix(path, "/swagger") || strings.HasPrefix(path, "/openapi") || strings.HasSuffix(path, "/healthz")
			r.Seen(desc, o.Code)
			switch {
			case preflight:
			case key == "" && sure && !docs:
				r.Ev("unknown_routes")
				if o.Code != 404 {
					bad(cs, "unknown", "%s names no endpoint, but -> %d %s", desc, o.Code, h.Q(string(o.Body)))
				} else if q.method != "HEAD" {
					var b ratus.Error
					if err := json.Unmarshal(o.Body, &b); err != nil || b.Error.Code != 404 || b.Error.Message == "" || !strings.HasPrefix(o.Hdr.Get("Content-Type"), "application/json") {
						bad(cs, "not found body", "%s -> %d %s as %s", desc, o.Code, h.Q(string(o.Body)), o.Hdr.Get("Content-Type"))
					}
				}
			case key != "":
				r.Ev("known_routes")
			}
			after := stored(g)
			if after == before {
				continue
			}
			if key == "" || o.Code >= 400 || strings.HasPrefix(key, "GET ") || preflight {
				bad(cs, "effect", "%s -> %d changed the stored tasks from\n%s\nto\n%s", desc, o.Code, before, after)
			}
			g = populated()
			hd = h.Handler(g, pc)
			before = stored(g)
		}
		// Preflights are answered for every endpoint and have no effect.
		for _, k := range keys {
			j := strings.Index(k, " ")
			u := strings.NewReplacer("{topic}", "t0", "{id}", "i0").Replace(k[j+1:])
			if rnd.IntN(2) == 0 {
				u = "/v1" + u
			}
			origin := h.Pick(rnd, []string{"https://a.example", "null", "http://localhost:3000", "https://x:8443"})
			o := h.Serve(hd, "OPTIONS", u, nil, map[string]string{"Origin": origin, "Access-Control-Request-Method": k[:j], "Access-Control-Request-Headers": "content-type"})
			a, m, hs := o.Hdr.Get("Access-Control-Allow-Origin"), o.Hdr.Get("Access-Control-Allow-Methods"), strings.ToLower(o.Hdr.Get("Access-Control-Allow-Headers"))
			if o.Code/100 != 2 || len(o.Body) != 0 || a != "*" && a != origin || !strings.Contains(m, k[:j]) && m != "*" || !strings.Contains(hs, "content-type") && hs != "*" {
				bad(cs, "preflight", "OPTIONS %s for %s from %s -> %d allowing origin %q, methods %q, headers %q", u, k[:j], origin, o.Code, a, m, hs)
			}
			r.Ev("preflights")
		}
		if a := stored(g); a != before {
			bad(cs, "preflight effect", "preflights changed the stored tasks")
		}
		// Liveness is unconditional, readiness is the engine's.
		name, err, code := genError(rnd)
		fail := h.Handler(&failing{err: err}, pc)
		for _, pre := range []string{"", "/v1"} {
			for u, want := range map[string]int{"/livez": 200, "/healthz": 200, "/readyz": code} {
				o := h.Serve(fail, "GET", pre+u, nil, nil)
				if o.Code != want {
					bad(cs, "health", "GET %s%s while the engine reports %s (%v) -> %d", pre, u, name, err, o.Code)
				}
				if o := h.Serve(hd, "GET", pre+u, nil, nil); o.Code != 200 {
					bad(cs, "health", "GET %s%s with a working engine -> %d", pre, u, o.Code)
				}
				r.Ev("health_checks", 2)
			}
		}
	}
	if p.Only == "" && p.Shard == 0 {
		docsServed(r, bad, h.Handler(populated(), pc))
	}
}

// docsServed compares the documentation served with the files shipped.
func docsServed(r *h.Report, bad func(c, sig, f string, a ...any), hd http.Handler) {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	root := filepath.Join(repo, "docs")
	files := map[string]string{"/": "index.html", "/swagger.json": "swagger.json", "/swagger.yaml": "swagger.yaml", "/openapi.json": "openapi.json", "/openapi.yaml": "openapi.yaml"}
	filepath.WalkDir(filepath.Join(root, "swagger-ui"), func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() && d.Name() != "index.html" && !strings.HasPrefix(d.Name(), ".") && !strings.HasPrefix(d.Name(), "_") {
			rel, _ := filepath.Rel(root, p)
			files["/"+filepath.ToSlash(rel)] = rel
		}
		return nil
	})
	for u, f := range files {
		want, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			continue
		}
		for _, enc := range []string{"", "gzip", "identity"} {
			o := h.Serve(hd, "GET", u, nil, map[string]string{"Accept-Encoding": enc, "Origin": "https://a.example"})
			o, e := h.Gunzip(o)
			if e != "" || o.Code != 200 || !bytes.Equal(o.Body, want) {
				bad("docs", "docs", "GET %s with encoding %q -> %d and %d bytes instead of the %d of docs/%s %s", u, enc, o.Code, len(o.Body), len(want), f, e)
			}
			r.Ev("documents_compared")
			r.Eval(1)
		}
	}
}

func init() { h.Register("C25", runRoutes) }
