package proc

import (
	"fmt"
	"strings"
	"time"

	"github.com/hyperonym/ratus/verif/h"
	"github.com/hyperonym/ratus/verif/mgo"
)

// database runs the process on an emulated MongoDB deployment.
func database(x *world) {
	d := mgo.NewDeployment()
	d.ShardKey = h.Pick(x.rnd, []string{"", "_id", "topic"})
	srv, addr, stop, err := mgo.ServeTCP(d)
	if err != nil {
		x.t.Fatal(err)
	}
	defer stop()
	kind := h.Pick(x.rnd, []string{"MongoDB", "mongodb", "MONGODB"})
	set := []string{"engine=" + kind, "mongodb-uri=mongodb://" + addr + "/?serverSelectionTimeoutMS=2000"}
	db, coll := "ratus", "tasks"
	if x.rnd.IntN(2) == 0 {
		db = h.Pick(x.rnd, []string{"queue", "Ratus2", "x-y"})
		set = append(set, "mongodb-database="+db)
	}
	if x.rnd.IntN(2) == 0 {
		coll = h.Pick(x.rnd, []string{"jobs", "t", "a.b"})
		set = append(set, "mongodb-collection="+coll)
	}
	ns := db + "." + coll
	ret := 72 * time.Hour
	if x.rnd.IntN(2) == 0 {
		ret = h.Pick(x.rnd, []time.Duration{time.Hour, 1000 * time.Hour, 90 * time.Second})
		set = append(set, "mongodb-retention-period="+ret.String())
	}
	works := true
	if x.rnd.IntN(2) == 0 {
		set = append(set, "mongodb-disable-auto-fallback=true")
		if d.ShardKey == "topic" {
			// Operations on single tasks would not work either.
			d.ShardKey = ""
		}
		works = d.ShardKey != "_id"
		if x.rnd.IntN(2) == 0 {
			set = append(set, "mongodb-disable-atomic-poll=true")
			works = true
		}
	}
	run := x.rnd.IntN(3) > 0
	if run {
		set = append(set, "chore-interval="+h.Pick(x.rnd, []string{"20ms", "50ms"}))
	} else {
		set = append(set, "chore-interval=0s")
	}
	docs := func() (n, indexes int, other string) {
		srv.With(func(d *mgo.Deployment) {
			n, indexes = len(d.Docs(ns)), len(d.Indexes(ns))-1
			other = strings.Join(d.Names(ns), " ")
		})
		return
	}

	// Without index creation none are made.
	if x.rnd.IntN(2) == 0 {
		down := x.rnd.IntN(2) == 0
		srv.Down(down)
		host, port := x.host(), x.port()
		s := x.start(append([]string{"bind=" + host, fmt.Sprintf("port=%d", port), "mongodb-disable-index-creation=true"}, set...)...)
		s.addr = fmt.Sprintf("%s:%d", host, port)
		if down {
			// It starts nevertheless, says that it is not ready, and recovers.
			c := 0
			if !eventually(patience, func() bool {
				select {
				case <-s.done:
					return true
				default:
				}
				c, _, err = s.do("GET", "/v1/readyz", "")
				return err == nil
			}) || c != 503 {
				if strings.Contains(s.out.String(), "address already in use") {
					x.r.Inconcl("port taken in case %d", x.i)
					return
				}
				x.bad("unavailable", "without a deployment the readiness is answered with %d (%v): %s", c, err, tail(s.out.String()))
				return
			}
			if c, _, err := s.do("GET", "/livez", ""); c != 200 || err != nil {
				x.bad("unavailable", "without a deployment the liveness is answered with %d (%v)", c, err)
			}
			srv.Down(false)
		}
		if !x.ready(s) {
			if strings.Contains(s.out.String(), "address already in use") {
				x.r.Inconcl("port taken in case %d", x.i)
				return
			}
			x.bad("ready", "the process with %v is not ready although its deployment works: %s", set, tail(s.out.String()))
			return
		}
		if c, b, err := s.do("POST", "/topics/t/tasks/first", `{"payload":1}`); c != 201 || err != nil {
			x.bad("insert", "%d %s %v", c, b, err)
			return
		}
		n, ix, other := docs()
		if n != 1 || other != "" {
			x.bad("place", "%d tasks are stored in %s and some in %q with %v", n, ns, other, set)
		}
		if ix != 0 {
			x.bad("indexes", "%d indexes were created with index creation disabled", ix)
		}
		x.r.Seen("mongodb without indexes", down, ns)
		x.stop(s)
	}

	s := x.serve(set...)
	if s == nil {
		return
	}
	if n, ix, other := docs(); ix == 0 || other != "" {
		x.bad("place", "after the start %s has %d tasks and %d indexes, elsewhere %q, with %v", ns, n, ix, other, set)
	}
	ago := func(d time.Duration) string { return time.Now().Add(-d).UTC().Format(time.RFC3339) }
	for id, b := range map[string]string{
		"due":  `{"payload":{"a":[1]}}`,
		"late": `{"state":1,"nonce":"n","deadline":"` + ago(time.Minute) + `","consumed":"` + ago(time.Hour) + `"}`,
		"busy": `{"state":1,"nonce":"n","deadline":"` + ago(-time.Hour) + `"}`,
		"done": `{"state":2,"consumed":"` + ago(0) + `"}`,
	} {
		if c, o, err := s.do("PUT", "/v1/topics/a/tasks/"+id, b); c != 201 || err != nil {
			x.bad("insert", "%s is answered with %d %s %v", id, c, o, err)
			return
		}
	}
	if run {
		if !eventually(patience, func() bool { return s.task("late") == "0" }) {
			x.bad("not run", "maintenance has not run with %v: the late task is %s", set, s.task("late"))
			return
		}
	} else {
		time.Sleep(200 * time.Millisecond)
		if g := s.task("late"); g != "1" {
			x.bad("run", "maintenance ran in spite of interval zero: the late task is %s", g)
		}
	}
	if g := s.task("busy"); g != "1" {
		x.bad("others", "the busy task is %s", g)
	}
	// The task inserted by default at the current time is due.
	time.Sleep(5 * time.Millisecond)
	c, b, err := s.do("POST", "/v1/topics/a/promises", `{"consumer":"c"}`)
	if works && (c != 200 || err != nil) || !works && c < 500 {
		x.bad("poll", "a poll is answered with %d %s (%v) in a deployment sharded by %q with %v", c, b, err, d.ShardKey, set)
	}
	x.r.Seen("mongodb", d.ShardKey, set[2:], c)
	x.stop(s)
	// What was stored is there for the next process, until it expires.
	s = x.serve(set...)
	if s == nil {
		return
	}
	if g := s.task("done") + s.task("busy"); g != "21" {
		x.bad("restart", "after a restart the tasks are %s", g)
	}
	x.stop(s)
	left := func(at time.Duration) (n int) {
		srv.With(func(d *mgo.Deployment) {
			d.Expire(time.Now().Add(at))
			n = len(d.Docs(ns))
		})
		return
	}
	all, _, _ := docs()
	if n := left(ret - patience); ret > 2*patience && n != all {
		x.bad("retention", "%d of %d tasks are left before the retention period %v ends", n, all, ret)
	}
	if n := left(ret + patience); n != all-1 {
		x.bad("retention", "%d of %d tasks are left after the retention period %v", n, all, ret)
	}
	if len(d.Unknown) > 0 {
		x.r.Inconcl("case %d: the emulated deployment does not support %v", x.i, d.Unknown)
	}

	// A deployment that can not be reached is an error when indexes are needed.
	if x.rnd.IntN(2) == 0 {
		srv.Down(true)
		s := x.start(append([]string{"bind=" + x.host(), fmt.Sprintf("port=%d", x.port())}, set...)...)
		if c := s.exited(); c <= 0 {
			x.bad("accepted", "the process started without its deployment, or ended with %d: %s", c, tail(s.out.String()))
			s.kill()
		}
		x.r.Ev("refused")
	}
}
