package proc

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/hyperonym/ratus"

	"github.com/hyperonym/ratus/verif/h"
)

func (x *world) snap() string {
	return filepath.Join(x.dir, snaps[x.i%uint64(len(snaps))])
}

// snaps are names of snapshots.
var snaps = []string{"snap.db", "snap.db", "snapshot", "100%d.db", "s n%s ap", "été.db", ".hidden", "a.b.c", "snap.tmp"}

// rec is what a worker knows about one task.
type rec struct {
	acked, pending string // serialized expectation, "" for absence
	uncertain      bool
}

// worker keeps changing its own tasks until the server goes away.
func (x *world) worker(s *srv, k int, seed uint64, stop <-chan struct{}) map[string]*rec {
	r := h.NewRand(seed, uint64(k))
	m := map[string]*rec{}
	topic := fmt.Sprintf("w%d", k)
	for n := 0; ; n++ {
		select {
		case <-stop:
			return m
		default:
		}
		id := fmt.Sprintf("w%d-%d", k, r.IntN(40))
		q := m[id]
		if q == nil {
			q = &rec{}
			m[id] = q
		}
		var code int
		var err error
		want := q.acked
		v := fmt.Sprintf("%d.%d", k, n)
		var st int
		switch op := r.IntN(10); {
		case q.acked == "" || op < 3:
			want = fmt.Sprintf("0 %s", v)
			q.pending, q.uncertain = want, true
			code, _, err = s.do("PUT", "/v1/topics/"+topic+"/tasks/"+id, `{"payload":"`+v+`"}`)
		case op < 5:
			want = ""
			q.pending, q.uncertain = want, true
			code, _, err = s.do("DELETE", "/topics/"+topic+"/tasks/"+id, "")
		case op < 8:
			st = r.IntN(3)
			if st == 1 {
				st = 3
			}
			want = fmt.Sprintf("%d %s", st, v)
			q.pending, q.uncertain = want, true
			code, _, err = s.do("PATCH", "/v1/topics/"+topic+"/tasks/"+id, fmt.Sprintf(`{"state":%d,"payload":"%s"}`, st, v))
		default:
			want = "1" + q.acked[1:]
			q.pending, q.uncertain = want, true
			code, _, err = s.do("PUT", "/topics/"+topic+"/promises/"+id, `{"timeout":"1h"}`)
		}
		if err != nil {
			return m
		}
		if code/100 != 2 {
			x.r.Ev("unexpected_status")
			x.bad("status", "a request on task %s was answered with %d while the process was running or shutting down", id, code)
			return m
		}
		q.acked, q.uncertain = want, false
		x.r.Ev("acknowledged")
	}
}

func brief(b []byte) string {
	var k ratus.Task
	if err := json.Unmarshal(b, &k); err != nil {
		return err.Error()
	}
	return fmt.Sprintf("%d %v", k.State, k.Payload)
}

// verify compares a server's tasks with what was acknowledged.
func (x *world) verify(s *srv, m map[string]*rec) {
	for id, q := range m {
		topic := strings.Split(id, "-")[0]
		c, b, err := s.do("GET", "/v1/topics/"+topic+"/tasks/"+id, "")
		got := ""
		switch {
		case err != nil:
			x.bad("restart", "reading task %s after the restart: %v", id, err)
			return
		case c == 200:
			got = brief(b)
		case c != 404:
			got = fmt.Sprint("status ", c)
		}
		x.r.Ev("compared_after_restart")
		if got != q.acked && !(q.uncertain && got == q.pending) {
			x.bad("lost", "task %s is %q after the restart, but %q was acknowledged (in doubt: %v %q)", id, got, q.acked, q.uncertain, q.pending)
			return
		}
	}
}

// graceful stops a server under load.
func graceful(x *world) {
	set := []string{"memdb-snapshot-path=" + x.snap(), "memdb-snapshot-interval=" + h.Pick(x.rnd, []string{"0s", "50ms", "1h"}), "chore-interval=" + h.Pick(x.rnd, []string{"1ms", "20ms", "1h", "0s"})}
	all := map[string]*rec{}
	for round := 0; round < 2; round++ {
		s := x.serve(set...)
		if s == nil {
			return
		}
		if round > 0 {
			x.verify(s, all)
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		res := make([]map[string]*rec, 6)
		seed := x.rnd.Uint64()
		for k := range res {
			wg.Add(1)
			go func() {
				defer wg.Done()
				res[k] = x.worker(s, round*10+k, seed, stop)
			}()
		}
		time.Sleep(time.Duration(x.rnd.IntN(300)) * time.Millisecond)
		sig := h.Pick(x.rnd, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT})
		s.signal(sig)
		if x.rnd.IntN(3) == 0 {
			// Impatient operators repeat themselves.
			time.Sleep(time.Duration(x.rnd.IntN(3)) * time.Millisecond)
			s.signal(h.Pick(x.rnd, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}))
		}
		c := s.exited()
		close(stop)
		wg.Wait()
		if c != 0 {
			x.bad("exit", "the process ended with %d after signal %v under load: %s", c, sig, tail(s.out.String()))
			return
		}
		x.noPanic(s)
		if !refused(s.addr) {
			x.bad("listening", "something still listens on %s after the exit", s.addr)
		}
		n := 0
		for _, m := range res {
			for id, q := range m {
				all[id] = q
				n++
				x.r.Seen(id, q.acked, q.uncertain)
			}
		}
		x.r.Ev("graceful_stops")
	}
	s := x.serve(set...)
	if s == nil {
		return
	}
	x.verify(s, all)
	x.stop(s)
}

// pendingReq is a request whose body has not been sent completely.
type pendingReq struct {
	c    net.Conn
	br   *bufio.Reader
	rest string
	id   string
}

// begin sends a request up to the point where the handler is known to run:
// it asks for the body with an interim response.
func (x *world) begin(s *srv, id string) *pendingReq {
	c, err := net.DialTimeout("tcp", s.addr, patience)
	if err != nil {
		x.bad("dial", "%v", err)
		return nil
	}
	c.SetDeadline(time.Now().Add(patience))
	body := `{"payload":"in flight"}`
	fmt.Fprintf(c, "POST /v1/topics/f/tasks/%s HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nContent-Length: %d\r\n\r\n", id, len(body))
	br := bufio.NewReader(c)
	l, err := br.ReadString('\n')
	if err != nil || !strings.HasPrefix(l, "HTTP/1.1 100") {
		x.bad("expect", "no interim response: %q %v", l, err)
		c.Close()
		return nil
	}
	br.ReadString('\n')
	k := x.rnd.IntN(len(body) - 1)
	c.Write([]byte(body[:k]))
	return &pendingReq{c, br, body[k:], id}
}

// inflight keeps requests in flight while the process shuts down.
func inflight(x *world) {
	set := []string{"memdb-snapshot-path=" + x.snap(), "chore-interval=" + h.Pick(x.rnd, []string{"1ms", "50ms", "1h", "0s"}), "memdb-snapshot-interval=" + h.Pick(x.rnd, []string{"0s", "1h"})}
	s := x.serve(set...)
	if s == nil {
		return
	}
	var l []*pendingReq
	for i, n := 0, 1+x.rnd.IntN(4); i < n; i++ {
		if p := x.begin(s, fmt.Sprintf("f%d", i)); p != nil {
			l = append(l, p)
		}
	}
	s.hc.CloseIdleConnections()
	s.signal(h.Pick(x.rnd, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}))
	t0 := time.Now()
	gone := eventually(7*time.Second, func() bool { return refused(s.addr) })
	if !gone && time.Since(t0) < 9*time.Second {
		x.bad("accepting", "the process still accepts connections %v after the signal", time.Since(t0))
	}
	pause := time.Duration(x.rnd.IntN(700)) * time.Millisecond
	if x.rnd.IntN(3) == 0 {
		pause += 5 * time.Second
	}
	time.Sleep(pause)
	slow := time.Since(t0) > 8*time.Second // the machine is too slow to judge
	for _, p := range l {
		select {
		case <-s.done:
			if !slow {
				x.bad("abandoned", "the process ended with %d while %d requests were in flight: %s", s.exited(), len(l), tail(s.out.String()))
				return
			}
		default:
		}
		p.c.Write([]byte(p.rest))
		res, err := http.ReadResponse(p.br, nil)
		if time.Since(t0) > 8*time.Second {
			slow = true
		}
		if slow {
			continue
		}
		if err != nil || res.StatusCode != 201 {
			x.bad("in flight", "the request in flight during the shutdown was answered with %v %v", res, err)
			return
		}
		x.r.Ev("finished_in_flight")
		x.r.Seen("in flight", p.rest, res.StatusCode, x.i)
		p.c.Close()
	}
	if c := s.exited(); c != 0 {
		x.bad("exit", "the process ended with %d after a termination signal with requests in flight: %s", c, tail(s.out.String()))
		return
	}
	if slow {
		x.r.Inconcl("machine too slow in case %d", x.i)
		return
	}
	m, err := load(x.snap())
	if err != nil {
		x.bad("snapshot", "the final snapshot can not be loaded: %v", err)
		return
	}
	for _, p := range l {
		if m[p.id] == nil || m[p.id].Payload != "in flight" {
			x.bad("lost", "task %s, acknowledged during the shutdown, is %s in the final snapshot", p.id, render(m[p.id]))
		}
	}
}

// stalled keeps a request in flight that never completes.
func stalled(x *world) {
	s := x.serve("memdb-snapshot-path="+x.snap(), "chore-interval=1h")
	if s == nil {
		return
	}
	if c, _, err := s.do("POST", "/topics/f/tasks/done", `{"payload":1}`); c != 201 || err != nil {
		x.bad("insert", "%d %v", c, err)
	}
	p := x.begin(s, "never")
	s.hc.CloseIdleConnections()
	s.signal(syscall.SIGTERM)
	// Cut the connection after a while: whatever the server's policy is, it
	// has to end then.
	time.AfterFunc(20*time.Second, func() {
		if p != nil {
			p.c.Close()
		}
	})
	if c := s.exited(); c != 0 {
		x.bad("exit", "the process ended with %d with a stalled request: %s", c, tail(s.out.String()))
		return
	}
	m, err := load(x.snap())
	if err != nil || m["done"] == nil {
		x.bad("lost", "the acknowledged task is %s in the final snapshot (%v)", render(m["done"]), err)
	}
	x.r.Seen("stalled")
}

// address checks that the process listens where it was told to.
func address(x *world) {
	s := x.serve("engine=" + h.Pick(x.rnd, []string{"memdb", "MemDB", "MEMDB"}))
	if s == nil {
		return
	}
	host, port, _ := net.SplitHostPort(s.addr)
	other := "127.9.9.9:" + port
	if !refused(other) {
		x.bad("bind", "bound to %s but %s answers as well", s.addr, other)
	}
	x.stop(s)
	x.r.Seen("address", s.addr)
	// By default every address is bound.
	p := x.port()
	s = x.start(fmt.Sprintf("port=%d", p))
	s.addr = fmt.Sprintf("%s:%d", host, p)
	if !x.ready(s) {
		if !strings.Contains(s.out.String(), "address already in use") {
			x.bad("default bind", "the server does not answer on %s: %s", s.addr, tail(s.out.String()))
		}
		return
	}
	if refused(fmt.Sprintf("127.0.0.1:%d", p)) {
		x.bad("default bind", "the server does not answer on 127.0.0.1:%d", p)
	}
	x.stop(s)
}

func tm(d time.Duration) *time.Time { t := time.Now().Add(d); return &t }

// sample is a snapshot with one task of each kind maintenance looks at.
func sample() []*ratus.Task {
	l := []*ratus.Task{
		{ID: "late", Topic: "a", State: ratus.TaskStateActive, Nonce: "0123456789abcdef", Produced: tm(-time.Hour), Scheduled: tm(-time.Hour), Consumed: tm(-time.Minute), Deadline: tm(-time.Second), Consumer: "c"},
		{ID: "busy", Topic: "a", State: ratus.TaskStateActive, Nonce: "fedcba9876543210", Produced: tm(-time.Hour), Scheduled: tm(-time.Hour), Consumed: tm(-time.Minute), Deadline: tm(time.Hour), Consumer: "c"},
		{ID: "old", Topic: "a", State: ratus.TaskStateCompleted, Produced: tm(-time.Hour * 100), Scheduled: tm(-time.Hour * 100), Consumed: tm(-time.Hour * 73), Deadline: tm(-time.Hour * 72)},
		{ID: "recent", Topic: "b", State: ratus.TaskStateCompleted, Produced: tm(-time.Hour * 100), Scheduled: tm(-time.Hour * 100), Consumed: tm(-time.Hour * 2), Deadline: tm(-time.Hour)},
		{ID: "archived", Topic: "b", State: ratus.TaskStateArchived, Produced: tm(-time.Hour * 100), Scheduled: tm(-time.Hour * 100), Consumed: tm(-time.Hour * 99), Deadline: tm(-time.Hour)},
		{ID: "pending", Topic: "b", State: ratus.TaskStatePending, Produced: tm(-time.Hour * 100), Scheduled: tm(-time.Hour * 100), Payload: map[string]any{"a": []any{1.5, nil, "x"}}},
	}
	return l
}

func (s *srv) task(id string) string {
	c, b, err := s.do("GET", "/v1/topics/a/tasks/"+id, "")
	if err != nil {
		return err.Error()
	}
	if c == 404 {
		return "gone"
	}
	if c != 200 {
		return fmt.Sprint("status ", c)
	}
	var k ratus.Task
	if err := json.Unmarshal(b, &k); err != nil {
		return err.Error()
	}
	return fmt.Sprint(int(k.State))
}

// maintained returns how often maintenance has run.
func (s *srv) maintained() (n int) {
	_, b, _ := s.do("GET", "/v1/metrics", "")
	for _, l := range strings.Split(string(b), "\n") {
		if v, ok := strings.CutPrefix(l, "ratus_chore_duration_seconds_count "); ok {
			fmt.Sscan(v, &n)
		}
	}
	return
}

// chores checks that maintenance follows its schedule.
func chores(x *world) {
	write(x.t, x.snap(), sample())
	type mode struct {
		set  []string
		runs bool
		from time.Duration
	}
	md := h.Pick(x.rnd, []mode{
		{[]string{"chore-interval=50ms"}, true, 0},
		{[]string{"chore-interval=0s"}, false, 0},
		{[]string{"chore-interval=1h"}, true, 0},
		{[]string{"chore-interval=20ms", "chore-initial-delay=1h"}, false, 0},
		{[]string{"chore-interval=1h", "chore-initial-delay=1500ms"}, true, 1500 * time.Millisecond},
		{[]string{"chore-interval=1h", "chore-initial-delay=3s"}, true, 3 * time.Second},
		{[]string{"chore-interval=1h", "chore-initial-delay=1500ms", "chore-initial-random=true"}, true, 0},
	})
	retention := h.Pick(x.rnd, []string{"", "1h", "72h", "1000h"})
	set := append([]string{"memdb-snapshot-path=" + x.snap()}, md.set...)
	if retention != "" {
		set = append(set, "memdb-retention-period="+retention)
	}
	t0 := time.Now()
	s := x.serve(set...)
	if s == nil {
		return
	}
	if md.from > 0 {
		for {
			st := s.task("late")
			e := time.Since(t0)
			if e >= md.from {
				break
			}
			if st != "1" {
				x.bad("early", "maintenance ran %v after the start in spite of %v", e, md.set)
				break
			}
			x.r.Ev("looks_during_initial_delay")
			time.Sleep(20 * time.Millisecond)
		}
	}
	if md.runs {
		if !eventually(patience, func() bool { return s.task("late") == "0" }) {
			x.bad("not run", "maintenance has not run with %v: the late task is %s", md.set, s.task("late"))
			return
		}
		want := map[string]string{"": "gone", "72h": "gone", "1h": "gone", "1000h": "2"}[retention]
		if g := s.task("old"); g != want {
			x.bad("retention", "a task completed 73 hours ago is %s after maintenance with retention %q", g, retention)
		}
		want = map[string]string{"": "2", "72h": "2", "1h": "gone", "1000h": "2"}[retention]
		if g := s.task("recent"); g != want {
			x.bad("retention", "a task completed 2 hours ago is %s after maintenance with retention %q", g, retention)
		}
	} else {
		time.Sleep(700 * time.Millisecond)
		if g := s.task("late") + s.task("old"); g != "12" {
			x.bad("run", "maintenance ran in spite of %v: late and old are %s", md.set, g)
		}
	}
	if g := s.task("busy") + s.task("archived") + s.task("pending"); g != "130" {
		x.bad("others", "other tasks are %s", g)
	}
	if md.set[0] == "chore-interval=1h" {
		// No second run.
		if c, b, err := s.do("PUT", "/topics/a/tasks/late2", fmt.Sprintf(`{"state":1,"nonce":"n","deadline":"%s"}`, time.Now().Add(-time.Minute).Format(time.RFC3339))); c != 201 || err != nil {
			x.bad("insert", "%d %s %v", c, b, err)
		}
		time.Sleep(300 * time.Millisecond)
		if g := s.task("late2"); g != "1" {
			x.bad("interval", "maintenance ran again within a second with %v", md.set)
		}
		if n := s.maintained(); n > 1 && time.Since(t0) < 30*time.Minute {
			x.bad("interval", "maintenance ran %d times at once with %v", n, md.set)
		}
	}
	if md.set[0] == "chore-interval=50ms" {
		s.do("PUT", "/topics/a/tasks/late2", fmt.Sprintf(`{"state":1,"nonce":"n","deadline":"%s"}`, time.Now().Add(-time.Minute).Format(time.RFC3339)))
		if !eventually(patience, func() bool { return s.task("late2") == "0" }) {
			x.bad("interval", "maintenance did not run again with %v", md.set)
		}
		if n := s.maintained(); float64(n) > time.Since(t0).Seconds()/0.05+2 {
			x.bad("interval", "maintenance ran %d times in %v with %v", n, time.Since(t0), md.set)
		}
	}
	x.r.Ev("maintenance_runs", s.maintained())
	x.r.Seen("chores", md.set, retention)
	x.stop(s)
}

// pages checks the page limits.
func pages(x *world) {
	ml, mo := h.Pick(x.rnd, []int{1, 5, 100, 250}), h.Pick(x.rnd, []int{0, 1, 7, 10000, 20000})
	set := []string{}
	if ml != 100 {
		set = append(set, fmt.Sprintf("pagination-max-limit=%d", ml))
	}
	if mo != 10000 {
		set = append(set, fmt.Sprintf("pagination-max-offset=%d", mo))
	}
	s := x.serve(set...)
	if s == nil {
		return
	}
	var l []string
	for i := 0; i < 260; i++ {
		l = append(l, fmt.Sprintf(`{"_id":"%d"}`, i))
	}
	if c, b, err := s.do("POST", "/topics/p/tasks", `{"data":[`+strings.Join(l, ",")+`]}`); c != 201 || err != nil {
		x.bad("insert", "%d %s %v", c, b, err)
		return
	}
	for _, q := range []struct {
		limit, offset, code int
	}{{ml, 0, 200}, {ml + 1, 0, 400}, {1, mo, 200}, {1, mo + 1, 400}, {ml, mo, 200}} {
		c, b, err := s.do("GET", fmt.Sprintf("/v1/topics/p/tasks?limit=%d&offset=%d", q.limit, q.offset), "")
		var v ratus.Tasks
		json.Unmarshal(b, &v)
		n := min(max(260-q.offset, 0), q.limit)
		if err != nil || c != q.code || c == 200 && len(v.Data) != n {
			x.bad("page", "limit %d offset %d with maximum %d and %d -> %d with %d tasks %v", q.limit, q.offset, ml, mo, c, len(v.Data), err)
		}
		x.r.Seen("pages", ml, mo, q)
	}
	x.stop(s)
}

// snapshots checks when snapshots are written.
func snapshots(x *world) {
	w, err := watch(x.dir)
	if err != nil {
		x.t.Fatal(err)
	}
	defer w.close()
	iv := h.Pick(x.rnd, []string{"0s", "1h", "500ms", ""})
	set := []string{"memdb-snapshot-path=" + x.snap(), "chore-interval=20ms"}
	if iv != "" {
		set = append(set, "memdb-snapshot-interval="+iv)
	}
	t0 := time.Now()
	s := x.serve(set...)
	if s == nil {
		return
	}
	if c, _, err := s.do("POST", "/topics/s/tasks/one", `{"payload":"x"}`); c != 201 || err != nil {
		x.bad("insert", "%d %v", c, err)
	}
	n := func() int { w.poll(); return w.count[filepath.Base(x.snap())] }
	switch iv {
	case "0s":
		if !eventually(patience, func() bool { return n() >= 3 }) {
			x.bad("interval", "only %d snapshots were written with interval %s", n(), iv)
		}
	case "500ms":
		if !eventually(patience, func() bool { return n() >= 3 }) {
			x.bad("interval", "only %d snapshots were written with interval %s", n(), iv)
		}
		if e := time.Since(t0); n() > int(e/(500*time.Millisecond))+2 {
			x.bad("interval", "%d snapshots were written within %v with interval %s", n(), e, iv)
		}
	default:
		time.Sleep(400 * time.Millisecond)
		if n() > 1 {
			x.bad("interval", "%d snapshots were written within a second with interval %q", n(), iv)
		}
	}
	x.r.Ev("snapshots_seen", n())
	x.r.Seen("snapshots", iv, n())
	if c, _, err := s.do("POST", "/topics/s/tasks/two", `{"payload":"y"}`); c != 201 || err != nil {
		x.bad("insert", "%d %v", c, err)
	}
	x.stop(s)
	m, err := load(x.snap())
	if err != nil || len(m) != 2 {
		x.bad("final", "the final snapshot holds %d tasks instead of 2 (%v)", len(m), err)
	}
	// Without a path nothing is written or kept.
	before := ls(x.dir)
	s = x.serve("chore-interval=5ms", "memdb-snapshot-interval=0s")
	if s == nil {
		return
	}
	if c, _, err := s.do("GET", "/topics/s/tasks/one", ""); c != 404 || err != nil {
		x.bad("ephemeral", "a process without a snapshot path knows a task: %d %v", c, err)
	}
	s.do("POST", "/topics/s/tasks/three", `{}`)
	time.Sleep(50 * time.Millisecond)
	x.stop(s)
	if a := ls(x.dir); a != before {
		x.bad("ephemeral", "a process without a snapshot path left %s, before: %s", a, before)
	}
}

func ls(dir string) string {
	es, _ := os.ReadDir(dir)
	var l []string
	for _, e := range es {
		l = append(l, e.Name())
	}
	return strings.Join(l, " ")
}

// invalid starts processes that have to refuse.
func invalid(x *world) {
	p := strconv.Itoa(x.port())
	b := x.host()
	busy, err := net.Listen("tcp", b+":0")
	if err != nil {
		x.t.Fatal(err)
	}
	defer busy.Close()
	_, bp, _ := net.SplitHostPort(busy.Addr().String())
	for _, set := range [][]string{
		{"port=" + bp, "bind=" + b}, {"port=" + bp, "bind=" + b, "chore-interval=1ms"},
		{"port=abc"}, {"port=-1"}, {"port=70000", "bind=" + b}, {"port=" + p, "bind=999.1.1.1"}, {"port=" + p, "bind=no such host"},
		{"port=" + p, "bind=" + b, "engine=nosuch"}, {"port=" + p, "bind=" + b, "engine=redis"}, {"port=" + p, "bind=" + b, "chore-interval=soon"}, {"port=" + p, "bind=" + b, "chore-interval=5"},
		{"port=" + p, "bind=" + b, "memdb-snapshot-interval=x"}, {"port=" + p, "bind=" + b, "memdb-retention-period=3d"}, {"port=" + p, "bind=" + b, "pagination-max-limit=many"},
		{"port=" + p, "bind=" + b, "engine=mongodb", "mongodb-uri=nonsense"}, {"port=" + p, "bind=" + b, "chore-initial-delay=later"},
	} {
		s := x.start(set...)
		c := s.exited()
		if c <= 0 {
			x.bad("accepted", "the process started with %v, or ended with %d: %s", set, c, tail(s.out.String()))
			s.kill()
			return
		}
		x.noPanic(s)
		x.r.Ev("refused")
		x.r.Seen("invalid", strings.ReplaceAll(strings.ReplaceAll(fmt.Sprint(set), p, "P"), bp, "B"))
	}
	s := x.run(nil, "--no-such-flag", "1")
	if c := s.exited(); c <= 0 {
		x.bad("accepted", "the process accepted an unknown flag: %d", c)
		s.kill()
	}
}

// unreadable starts processes on snapshots that can not be read.
func unreadable(x *world) {
	write(x.t, x.snap(), sample())
	good, _ := os.ReadFile(x.snap())
	for k, b := range [][]byte{[]byte("garbage garbage garbage garbage"), []byte("{\"data\":[]}"), good[:len(good)-1-x.rnd.IntN(3)], append([]byte{1, 2, 3}, good...), good[1+x.rnd.IntN(5):], nil} {
		os.RemoveAll(x.snap())
		if b == nil {
			os.MkdirAll(filepath.Join(x.snap(), "sub"), 0o755)
		} else {
			os.WriteFile(x.snap(), b, 0o644)
		}
		host, port := x.host(), x.port()
		s := x.start("bind="+host, fmt.Sprintf("port=%d", port), "memdb-snapshot-path="+x.snap(), "memdb-snapshot-interval=0s", "chore-interval=1ms")
		s.addr = fmt.Sprintf("%s:%d", host, port)
		c := s.exited()
		if c <= 0 {
			x.bad("accepted", "the process started with an unreadable snapshot (%d), or ended with %d: %s", k, c, tail(s.out.String()))
			s.kill()
			return
		}
		x.noPanic(s)
		if b != nil {
			if a, err := os.ReadFile(x.snap()); err != nil || string(a) != string(b) {
				x.bad("overwritten", "the unreadable snapshot (%d) was changed: %v", k, err)
			}
		}
		x.r.Ev("refused")
		x.r.Seen("unreadable", k)
	}
	// It can not be opened or read at all.
	os.RemoveAll(x.snap())
	os.Symlink(x.snap(), x.snap())
	s := x.start("port=0", "memdb-snapshot-path="+x.snap(), "chore-interval=1h")
	if c := s.exited(); c <= 0 {
		x.bad("accepted", "the process started with a snapshot that is a link to itself, or ended with %d: %s", c, tail(s.out.String()))
		s.kill()
		return
	}
	os.RemoveAll(x.snap())
	os.WriteFile(x.snap(), good, 0o644)
	for _, f := range []string{"openat:error=EACCES", "openat:error=EIO", "openat:error=EPERM", "openat:error=EMFILE", "read:error=EIO"} {
		log := filepath.Join(x.dir, "strace.log")
		s := x.exec("/usr/bin/strace", []string{"GOMAXPROCS=1"}, "-D", "-f", "-o", log, "-P", x.snap(), "-e", "trace=openat,read", "-e", "inject="+f, "-e", "signal=!SIGURG",
			bin(), "--port=0", "--memdb-snapshot-path="+x.snap(), "--chore-interval=1h")
		up := false
		ended := eventually(10*time.Second, func() bool {
			select {
			case <-s.done:
				return true
			default:
			}
			up = strings.Contains(s.out.String(), "start running")
			return up
		})
		b, _ := os.ReadFile(log)
		hit := strings.Contains(string(b), "INJECTED")
		if hit && up {
			x.bad("accepted", "the process started although its snapshot could not be read (%s): %s", f, tail(s.out.String()))
			s.kill()
			return
		}
		if !ended || !hit {
			x.r.Ev("no_fault_injected")
			s.kill()
			continue
		}
		if c := s.exited(); c <= 0 {
			x.bad("accepted", "the process ended with %d although its snapshot could not be read (%s): %s", c, f, tail(s.out.String()))
			return
		}
		if a, err := os.ReadFile(x.snap()); err != nil || string(a) != string(good) {
			x.bad("overwritten", "the snapshot that could not be read (%s) was changed: %v", f, err)
			return
		}
		x.r.Ev("refused")
		x.r.Seen("unreadable", f)
	}
	// A missing file means an empty store.
	os.RemoveAll(x.snap())
	s = x.serve("memdb-snapshot-path=" + x.snap())
	if s == nil {
		return
	}
	if c, b, err := s.do("GET", "/topics", ""); c != 200 || string(b) != `{"data":[]}` || err != nil {
		x.bad("empty", "a process without a snapshot has topics: %d %s %v", c, b, err)
	}
	x.stop(s)
	if _, err := load(x.snap()); err != nil {
		x.bad("empty", "the snapshot of an empty store can not be loaded: %v", err)
	}
}

// final makes the final snapshot impossible.
func final(x *world) {
	d := filepath.Join(x.dir, "d")
	os.Mkdir(d, 0o755)
	path := filepath.Join(d, "snap.db")
	set := []string{"memdb-snapshot-path=" + path, "memdb-snapshot-interval=" + h.Pick(x.rnd, []string{"1h", "0s"}), "chore-interval=" + h.Pick(x.rnd, []string{"1h", "10ms", "0s"})}
	s := x.serve(set...)
	if s == nil {
		return
	}
	s.do("POST", "/topics/s/tasks/one", `{}`)
	// Let a first periodic snapshot pass.
	time.Sleep(30 * time.Millisecond)
	os.Rename(d, d+".away")
	os.RemoveAll(d)
	if c, _, err := s.do("POST", "/topics/s/tasks/two", `{}`); c != 201 || err != nil {
		x.bad("alive", "the process does not work while its snapshots fail: %d %v", c, err)
	}
	time.Sleep(30 * time.Millisecond)
	back := x.rnd.IntN(2) == 0
	if back {
		os.Mkdir(d, 0o755)
	}
	s.hc.CloseIdleConnections()
	s.signal(syscall.SIGTERM)
	c := s.exited()
	x.noPanic(s)
	x.r.Seen("final", set[1:], back, c)
	if !back {
		if c <= 0 {
			x.bad("unreported", "the process ended with %d although its final snapshot could not be written: %s", c, tail(s.out.String()))
		}
		return
	}
	if c != 0 {
		x.bad("exit", "the process ended with %d although its final snapshot could be written: %s", c, tail(s.out.String()))
	}
	if m, err := load(path); err != nil || len(m) != 2 {
		x.bad("final", "the final snapshot holds %d tasks instead of 2 (%v)", len(m), err)
	}
}

// serverless runs background jobs only.
func serverless(x *world) {
	write(x.t, x.snap(), sample())
	s := x.start("port=0", "chore-interval=20ms", "memdb-snapshot-interval=0s", "memdb-snapshot-path="+x.snap())
	done := func() bool {
		m, err := load(x.snap())
		return err == nil && m["late"] != nil && m["late"].State == ratus.TaskStatePending
	}
	if !eventually(patience, done) {
		x.bad("chore", "no maintenance ran without a server: %s", tail(s.out.String()))
		return
	}
	if fds, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", s.cmd.Process.Pid)); err == nil {
		for _, fd := range fds {
			if l, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", s.cmd.Process.Pid, fd.Name())); strings.HasPrefix(l, "socket:") {
				x.bad("socket", "the process has a socket with port 0")
			}
		}
	}
	x.r.Seen("serverless")
	x.stop(s)
	if !done() {
		x.bad("final", "the final snapshot does not hold the recovered task")
	}
}

// hasty signals a process as soon as it answers, or exits, at odd moments.
func hasty(x *world) {
	for k := 0; k < 4; k++ {
		s := x.serve("memdb-snapshot-path="+x.snap(), "memdb-snapshot-interval=0s", "chore-interval=1ms", "chore-initial-delay="+h.Pick(x.rnd, []string{"0s", "2ms", "1h"}))
		if s == nil {
			return
		}
		id := fmt.Sprintf("k%d", k)
		c, _, err := s.do("POST", "/topics/k/tasks/"+id, `{}`)
		if c != 201 || err != nil {
			x.bad("insert", "%d %v", c, err)
		}
		time.Sleep(time.Duration(x.rnd.IntN(3000)) * time.Microsecond)
		x.stop(s)
		m, err := load(x.snap())
		for j := 0; j <= k; j++ {
			if m[fmt.Sprintf("k%d", j)] == nil {
				x.bad("lost", "the task of start %d is missing after %d restarts (%v)", j, k+1, err)
			}
		}
		x.r.Ev("graceful_stops")
	}
	x.r.Seen("hasty", x.i)
}

// random checks that the initial delay is random, and within its range.
func random(x *world) {
	// Of many processes, not all wait for as long as they may.
	runs := func(s *srv) bool { return strings.Contains(s.out.String(), "start running") }
	var l []*srv
	for i := 0; i < 16; i++ {
		l = append(l, x.start("port=0", "chore-interval=1h", "chore-initial-delay=20s", "chore-initial-random=true"))
	}
	t0 := l[0].born
	if !eventually(patience, func() bool {
		for _, s := range l {
			if runs(s) {
				return true
			}
		}
		return false
	}) || time.Since(t0) > 19*time.Second {
		x.bad("not random", "of %d processes with a random initial delay of up to 20s, the first one runs maintenance after %v", len(l), time.Since(t0))
	}
	n := 0
	for _, s := range l {
		if runs(s) {
			n++
		}
	}
	if e := time.Since(t0); n == len(l) && e < 10*time.Second {
		x.bad("no delay", "all of %d processes with a random initial delay of up to 20s run maintenance after %v", len(l), e)
	}
	for _, s := range l {
		s.kill()
	}
	// None of them exceeds its range by much on a machine that keeps up.
	l = nil
	for i := 0; i < 12; i++ {
		l = append(l, x.start("port=0", "chore-interval=1h", "chore-initial-delay=3s", "chore-initial-random=true"))
	}
	late := time.Duration(0)
	for time.Since(t0) < 10*patience {
		n := 0
		for _, s := range l {
			if runs(s) {
				n++
			}
		}
		if n == len(l) {
			break
		}
		a := time.Now()
		time.Sleep(5 * time.Millisecond)
		late = max(late, time.Since(a)-5*time.Millisecond)
		if e := time.Since(l[len(l)-1].born); e > 5*time.Second && late < 100*time.Millisecond || e > patience {
			x.bad("range", "maintenance has not started in %d of %d processes %v after the start with a random initial delay of up to 3s", len(l)-n, len(l), e)
			break
		}
	}
	x.r.Seen("random", n)
	for _, s := range l {
		s.kill()
	}
}

func init() {
	h.Register("C21", runCases("C21", 176, 21, []scenario{
		{"graceful", 5, graceful}, {"inflight", 4, inflight}, {"stalled", 1, stalled}, {"address", 1, address}, {"chores", 4, chores}, {"pages", 1, pages},
		{"snapshots", 2, snapshots}, {"invalid", 1, invalid}, {"unreadable", 1, unreadable}, {"final", 2, final}, {"serverless", 1, serverless}, {"hasty", 1, hasty}, {"database", 4, database}, {"random", 1, random},
	}))
}
