// Package proc runs the monitors that observe the real process.
package proc

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"

	"github.com/hyperonym/ratus/verif/h"
)

// TestCheck runs the check named by the environment.
func TestCheck(t *testing.T) { h.RunChecks(t) }

// patience bounds how long anything that has to happen may take. It is far
// beyond what an unloaded machine needs.
const patience = 60 * time.Second

// out collects the output of a process.
type out struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (o *out) Write(b []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.Write(b)
}

func (o *out) String() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.String()
}

// srv is a running server process.
type srv struct {
	cmd   *exec.Cmd
	addr  string
	out   *out
	done  chan struct{}
	hc    *http.Client
	born  time.Time
	state *os.ProcessState
	stuck atomic.Bool // a request was not answered for a minute
}

// world is the context of one case.
type world struct {
	t    *testing.T
	p    *h.Params
	r    *h.Report
	i    uint64
	rnd  *rand.Rand
	dir  string
	n    int
	what string
	prop string
	srvs []*srv
	viol bool
	prog string
	env  []string
}

func (x *world) bad(sig, f string, a ...any) {
	x.viol = true
	var tr []string
	for _, s := range x.srvs {
		o := s.out.String()
		if len(o) > 3000 {
			o = o[:1500] + "\n...\n" + o[len(o)-1500:]
		}
		tr = append(tr, strings.Join(s.cmd.Args, " ")+" "+strings.Join(s.cmd.Env, " ")+"\n"+o)
	}
	x.r.Violate(&h.Violation{Props: []string{x.prop}, Sig: x.what + ":" + sig, Msg: fmt.Sprintf(f, a...), Case: fmt.Sprintf("proc case=%d", x.i), Trace: tr})
}

// host returns a loopback address nothing else uses.
// host and port differ between the processes of concurrent runs, so that no
// server answers for another.
func (x *world) host() string {
	x.n++
	return fmt.Sprintf("127.%d.%d.%d", 10+x.p.Shard, x.i%250+1, os.Getpid()%250+1)
}

func (x *world) port() int { return 20000 + (x.rnd.IntN(12000)+os.Getpid()*7)%12000 }

func bin() string { return os.Getenv("VERIF_SERVER") }

// start runs the server. Settings are name=value pairs given by flag or by
// environment variable at random.
func (x *world) start(settings ...string) *srv {
	var args, env []string
	for _, s := range settings {
		k := strings.IndexByte(s, '=')
		name, v := s[:k], s[k+1:]
		e := strings.ToUpper(strings.ReplaceAll(name, "-", "_")) + "="
		if name == "memdb-snapshot-path" && x.i%3 == 0 {
			// The working directory is the one of the case.
			v = strings.TrimPrefix(v, x.dir+"/")
			x.r.Ev("relative_snapshot_paths")
		}
		n := x.rnd.IntN(5)
		if v == "true" && n > 0 {
			n = 4
		}
		switch {
		case n == 0:
			args = append(args, "--"+name+"="+v)
		case n == 1:
			args = append(args, "--"+name, v)
		case n == 2:
			// The flag takes precedence.
			o := map[string]string{"port": "1", "bind": "127.0.0.250", "engine": "nosuch", "memdb-snapshot-path": "/nonexistent/x/y"}[name]
			if o == "" {
				o = v
			}
			args = append(args, "--"+name, v)
			env = append(env, e+o)
		case n == 3 && name == "port":
			args = append(args, "-p", v)
		case n == 3 && name == "bind":
			args = append(args, "-b", v)
		default:
			env = append(env, e+v)
		}
	}
	return x.run(env, args...)
}

// run starts the server with exactly these arguments.
func (x *world) run(env []string, args ...string) *srv {
	if x.prog != "" {
		return x.exec(x.prog, append(env, x.env...), args...)
	}
	return x.exec(bin(), env, args...)
}

func (x *world) exec(prog string, env []string, args ...string) *srv {
	s := &srv{cmd: exec.Command(prog, args...), out: &out{}, done: make(chan struct{}), born: time.Now()}
	s.cmd.Dir = x.dir
	s.cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + x.dir, "GIN_MODE=release", "TZ=UTC", "TMPDIR=" + filepath.Join(x.dir, "no-temporary-directory")}, env...)
	s.cmd.Stdout, s.cmd.Stderr = s.out, s.out
	s.cmd.WaitDelay = 5 * time.Second
	s.hc = &http.Client{Timeout: patience, Transport: &http.Transport{MaxIdleConnsPerHost: 100, DisableCompression: true}}
	if err := s.cmd.Start(); err != nil {
		x.t.Fatal(err)
	}
	go func() {
		s.cmd.Wait()
		s.state = s.cmd.ProcessState
		close(s.done)
	}()
	x.srvs = append(x.srvs, s)
	x.r.Ev("processes")
	h.Alive()
	return s
}

// serve starts a server with an address and waits until it answers.
func (x *world) serve(settings ...string) *srv {
	for try := 0; ; try++ {
		host, port := x.host(), x.port()
		s := x.start(append([]string{"bind=" + host, fmt.Sprintf("port=%d", port)}, settings...)...)
		s.addr = fmt.Sprintf("%s:%d", host, port)
		if x.ready(s) {
			return s
		}
		if strings.Contains(s.out.String(), "address already in use") && try < 5 {
			continue
		}
		x.bad("start", "the server did not start with %v: %s", settings, tail(s.out.String()))
		s.kill()
		return nil
	}
}

func tail(s string) string {
	if len(s) > 400 {
		s = s[len(s)-400:]
	}
	return fmt.Sprintf("%q", s)
}

func (x *world) ready(s *srv) bool {
	for time.Since(s.born) < patience {
		select {
		case <-s.done:
			return false
		default:
		}
		if c, _, err := s.do("GET", "/v1/readyz", ""); err == nil && c == 200 {
			return true
		}
		time.Sleep(3 * time.Millisecond)
	}
	return false
}

// do sends one request.
func (s *srv) do(method, path, body string) (int, []byte, error) {
	q, err := http.NewRequest(method, "http://"+s.addr+path, strings.NewReader(body))
	if err != nil {
		return 0, nil, err
	}
	t0 := time.Now()
	defer func() {
		if time.Since(t0) > patience/2 {
			h.Alive()
			s.stuck.Store(s.stuck.Load() || time.Since(t0) >= patience)
		}
	}()
	if s.stuck.Load() {
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		defer cancel()
		q = q.WithContext(ctx)
	}
	res, err := s.hc.Do(q)
	if err != nil {
		return 0, nil, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	return res.StatusCode, b, err
}

func (s *srv) signal(sig syscall.Signal) { s.cmd.Process.Signal(sig) }

// exited waits for the end of the process and returns its exit code, -1 if
// it was ended by a signal and -2 if it did not end.
func (s *srv) exited() int {
	defer h.Alive()
	select {
	case <-s.done:
		return s.state.ExitCode()
	case <-time.After(patience):
		return -2
	}
}

func (s *srv) kill() {
	s.cmd.Process.Kill()
	<-s.done
	s.hc.CloseIdleConnections()
}

// stop ends a server gracefully.
func (x *world) stop(s *srv) {
	s.hc.CloseIdleConnections()
	s.signal(h.Pick(x.rnd, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}))
	if c := s.exited(); c != 0 {
		x.bad("exit", "the process ended with %d after a termination signal: %s", c, tail(s.out.String()))
		s.kill()
	}
	x.noPanic(s)
}

func (x *world) noPanic(s *srv) {
	o := s.out.String()
	for _, k := range []string{"panic:", "fatal error:", "DATA RACE"} {
		if strings.Contains(o, k) {
			x.bad("crash", "the process crashed: %s", tail(o[strings.Index(o, k):]))
		}
	}
}

// cleanup ends whatever is still running.
func (x *world) cleanup() {
	for _, s := range x.srvs {
		s.kill()
	}
	os.RemoveAll(x.dir)
}

// runCases runs n cases, each one scenario.
func runCases(id string, n int, salt uint64, list []scenario) h.Check {
	return func(t *testing.T, p *h.Params, r *h.Report) {
		if bin() == "" {
			t.Fatal("VERIF_SERVER is not set")
		}
		base := t.TempDir()
		total, broken := 0, 0
		for _, s := range list {
			total += s.weight
		}
		for _, i := range p.Cases(n) {
			// Every scenario is visited in turn, weighted.
			k := int((i / uint64(p.Shards)) * 7 % uint64(total))
			if p.Only != "" {
				k = int((i / uint64(8)) * 7 % uint64(total))
			}
			k = (k + int(i%8)*total/8) % total
			var sc scenario
			for _, s := range list {
				if k -= s.weight; k < 0 {
					sc = s
					break
				}
			}
			h.Beat("proc case=%d %s", i, sc.name)
			x := &world{t: t, p: p, r: r, i: i, rnd: h.NewRand(p.Seed, salt, i), dir: filepath.Join(base, fmt.Sprint(i)), what: sc.name, prop: id}
			if err := os.MkdirAll(x.dir, 0o755); err != nil {
				t.Fatal(err)
			}
			r.Eval(1)
			r.Ev("scenario:" + sc.name)
			sc.f(x)
			x.cleanup()
			// Every violation may cost minutes.
			if x.viol {
				if broken++; broken == 3 {
					break
				}
			}
		}
	}
}

type scenario struct {
	name   string
	weight int
	f      func(x *world)
}

// load reads a snapshot with the real loader and returns its tasks by ID.
func load(path string) (map[string]*ratus.Task, error) {
	ctx := context.Background()
	g, err := memdb.New(&memdb.Config{SnapshotPath: path, SnapshotInterval: time.Hour, RetentionPeriod: time.Hour})
	if err != nil {
		return nil, err
	}
	if err := g.Open(ctx); err != nil {
		return nil, err
	}
	ts, err := g.ListTopics(ctx, 1<<30, 0)
	if err != nil {
		return nil, err
	}
	m := map[string]*ratus.Task{}
	for _, t := range ts {
		l, err := g.ListTasks(ctx, t.Name, 1<<30, 0)
		if err != nil {
			return nil, err
		}
		for _, k := range l {
			m[k.ID] = k
		}
	}
	return m, nil
}

// write creates a snapshot with the real writer.
func write(t *testing.T, path string, ts []*ratus.Task) {
	ctx := context.Background()
	g, err := memdb.New(&memdb.Config{SnapshotPath: path, SnapshotInterval: time.Hour, RetentionPeriod: time.Hour})
	if err != nil {
		t.Fatal(err)
	}
	if err := g.Open(ctx); err != nil {
		t.Fatal(err)
	}
	if _, err := g.UpsertTasks(ctx, ts); err != nil {
		t.Fatal(err)
	}
	if err := g.Close(ctx); err != nil {
		t.Fatal(err)
	}
}

func render(k *ratus.Task) string {
	if k == nil {
		return "nothing"
	}
	b, err := json.Marshal(k)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// eventually polls a condition until it holds or patience is exhausted.
func eventually(d time.Duration, f func() bool) bool {
	defer h.Alive()
	for end := time.Now().Add(d); ; {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// refused tells whether nothing listens on an address.
func refused(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, time.Second)
	if err != nil {
		return true
	}
	c.Close()
	return false
}
