package proc

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/hyperonym/ratus"

	"github.com/hyperonym/ratus/verif/h"
)

// lull is how long slow clients take.
func (x *world) lull() time.Duration {
	if x.p.Scale > 1000 {
		return h.Pick(x.rnd, []time.Duration{12 * time.Second, 35 * time.Second, 65 * time.Second})
	}
	switch x.i {
	case 1:
		return 35 * time.Second
	case 2:
		return 62 * time.Second
	}
	return 12 * time.Second
}

// long sends long names, queries and headers. Up to 1 MB in all is accepted
// by servers of the standard library.
func long(x *world, s *srv) {
	for k := 0; k < 6; k++ {
		pick := func() string {
			return strings.Repeat(fmt.Sprintf("%x", x.rnd.Uint64()), 1+h.Pick(x.rnd, []int{0, 100, 300, 700, 3000, 9000}))
		}
		topic, id := pick(), pick()
		body := h.Pick(x.rnd, []string{`{}`, `{"payload":1}`, `{"producer":"` + pick() + `"}`})
		for _, c := range []struct {
			method, path, body string
			code               int
		}{
			{"POST", "/v1/topics/" + topic + "/tasks/" + id, body, 201},
			{"GET", "/topics/" + topic + "/tasks/" + id, "", 200},
			{"GET", "/v1/topics/" + topic, "", 200},
			{"POST", "/topics/" + topic + "/promises?consumer=" + pick(), "", 200},
			{"GET", "/topics/" + topic + "/promises/" + id, "", 200},
			{"DELETE", "/v1/topics/" + topic + "/tasks/" + id, "", 200},
			{"GET", "/topics/" + topic + "/tasks/" + id, "", 404},
		} {
			q, err := http.NewRequest(c.method, "http://"+s.addr+c.path, strings.NewReader(c.body))
			if err != nil {
				x.t.Fatal(err)
			}
			pad := pick()
			q.Header.Set("X-Pad", pad)
			res, err := s.hc.Do(q)
			if err != nil {
				x.bad("long", "%s with a topic of %d, an ID of %d and a header of %d characters got no response: %v", c.method, len(topic), len(id), len(pad), tail(err.Error()))
				return
			}
			b, err := io.ReadAll(res.Body)
			res.Body.Close()
			if res.StatusCode != c.code || err != nil || !json.Valid(b) {
				x.bad("long", "%s with a topic of %d, an ID of %d and a header of %d characters was answered with %d instead of %d: %s %v", c.method, len(topic), len(id), len(pad), res.StatusCode, c.code, tail(string(b)), err)
				return
			}
			x.r.Ev("long_requests")
		}
	}
}

// dial opens a connection for one raw request.
func (x *world) dial(s *srv) net.Conn {
	c, err := net.DialTimeout("tcp", s.addr, patience)
	if err != nil {
		x.bad("dial", "%v", err)
		return nil
	}
	c.SetDeadline(time.Now().Add(2 * patience))
	return c
}

// complete reads one response and checks that it is whole.
func (x *world) complete(what string, br *bufio.Reader, code int, v any) bool {
	res, err := http.ReadResponse(br, nil)
	if err != nil {
		x.bad("dropped", "%s got no response: %v", what, err)
		return false
	}
	b, err := io.ReadAll(res.Body)
	if err != nil {
		x.bad("incomplete", "%s got an incomplete response of status %d with %d bytes: %v", what, res.StatusCode, len(b), err)
		return false
	}
	if res.StatusCode != code {
		x.bad("status", "%s was answered with %d instead of %d: %s", what, res.StatusCode, code, tail(string(b)))
		return false
	}
	if err := json.Unmarshal(b, v); err != nil {
		x.bad("body", "%s was answered with %s: %v", what, tail(string(b)), err)
		return false
	}
	x.r.Ev("complete_responses")
	return true
}

// slow sends requests and reads responses slowly.
func slow(x *world) {
	s := x.serve("pagination-max-limit=1000")
	if s == nil {
		return
	}
	lull := x.lull()
	pad := strings.Repeat("0123456789abcdef", 512<<10/16)
	for i := 0; i < 32; i++ {
		if c, b, err := s.do("POST", fmt.Sprintf("/v1/topics/l/tasks/%d", i), `{"payload":"`+pad+`"}`); c != 201 || err != nil {
			x.bad("insert", "%d %s %v", c, b, err)
			return
		}
	}
	done := make(chan bool, 3)
	// A body in pieces.
	go func() {
		defer func() { done <- true }()
		c := x.dial(s)
		if c == nil {
			return
		}
		defer c.Close()
		body := `{"payload":"` + strings.Repeat("y", 1200) + `"}`
		fmt.Fprintf(c, "POST /v1/topics/s/tasks/pieces HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n", len(body))
		for i := 0; i < 12; i++ {
			fmt.Fprint(c, body[:len(body)/12])
			body = body[len(body)/12:]
			if i == 11 {
				fmt.Fprint(c, body)
			}
			time.Sleep(lull / 12)
		}
		var v ratus.Updated
		x.complete(fmt.Sprintf("a request whose body took %v", lull), bufio.NewReader(c), 201, &v)
	}()
	// A pause within the body.
	go func() {
		defer func() { done <- true }()
		c := x.dial(s)
		if c == nil {
			return
		}
		defer c.Close()
		fmt.Fprintf(c, "PUT /topics/s/tasks HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n8\r\n{\"data\":\r\n")
		time.Sleep(lull)
		fmt.Fprintf(c, "e\r\n[{\"_id\":\"p\"}]}\r\n0\r\n\r\n")
		var v ratus.Updated
		if x.complete(fmt.Sprintf("a request with a pause of %v", lull), bufio.NewReader(c), 201, &v) && v.Created != 1 {
			x.bad("body", "a batch of one new task created %d", v.Created)
		}
	}()
	// A response read slowly.
	go func() {
		defer func() { done <- true }()
		c := x.dial(s)
		if c == nil {
			return
		}
		defer c.Close()
		c.(*net.TCPConn).SetReadBuffer(64 << 10)
		fmt.Fprintf(c, "GET /v1/topics/l/tasks?limit=1000 HTTP/1.1\r\nHost: x\r\n\r\n")
		var v ratus.Tasks
		if x.complete(fmt.Sprintf("a response read within %v", lull), bufio.NewReader(&brake{c: c, per: lull / 12}), 200, &v) {
			n := 0
			for _, k := range v.Data {
				if p, _ := k.Payload.(string); p == pad {
					n++
				}
			}
			if n != 32 {
				x.bad("body", "a response read slowly holds %d of 32 tasks", n)
			}
		}
	}()
	long(x, s)
	for i := 0; i < 3; {
		select {
		case <-done:
			i++
		case <-time.After(patience):
			h.Alive()
		}
	}
	for _, id := range []string{"pieces", "p"} {
		if c, _, err := s.do("GET", "/topics/s/tasks/"+id, ""); c != 200 || err != nil {
			x.bad("lost", "a task that was sent slowly is answered with %d %v", c, err)
		}
	}
	x.r.Seen("slow", x.i, lull)
	x.stop(s)
}

// brake reads a megabyte and a half at a time, with pauses.
type brake struct {
	c   net.Conn
	per time.Duration
	n   int
}

func (b *brake) Read(p []byte) (int, error) {
	if b.n > 1500<<10 {
		b.n = 0
		time.Sleep(b.per)
	}
	n, err := b.c.Read(p)
	b.n += n
	return n, err
}

// large sends and reads bodies of tens of megabytes.
func large(x *world) {
	s := x.serve("memdb-snapshot-path="+x.snap(), "chore-interval=1h")
	if s == nil {
		return
	}
	n := (20 + x.rnd.IntN(50)) << 20
	if x.rnd.IntN(3) == 0 {
		n = (1 + x.rnd.IntN(20)) << 20
	}
	unit := fmt.Sprintf("%x", x.rnd.Uint64())
	pay := strings.Repeat(unit, n/len(unit))
	if x.rnd.IntN(2) == 0 {
		if c, b, err := s.do("POST", "/v1/topics/l/tasks/x", `{"payload":"`+pay+`"}`); c != 201 || err != nil {
			x.bad("large", "a task of %d bytes was answered with %d %s %v", n, c, tail(string(b)), err)
			return
		}
	} else {
		var sb strings.Builder
		m := 50000
		for i := 0; i < m; i++ {
			fmt.Fprintf(&sb, `,{"_id":"t%d","payload":"%s"}`, i, pay[:(n/m)/len(unit)*len(unit)])
		}
		c, b, err := s.do("PUT", "/v1/topics/m/tasks", `{"data":[`+sb.String()[1:]+`]}`)
		var v ratus.Updated
		json.Unmarshal(b, &v)
		if c != 201 || err != nil || v.Created != int64(m) {
			x.bad("large", "a batch of %d tasks and %d bytes was answered with %d %s %v", m, n, c, tail(string(b)), err)
			return
		}
		pay = ""
	}
	x.r.Seen("large", n, pay == "")
	x.r.Ev("large_bodies")
	check := func(what string) {
		if pay == "" {
			var v ratus.Topic
			c, b, err := s.do("GET", "/topics/m", "")
			json.Unmarshal(b, &v)
			if c != 200 || err != nil || v.Count != 50000 {
				x.bad("large", "%s, a topic of 50000 tasks is answered with %d %s %v", what, c, tail(string(b)), err)
			}
			return
		}
		c, b, err := s.do("GET", "/topics/l/tasks/x", "")
		var k ratus.Task
		json.Unmarshal(b, &k)
		if p, _ := k.Payload.(string); c != 200 || err != nil || p != pay {
			x.bad("large", "%s, a task with a payload of %d bytes is answered with %d, %d bytes, %v", what, len(pay), c, len(b), err)
		}
	}
	check("after writing")
	x.stop(s)
	if x.viol {
		return
	}
	if s = x.serve("memdb-snapshot-path="+x.snap(), "chore-interval=1h"); s == nil {
		return
	}
	check("after a restart")
	x.stop(s)
}

func init() {
	h.Register("C15", runCases("C15", 24, 15, []scenario{{"slow", 1, slow}, {"large", 2, large}}))
}
