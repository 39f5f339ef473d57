package proc

import (
	"fmt"
	"net/url"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/hyperonym/ratus/verif/h"
)

// raced puts a process built with the race detector under load, scrapes it,
// lets it maintain and save itself at once and ends it at a random moment. The
// runner collects the reports of the detector.
func raced(x *world) {
	x.prog = os.Getenv("VERIF_SERVER_RACE")
	if x.prog == "" {
		x.t.Fatal("VERIF_SERVER_RACE is not set")
	}
	x.env = []string{"GORACE=" + os.Getenv("GORACE")}
	s := x.serve("memdb-snapshot-path="+x.snap(), "memdb-snapshot-interval="+h.Pick(x.rnd, []string{"0s", "1ms", "1h"}), "chore-interval="+h.Pick(x.rnd, []string{"1ms", "5ms"}),
		"memdb-retention-period="+h.Pick(x.rnd, []string{"0s", "5ms", "1h"}))
	if s == nil {
		return
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	counts := make([]int, 6)
	for k := range counts {
		rnd := h.NewRand(x.p.Seed, 2210, x.i, uint64(k))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				id, tp := fmt.Sprint(rnd.IntN(5)), fmt.Sprintf("t%d", rnd.IntN(2))
				one := "/v1/topics/" + tp + "/tasks/" + id
				all := "/v1/topics/" + tp + "/tasks"
				pr := "/v1/topics/" + tp + "/promises"
				var err error
				switch rnd.IntN(14) {
				case 0, 1:
					_, _, err = s.do("PUT", one, `{"payload":{"a":[1,2]}}`)
				case 2:
					_, _, err = s.do("POST", all, `{"data":[{"_id":"a","topic":"t0"},{"_id":"b","topic":"t1","state":2}]}`)
				case 3, 4:
					_, _, err = s.do("POST", pr, `{"timeout":"`+h.Pick(rnd, []string{"1ms", "1h"})+`"}`)
				case 5:
					_, _, err = s.do("PATCH", one, `{"state":`+fmt.Sprint(rnd.IntN(4))+`,"payload":1}`)
				case 6:
					_, _, err = s.do("DELETE", pr, "")
				case 7:
					_, _, err = s.do("DELETE", one, "")
				case 8:
					_, _, err = s.do("PUT", pr+"/"+id, `{"deadline":"`+url.QueryEscape("2000-01-01T00:00:00Z")+`"}`)
				case 9:
					_, _, err = s.do("GET", "/metrics", "")
				case 10:
					_, _, err = s.do("GET", all, "")
				case 11:
					_, _, err = s.do("GET", pr, "")
				case 12:
					_, _, err = s.do("GET", "/v1/topics", "")
				default:
					_, _, err = s.do("GET", "/v1/readyz", "")
				}
				if err != nil {
					return
				}
				counts[k]++
			}
		}()
	}
	time.Sleep(time.Duration(100+x.rnd.IntN(400)) * time.Millisecond)
	s.signal(syscall.SIGTERM)
	if x.rnd.IntN(2) == 0 {
		s.signal(syscall.SIGINT)
	}
	c := s.exited()
	close(stop)
	s.hc.CloseIdleConnections()
	wg.Wait()
	if c != 0 {
		x.bad("exit", "the process ended with %d after a termination signal: %s", c, tail(s.out.String()))
	}
	o := s.out.String()
	if strings.Contains(o, "panic:") || strings.Contains(o, "fatal error:") {
		x.bad("crash", "the process crashed: %s", tail(o))
	}
	n := 0
	for _, k := range counts {
		n += k
	}
	x.r.Ev("process_requests", n)
	x.r.Seen("process", n)
}

func init() { h.Register("C22", runCases("C22", 40, 22, []scenario{{"raced", 1, raced}})) }
