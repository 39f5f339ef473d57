package core

import (
	"context"
	"fmt"
	"math/rand/v2"
	"net/http"
	"sync"
	"testing"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine/memdb"

	"github.com/hyperonym/ratus/verif/h"
)

// runTokens claims a few tasks over and over, from several goroutines of every
// process, and collects the tokens. The runner compares them across processes.
func runTokens(t *testing.T, p *h.Params, r *h.Report) {
	if p.Only != "" {
		return
	}
	g, err := memdb.New(&memdb.Config{RetentionPeriod: time.Hour})
	if err != nil {
		t.Fatal(err)
	}
	if err := g.Open(context.Background()); err != nil {
		t.Fatal(err)
	}
	hd := h.Handler(g, &config.PaginationConfig{MaxLimit: 10, MaxOffset: 10})
	bad := func(sig, f string, a ...any) {
		r.Violate(&h.Violation{Props: []string{"C03"}, Sig: sig, Msg: fmt.Sprintf(f, a...)})
	}
	const crew = 3
	n := 20000 * min(p.Scale, 500) / 100 / crew
	var wg sync.WaitGroup
	for w := 0; w < crew; w++ {
		rnd := h.NewRand(p.Seed, 310, uint64(p.Shard), uint64(w))
		wg.Add(1)
		go func() {
			defer wg.Done()
			topic := fmt.Sprintf("/v1/topics/t%d", w)
			id := fmt.Sprintf("x%d", w)
			if o := h.Serve(hd, "POST", topic+"/tasks/"+id, []byte(`{"scheduled":"2000-01-01T00:00:00Z"}`), nil); o.Code != 201 {
				bad("tokens:insert", "inserting a task is answered with %d", o.Code)
				return
			}
			prev, up, seen := "", 0, 0
			for k := 0; k < n; k++ {
				if k%1000 == 0 {
					h.Beat("tokens shard=%d %d", p.Shard, k)
				}
				body := []byte(h.Pick(rnd, []string{`{}`, `{"consumer":"c"}`, `{"consumer":"d","timeout":"1s"}`}))
				var o *h.Outcome
				switch c := rnd.IntN(3); {
				case c == 0 || k == 0:
					o = h.Serve(hd, "PUT", topic+"/promises/"+id, body, nil)
				case c == 1:
					release(hd, rnd, topic, id, prev)
					o = h.Serve(hd, "POST", topic+"/promises", body, nil)
				default:
					release(hd, rnd, topic, id, prev)
					o = h.Serve(hd, "POST", topic+"/promises/"+id, body, nil)
				}
				x, err := h.TaskFromJSON(o.JSON)
				if o.Code != 200 || err != nil || x.Nonce == "" {
					bad("tokens:claim", "claim %d of a task of its own is answered with %d %q", k, o.Code, o.Body)
					return
				}
				r.Collect("unique:token", x.Nonce)
				if prev != "" {
					seen++
					if x.Nonce > prev {
						up++
					}
				}
				prev = x.Nonce
			}
			// About half of the tokens are greater than the one before.
			if seen > 2000 && (up < seen*2/5 || up > seen*3/5) {
				bad("tokens:order", "%d of %d tokens in a row are greater than the one before", up, seen)
			}
			r.Ev("claims_in_a_row", seen)
		}()
	}
	wg.Wait()
	r.Eval(1)
	r.Seen("tokens", p.Shard)
}

// release makes a claimed task pending again in one of several ways.
func release(hd http.Handler, rnd *rand.Rand, topic, id, token string) {
	switch rnd.IntN(3) {
	case 0:
		h.Serve(hd, "DELETE", topic+"/promises/"+id, nil, nil)
	case 1:
		h.Serve(hd, "PATCH", topic+"/tasks/"+id, []byte(fmt.Sprintf(`{"state":%d,"nonce":%q}`, ratus.TaskStatePending, token)), nil)
	case 2:
		h.Serve(hd, "DELETE", topic+"/promises", nil, nil)
	}
}

func init() { h.Register("C03", runTokens) }
