package h

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"testing"
)

// Params of one shard, from the environment.
type Params struct {
	Check  string
	Seed   uint64
	Shard  int
	Shards int
	Scale  int // workload size multiplier in percent
	Only   string
	Out    string
}

func atoi(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}

// GetParams reads the shard parameters.
func GetParams() *Params {
	s, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	return &Params{Check: os.Getenv("VERIF_CHECK"), Seed: s, Shard: atoi("VERIF_SHARD", 0), Shards: atoi("VERIF_SHARDS", 1), Scale: atoi("VERIF_SCALE", 100), Only: os.Getenv("VERIF_ONLY"), Out: os.Getenv("VERIF_OUT")}
}

// Check is one monitor.
type Check func(t *testing.T, p *Params, r *Report)

var checks = map[string][]Check{}

// Register adds a monitor to a check.
func Register(id string, c Check) { checks[id] = append(checks[id], c) }

// RunChecks runs the check named by the environment and writes its report.
func RunChecks(t *testing.T) {
	p := GetParams()
	if p.Check == "" {
		t.Skip("no check selected")
	}
	cs := checks[p.Check]
	if cs == nil {
		t.Fatalf("unknown check %q", p.Check)
	}
	r := NewReport(p.Check, p.Seed, p.Shard)
	Watchdog(120)
	for _, c := range cs {
		c(t, p, r)
	}
	if p.Out != "" {
		if err := r.Write(p.Out); err != nil {
			t.Fatal(err)
		}
	} else {
		fmt.Println("evaluations", r.Evaluations, "events", r.Events)
		for _, v := range r.Violations {
			fmt.Println("VIOL", v.Props, v.Sig, v.Msg, v.Case)
		}
	}
}

// Cases lists the case numbers of this shard.
func (p *Params) Cases(n int) []uint64 {
	n = n * p.Scale / 100
	var o []uint64
	for i := 0; i < n; i++ {
		if i%p.Shards == p.Shard {
			o = append(o, uint64(i))
		}
	}
	if p.Only != "" {
		o = nil
		for _, s := range strings.Split(p.Only, ",") {
			x, _ := strconv.ParseUint(s, 10, 64)
			o = append(o, x)
		}
	}
	return o
}
