package conc

import (
	"time"

	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
)

func memEngines(uint64) func() []engine.Engine {
	return func() []engine.Engine {
		g, err := memdb.New(&memdb.Config{RetentionPeriod: 72 * time.Hour, SnapshotInterval: time.Hour})
		if err != nil {
			panic(err)
		}
		return []engine.Engine{g}
	}
}

func init() {
	for _, id := range []string{"C01", "C02", "C03", "C04", "C10", "C12"} {
		conc(id, 20000, memEngines, nil)
	}
}
