package mgo

import (
	"context"
	"fmt"
	"sync/atomic"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/mongodb"

	"github.com/hyperonym/ratus/verif/h"
)

// Mode is one way of running the engine against a deployment.
type Mode struct {
	Shard     string // shard key of the collection, if any
	NoPoll    bool   // atomic polling disabled by configuration
	Fallback  bool   // every fallback enabled from the start
	NoAuto    bool   // automatic fallback disabled
	NoIndexes bool   // indexes created by somebody else
	Batch     int
	MaxBatch  int
	Retention time.Duration
}

func (m Mode) String() string {
	return fmt.Sprintf("shard=%q nopoll=%v fallback=%v noauto=%v noindexes=%v batch=%d maxbatch=%d", m.Shard, m.NoPoll, m.Fallback, m.NoAuto, m.NoIndexes, m.Batch, m.MaxBatch)
}

// Optimistic tells whether the mode uses the optimistic branches for polling
// and for operations on single tasks.
func (m Mode) Optimistic() (poll, byID bool) {
	return m.NoPoll || m.Fallback || m.Shard == "_id", m.Fallback || m.Shard == "topic"
}

// NS is the collection used.
const NS = "verif.tasks"

var addrs atomic.Int64

// Backend is the MongoDB engine on an emulated deployment behind the real
// router.
type Backend struct {
	Mode Mode
	Srv  *Server
	D    *Deployment
	addr string
	all  []*mongodb.Engine
}

// NewBackend creates a deployment for a mode.
func NewBackend(m Mode) *Backend {
	b := &Backend{Mode: m, D: NewDeployment(), addr: fmt.Sprintf("db%d.test:27017", addrs.Add(1))}
	b.D.ShardKey, b.D.Batch, b.D.MaxBatch = m.Shard, m.Batch, m.MaxBatch
	b.Srv = Serve(b.D, b.addr)
	return b
}

// Config returns the engine configuration.
func (b *Backend) Config(retention time.Duration) *mongodb.Config {
	return &mongodb.Config{URI: "mongodb://" + b.addr + "/?heartbeatFrequencyMS=100000000000&serverMonitoringMode=poll", Database: "verif", Collection: "tasks", RetentionPeriod: retention,
		DisableAtomicPoll: b.Mode.NoPoll, DisableAutoFallback: b.Mode.NoAuto, DisableIndexCreation: b.Mode.NoIndexes}
}

// Inner returns another unopened instance.
func (b *Backend) Inner(retention time.Duration) (*mongodb.Engine, error) {
	g, err := mongodb.New(b.Config(retention))
	if err != nil {
		return nil, err
	}
	if b.Mode.Fallback {
		g.Fallback(1)
	}
	b.all = append(b.all, g)
	return g, nil
}

// Prepare creates the indexes on behalf of an administrator.
func (b *Backend) Prepare(retention time.Duration) error {
	c := b.Config(retention)
	c.DisableIndexCreation = false
	g, err := mongodb.New(c)
	if err != nil {
		return err
	}
	if err := g.Open(context.Background()); err != nil {
		return err
	}
	return g.Close(context.Background())
}

// NewEngine implements h.Backend.
func (b *Backend) NewEngine(c *h.Cfg, snap string) (engine.Engine, error) {
	if b.Mode.NoIndexes {
		if err := b.Prepare(c.Retention); err != nil {
			return nil, err
		}
	}
	g, err := b.Inner(c.Retention)
	if err != nil {
		return nil, err
	}
	return &Eng{Engine: g, B: b}, nil
}

// Driver implements h.Backend.
func (b *Backend) Driver(g engine.Engine, pc *config.PaginationConfig) h.Driver {
	return &h.PlainDriver{H: h.Handler(g.(*Eng).Engine, pc)}
}

// Done implements h.Backend.
func (b *Backend) Done() {
	for _, g := range b.all {
		g.Close(context.Background())
	}
	b.Srv.Stop(b.addr)
}

// Owner is the real engine of a deployment that ends with it.
type Owner struct {
	engine.Engine
	B *Backend
}

// Close implements engine.Engine.
func (o *Owner) Close(ctx context.Context) error {
	err := o.Engine.Close(ctx)
	o.B.Srv.Stop(o.B.addr)
	return err
}

// Eng wraps the engine under test: maintenance includes that of the database,
// and reading looks at the stored documents.
type Eng struct {
	engine.Engine
	B *Backend
}

// Chore implements engine.Engine.
func (g *Eng) Chore(ctx context.Context) error {
	err := g.Engine.Chore(ctx)
	g.B.Srv.With(func(d *Deployment) { d.Expire(time.Now()) })
	return err
}

// GetTask implements engine.Engine.
func (g *Eng) GetTask(ctx context.Context, id string) (t *ratus.Task, err error) {
	err = ratus.ErrNotFound
	g.B.Srv.With(func(d *Deployment) {
		for _, x := range d.Docs(NS) {
			if v, _ := get(x, "_id"); v == id {
				t, err = TaskOf(x)
				return
			}
		}
	})
	return t, err
}

func page[T any](l []T, limit, offset int) []T {
	l = l[min(len(l), offset):]
	return l[:min(len(l), limit)]
}

// ListTopics implements engine.Engine.
func (g *Eng) ListTopics(ctx context.Context, limit, offset int) (l []*ratus.Topic, err error) {
	g.B.Srv.With(func(d *Deployment) {
		seen := map[string]bool{}
		for _, x := range d.Docs(NS) {
			k := getS(x, "topic")
			if !seen[k] {
				seen[k] = true
				l = append(l, &ratus.Topic{Name: k})
			}
		}
	})
	return page(l, limit, offset), nil
}

// ListTasks implements engine.Engine.
func (g *Eng) ListTasks(ctx context.Context, topic string, limit, offset int) (l []*ratus.Task, err error) {
	g.B.Srv.With(func(d *Deployment) {
		for _, x := range d.Docs(NS) {
			if v, _ := get(x, "topic"); v == topic {
				t, er := TaskOf(x)
				if er != nil {
					err = er
				}
				l = append(l, t)
			}
		}
	})
	return page(l, limit, offset), err
}

// ListPromises implements engine.Engine.
func (g *Eng) ListPromises(ctx context.Context, topic string, limit, offset int) (l []*ratus.Promise, err error) {
	ts, err := g.ListTasks(ctx, topic, 1<<30, 0)
	for _, t := range ts {
		if t.State == ratus.TaskStateActive {
			l = append(l, &ratus.Promise{ID: t.ID, Consumer: t.Consumer, Deadline: t.Deadline})
		}
	}
	return page(l, limit, offset), err
}

// TaskOf reads a stored document.
func TaskOf(d bson.D) (*ratus.Task, error) {
	t := &ratus.Task{}
	for _, e := range d {
		str := func(p *string) error {
			s, ok := e.Value.(string)
			if !ok {
				return fmt.Errorf("field %s is stored as %T", e.Key, e.Value)
			}
			*p = s
			return nil
		}
		tm := func(p **time.Time) error {
			if e.Value == nil {
				return nil
			}
			v, ok := e.Value.(primitive.DateTime)
			if !ok {
				return fmt.Errorf("field %s is stored as %T", e.Key, e.Value)
			}
			x := v.Time().UTC()
			*p = &x
			return nil
		}
		var err error
		switch e.Key {
		case "_id":
			err = str(&t.ID)
		case "topic":
			err = str(&t.Topic)
		case "nonce":
			err = str(&t.Nonce)
		case "producer":
			err = str(&t.Producer)
		case "consumer":
			err = str(&t.Consumer)
		case "state":
			n, ok := integer(e.Value)
			if !ok {
				err = fmt.Errorf("state is stored as %T", e.Value)
			}
			t.State = ratus.TaskState(n)
		case "produced":
			err = tm(&t.Produced)
		case "scheduled":
			err = tm(&t.Scheduled)
		case "consumed":
			err = tm(&t.Consumed)
		case "deadline":
			err = tm(&t.Deadline)
		case "payload":
			t.Payload = plain(e.Value)
		}
		if err != nil {
			return nil, err
		}
	}
	return t, nil
}

func plain(v any) any {
	switch x := v.(type) {
	case bson.D:
		m := map[string]any{}
		for _, e := range x {
			m[e.Key] = plain(e.Value)
		}
		return m
	case bson.A:
		l := []any{}
		for _, e := range x {
			l = append(l, plain(e))
		}
		return l
	}
	return v
}
