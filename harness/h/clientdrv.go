package h

import (
	"context"
	"encoding/json"
	"errors"
	"net/http"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
)

// ClientBackend reaches the in-memory engine through the client library.
type ClientBackend struct {
	srv *MemServer
}

// NewEngine implements Backend.
func (b *ClientBackend) NewEngine(c *Cfg, snap string) (engine.Engine, error) {
	return memdb.New(&memdb.Config{SnapshotPath: snap, SnapshotInterval: c.Interval, RetentionPeriod: c.Retention})
}

// Driver implements Backend.
func (b *ClientBackend) Driver(g engine.Engine, pc *config.PaginationConfig) Driver {
	b.Done()
	b.srv = NewMemServer(Handler(g, pc))
	b.srv.Redirect()
	c, err := ratus.NewClient(&ratus.ClientOptions{Origin: "http://ratus.test"})
	if err != nil {
		panic(err)
	}
	return &ClientDriver{C: c}
}

// Done implements Backend.
func (b *ClientBackend) Done() {
	if b.srv != nil {
		b.srv.Stop()
		b.srv = nil
	}
}

// ClientDriver executes requests through the client library.
type ClientDriver struct {
	C *ratus.Client
	// Err is the error of the last call, if any.
	Err error
	// Ctx is passed to every call.
	Ctx context.Context
	// NonNil reports that a failing call returned a result as well.
	NonNil bool
}

// ErrCode maps an error of the client library to the status it stands for.
func ErrCode(err error) int {
	for e, c := range map[error]int{ratus.ErrBadRequest: 400, ratus.ErrNotFound: 404, ratus.ErrConflict: 409, ratus.ErrClientClosedRequest: 499, ratus.ErrInternalServerError: 500, ratus.ErrServiceUnavailable: 503} {
		if errors.Is(err, e) {
			return c
		}
	}
	return -1
}

func (d *ClientDriver) outcome(v any, err error, code int) *Outcome {
	o := &Outcome{Code: code, Hdr: http.Header{}}
	d.Err = err
	d.NonNil = false
	if err != nil {
		b, _ := json.Marshal(v)
		d.NonNil = len(b) > 0 && string(b) != "null" && string(b) != `{"data":null}`
		o.Code = ErrCode(err)
		v = map[string]any{"error": map[string]any{"code": o.Code, "message": err.Error()}}
	}
	b, e := json.Marshal(v)
	if e != nil {
		panic(e)
	}
	o.Body = b
	json.Unmarshal(b, &o.JSON)
	return o
}

func fix[T any](b []byte) T {
	var v T
	if b != nil {
		if err := json.Unmarshal(b, &v); err != nil {
			panic(err)
		}
	}
	return v
}

// Do implements Driver.
func (d *ClientDriver) Do(q *Req) *Outcome {
	ctx := d.Ctx
	if ctx == nil {
		ctx = context.Background()
	}
	c := d.C
	zero := "0"
	num := func(p **string) int {
		if *p == nil {
			*p = &zero
		}
		n, _ := Atoi(*p)
		return n
	}
	prom := func() *ratus.Promise {
		p := fix[ratus.Promise](q.Body)
		if q.QProm != nil {
			b, _ := json.Marshal(q.QProm)
			p = fix[ratus.Promise](b)
		}
		if q.ID != "" {
			p.ID = q.ID
		}
		return &p
	}
	created := func(v *ratus.Updated, err error) *Outcome {
		code := 200
		if err == nil && v.Created > 0 {
			code = 201
		}
		return d.outcome(v, err, code)
	}
	task := func() *ratus.Task {
		t := fix[ratus.Task](q.Body)
		t.ID = q.ID
		if t.Topic == "" {
			t.Topic = q.Topic
		}
		return &t
	}
	tasks := func() []*ratus.Task {
		ts := fix[ratus.Tasks](q.Body).Data
		for _, t := range ts {
			if t.Topic == "" {
				t.Topic = q.Topic
			}
		}
		return ts
	}
	switch q.K {
	case "listTopics":
		v, err := c.ListTopics(ctx, num(&q.Lim), num(&q.Off))
		return d.outcome(&ratus.Topics{Data: v}, err, 200)
	case "delTopics":
		v, err := c.DeleteTopics(ctx)
		return d.outcome(v, err, 200)
	case "getTopic":
		v, err := c.GetTopic(ctx, q.Topic)
		return d.outcome(v, err, 200)
	case "delTopic":
		v, err := c.DeleteTopic(ctx, q.Topic)
		return d.outcome(v, err, 200)
	case "listTasks":
		v, err := c.ListTasks(ctx, q.Topic, num(&q.Lim), num(&q.Off))
		return d.outcome(&ratus.Tasks{Data: v}, err, 200)
	case "insTasks":
		return created(c.InsertTasks(ctx, tasks()))
	case "upsTasks":
		return created(c.UpsertTasks(ctx, tasks()))
	case "delTasks":
		v, err := c.DeleteTasks(ctx, q.Topic)
		return d.outcome(v, err, 200)
	case "getTask":
		v, err := c.GetTask(ctx, q.ID)
		return d.outcome(v, err, 200)
	case "insTask":
		return created(c.InsertTask(ctx, task()))
	case "upsTask":
		return created(c.UpsertTask(ctx, task()))
	case "delTask":
		v, err := c.DeleteTask(ctx, q.ID)
		return d.outcome(v, err, 200)
	case "commit":
		m := fix[ratus.Commit](q.Body)
		v, err := c.PatchTask(ctx, q.ID, &m)
		return d.outcome(v, err, 200)
	case "listProms":
		v, err := c.ListPromises(ctx, q.Topic, num(&q.Lim), num(&q.Off))
		return d.outcome(&ratus.Promises{Data: v}, err, 200)
	case "poll":
		if q.Op.Var%2 == 0 && q.QProm["_id"] == "" && prom().ID == "" {
			// Poll and PostPromises must act alike.
			x, err := c.Poll(ctx, q.Topic, prom())
			if err != nil {
				o := d.outcome(nil, err, 0)
				d.NonNil = x != nil
				return o
			}
			return d.outcome(x.Task, nil, 200)
		}
		v, err := c.PostPromises(ctx, q.Topic, prom())
		return d.outcome(v, err, 200)
	case "delProms":
		v, err := c.DeletePromises(ctx, q.Topic)
		return d.outcome(v, err, 200)
	case "getProm":
		v, err := c.GetPromise(ctx, q.ID)
		return d.outcome(v, err, 200)
	case "claim":
		v, err := c.InsertPromise(ctx, prom())
		return d.outcome(v, err, 200)
	case "force":
		v, err := c.UpsertPromise(ctx, prom())
		return d.outcome(v, err, 200)
	case "delProm":
		v, err := c.DeletePromise(ctx, q.ID)
		return d.outcome(v, err, 200)
	}
	panic(q.K)
}
