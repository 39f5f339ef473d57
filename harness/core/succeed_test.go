package core

import (
	"context"
	"io"
	"log"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
)

var discard = log.New(io.Discard, "", 0)

// succeeding is a storage engine whose every operation succeeds.
type succeeding struct{ engine.Engine }

func (g *succeeding) Ready(context.Context) error { return nil }
func (g *succeeding) Chore(context.Context) error { return nil }
func (g *succeeding) Poll(context.Context, string, *ratus.Promise) (*ratus.Task, error) {
	return &ratus.Task{}, nil
}
func (g *succeeding) Commit(context.Context, string, *ratus.Commit) (*ratus.Task, error) {
	return &ratus.Task{}, nil
}
func (g *succeeding) ListTopics(context.Context, int, int) ([]*ratus.Topic, error) {
	return []*ratus.Topic{}, nil
}
func (g *succeeding) DeleteTopics(context.Context) (*ratus.Deleted, error) {
	return &ratus.Deleted{}, nil
}
func (g *succeeding) GetTopic(context.Context, string) (*ratus.Topic, error) {
	return &ratus.Topic{}, nil
}
func (g *succeeding) DeleteTopic(context.Context, string) (*ratus.Deleted, error) {
	return &ratus.Deleted{}, nil
}
func (g *succeeding) ListTasks(context.Context, string, int, int) ([]*ratus.Task, error) {
	return []*ratus.Task{}, nil
}
func (g *succeeding) InsertTasks(context.Context, []*ratus.Task) (*ratus.Updated, error) {
	return &ratus.Updated{}, nil
}
func (g *succeeding) UpsertTasks(context.Context, []*ratus.Task) (*ratus.Updated, error) {
	return &ratus.Updated{}, nil
}
func (g *succeeding) DeleteTasks(context.Context, string) (*ratus.Deleted, error) {
	return &ratus.Deleted{}, nil
}
func (g *succeeding) GetTask(context.Context, string) (*ratus.Task, error) { return &ratus.Task{}, nil }
func (g *succeeding) InsertTask(context.Context, *ratus.Task) (*ratus.Updated, error) {
	return &ratus.Updated{}, nil
}
func (g *succeeding) UpsertTask(context.Context, *ratus.Task) (*ratus.Updated, error) {
	return &ratus.Updated{}, nil
}
func (g *succeeding) DeleteTask(context.Context, string) (*ratus.Deleted, error) {
	return &ratus.Deleted{}, nil
}
func (g *succeeding) ListPromises(context.Context, string, int, int) ([]*ratus.Promise, error) {
	return []*ratus.Promise{}, nil
}
func (g *succeeding) DeletePromises(context.Context, string) (*ratus.Deleted, error) {
	return &ratus.Deleted{}, nil
}
func (g *succeeding) GetPromise(context.Context, string) (*ratus.Promise, error) {
	return &ratus.Promise{}, nil
}
func (g *succeeding) InsertPromise(context.Context, *ratus.Promise) (*ratus.Task, error) {
	return &ratus.Task{}, nil
}
func (g *succeeding) UpsertPromise(context.Context, *ratus.Promise) (*ratus.Task, error) {
	return &ratus.Task{}, nil
}
func (g *succeeding) DeletePromise(context.Context, string) (*ratus.Deleted, error) {
	return &ratus.Deleted{}, nil
}
