From 0113f6222d6c86c30d778a763fc6265bd3b8dd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:18 +0000
Subject: [PATCH 01/24] fix: do not hand out tasks of other topics when polling
 an exhausted memdb topic

---
 internal/engine/memdb/queue.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index 795e2f2..4948889 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -85,6 +85,11 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 
 	// Do not consume the task until the scheduled time.
 	t := r.(*ratus.Task)
+	if t.Topic != topic {
+
+		// The iterator crosses topic boundaries after the last pending task.
+		return nil, ratus.ErrNotFound
+	}
 	if t.Scheduled != nil && t.Scheduled.After(n) {
 		return nil, ratus.ErrNotFound
 	}
-- 
2.43.0


From 0dd4aabb098731d1f8f5358484c9e6c5ddbd466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:00 +0000
Subject: [PATCH 02/24] fix: include timestamps before 1970 when polling and
 recovering tasks in memdb

---
 internal/engine/memdb/memdb.go | 4 ++++
 internal/engine/memdb/queue.go | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index e70981e..39a5202 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"sync"
 	"time"
@@ -41,6 +42,9 @@ const (
 	indexCompletedConsumed     = "completed-consumed "
 )
 
+// minTime is the lower bound of all timestamps representable in time indexes.
+var minTime = time.UnixMilli(math.MinInt64)
+
 // Config contains configurations for the MemDB storage engine.
 type Config struct {
 	SnapshotPath     string        `arg:"--memdb-snapshot-path,env:MEMDB_SNAPSHOT_PATH" placeholder:"PATH" help:"path to the snapshot file" default:""`
diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index 4948889..7ded04c 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -14,7 +14,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 
 	// Recover tasks that have timed out.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, minTime)
 	if err != nil {
 		return err
 	}
@@ -30,7 +30,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 	}
 
 	// Delete completed tasks that have exceeded their retention period.
-	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, time.UnixMilli(0))
+	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, minTime)
 	if err != nil {
 		return err
 	}
@@ -74,7 +74,7 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 
 	// Peek into the topic to get the next candidate task.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, minTime)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a7b7c4150e3c00dceb4550c7606eac98dd8aab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:09 +0000
Subject: [PATCH 03/24] fix: keep writing memdb snapshots when a timestamp has
 an unencodable zone offset

---
 internal/engine/memdb/memdb.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index 39a5202..d60de1d 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -269,7 +269,7 @@ func save(db *memdb.MemDB, path string) error {
 		return err
 	}
 	for r := it.Next(); r != nil; r = it.Next() {
-		if err := enc.Encode(r); err != nil {
+		if err := enc.Encode(encodable(r.(*ratus.Task))); err != nil {
 			return err
 		}
 	}
@@ -281,6 +281,22 @@ func save(db *memdb.MemDB, path string) error {
 	return nil
 }
 
+// encodable returns a copy of the task with timestamps in time zones that can
+// not be represented in the binary encoding converted to UTC.
+func encodable(v *ratus.Task) *ratus.Task {
+	u := clone(v)
+	for _, t := range []**time.Time{&u.Produced, &u.Scheduled, &u.Consumed, &u.Deadline} {
+		if *t == nil {
+			continue
+		}
+		if _, err := (*t).MarshalBinary(); err != nil {
+			c := (*t).UTC()
+			*t = &c
+		}
+	}
+	return u
+}
+
 // load recovers data from a snapshot file.
 func load(db *memdb.MemDB, path string) error {
 
-- 
2.43.0


From 68a6b75c9ad9f4449d2c2ea70acacc171e97010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:40 +0000
Subject: [PATCH 04/24] fix: wait for in-flight requests to complete while
 shutting down

---
 cmd/ratus/main.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 238073e..25570e2 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -27,6 +27,10 @@ import (
 	"github.com/hyperonym/ratus/internal/router"
 )
 
+// shutdownTimeout limits the time to wait for in-flight requests to complete
+// while shutting down, so that a stalled client can not block it indefinitely.
+const shutdownTimeout = 10 * time.Second
+
 // version contains the version string set by -ldflags.
 var version string
 
@@ -150,11 +154,15 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 	// Gracefully shut down the server when an interrupt or SIGTERM signal
 	// is received, or close the server immediately if the context has been
 	// canceled or another goroutine in the error group has return an error.
+	done := make(chan struct{})
 	go func() {
+		defer close(done)
 		select {
 		case <-ch:
 			log.Printf("stop listening on %s\n", a)
-			s.Shutdown(context.Background())
+			sc, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
+			defer cancel()
+			s.Shutdown(sc)
 		case <-ctx.Done():
 			s.Close()
 		}
@@ -166,6 +174,10 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 		return err
 	}
 
+	// The server stops listening as soon as the shutdown begins, wait for
+	// in-flight requests to complete before returning.
+	<-done
+
 	return nil
 }
 
-- 
2.43.0


From 6c863e22c13800d2d74f54087ec23e6f00c2555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:08 +0000
Subject: [PATCH 05/24] fix: keep IDs and topic names containing null
 characters apart in memdb

---
 internal/engine/memdb/indexer.go | 56 ++++++++++++++++++++++++++++++++
 internal/engine/memdb/memdb.go   |  8 ++---
 2 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/internal/engine/memdb/indexer.go b/internal/engine/memdb/indexer.go
index 7707432..7e3a8bd 100644
--- a/internal/engine/memdb/indexer.go
+++ b/internal/engine/memdb/indexer.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"reflect"
+	"strings"
 	"time"
 
 	"github.com/hyperonym/ratus"
@@ -130,3 +131,58 @@ func (i *TimeFieldIndex) encodeInt64(v int64) []byte {
 	binary.BigEndian.PutUint64(b, uint64(v))
 	return b
 }
+
+// stringEscaper escapes null characters in strings while preserving the order.
+// Index values are terminated by null characters, and a value containing the
+// terminator could be mistaken for a prefix match of a shorter value.
+var stringEscaper = strings.NewReplacer("\x00", "\x01\x01", "\x01", "\x01\x02")
+
+// StringFieldIndex encodes string fields for index building.
+type StringFieldIndex struct {
+	Field string
+}
+
+// FromObject implements the memdb.SingleIndexer interface.
+func (i *StringFieldIndex) FromObject(obj any) (bool, []byte, error) {
+
+	// Extract and validate the value.
+	v := reflect.ValueOf(obj)
+	v = reflect.Indirect(v)
+	v = v.FieldByName(i.Field)
+	v = reflect.Indirect(v)
+	if !v.IsValid() {
+		return false, nil, nil
+	}
+
+	// Check the type of the value.
+	if v.Kind() != reflect.String {
+		return false, nil, fmt.Errorf("field %q is of type %v; want a string", i.Field, v.Kind())
+	}
+
+	// Empty strings are considered missing.
+	s := v.String()
+	if s == "" {
+		return false, nil, nil
+	}
+
+	return true, i.encodeString(s), nil
+}
+
+// FromArgs implements the memdb.Indexer interface.
+func (i *StringFieldIndex) FromArgs(args ...any) ([]byte, error) {
+	if len(args) != 1 {
+		return nil, fmt.Errorf("must provide only a single argument")
+	}
+
+	// Check the type of the value.
+	s, ok := args[0].(string)
+	if !ok {
+		return nil, fmt.Errorf("arg is of type %T; want a string", args[0])
+	}
+
+	return i.encodeString(s), nil
+}
+
+func (i *StringFieldIndex) encodeString(s string) []byte {
+	return append([]byte(stringEscaper.Replace(s)), 0)
+}
diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index d60de1d..9bfac95 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -76,13 +76,13 @@ func New(c *Config) (*Engine, error) {
 						Name:         indexID,
 						AllowMissing: false,
 						Unique:       true,
-						Indexer:      &memdb.StringFieldIndex{Field: keyID},
+						Indexer:      &StringFieldIndex{Field: keyID},
 					},
 					indexTopic: {
 						Name:         indexTopic,
 						AllowMissing: false,
 						Unique:       false,
-						Indexer:      &memdb.StringFieldIndex{Field: keyTopic},
+						Indexer:      &StringFieldIndex{Field: keyTopic},
 					},
 					indexPendingTopicScheduled: {
 						Name:         indexPendingTopicScheduled,
@@ -91,7 +91,7 @@ func New(c *Config) (*Engine, error) {
 						Indexer: &memdb.CompoundIndex{
 							Indexes: []memdb.Indexer{
 								&StateFieldIndex{Field: keyState, Filter: ratus.TaskStatePending},
-								&memdb.StringFieldIndex{Field: keyTopic},
+								&StringFieldIndex{Field: keyTopic},
 								&TimeFieldIndex{Field: keyScheduled},
 							},
 						},
@@ -114,7 +114,7 @@ func New(c *Config) (*Engine, error) {
 						Indexer: &memdb.CompoundIndex{
 							Indexes: []memdb.Indexer{
 								&StateFieldIndex{Field: keyState, Filter: ratus.TaskStateActive},
-								&memdb.StringFieldIndex{Field: keyTopic},
+								&StringFieldIndex{Field: keyTopic},
 							},
 						},
 					},
-- 
2.43.0


From 360a0b17bc95d2c4eeadad5db0e4551cabc30d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:36 +0000
Subject: [PATCH 06/24] fix: reject null tasks in batches instead of panicking

---
 internal/middleware/task.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/middleware/task.go b/internal/middleware/task.go
index 217a4b8..d29f353 100644
--- a/internal/middleware/task.go
+++ b/internal/middleware/task.go
@@ -57,6 +57,10 @@ func Tasks() gin.HandlerFunc {
 		// Validate and normalize all tasks in the list.
 		p := c.Param(ParamTopic)
 		for _, t := range ts.Data {
+			if t == nil {
+				fail(c, fmt.Errorf("%w: task must not be null", ratus.ErrBadRequest))
+				return
+			}
 			if err := normalizeTask(t, "", p); err != nil {
 				fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
 				return
-- 
2.43.0


From 637f7bdb6401ba7065c93242548068e0d967de49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:58 +0000
Subject: [PATCH 07/24] fix: reject malformed commits and promises instead of
 applying defaults

---
 internal/middleware/commit.go  |  6 +++++-
 internal/middleware/promise.go | 11 +++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/middleware/commit.go b/internal/middleware/commit.go
index 77b203b..529b095 100644
--- a/internal/middleware/commit.go
+++ b/internal/middleware/commit.go
@@ -2,6 +2,7 @@ package middleware
 
 import (
 	"fmt"
+	"io"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -16,7 +17,10 @@ func Commit() gin.HandlerFunc {
 		// All fields are optional in a commit.
 		// An empty commit sets the state of the task to "completed".
 		var m ratus.Commit
-		c.ShouldBindJSON(&m)
+		if err := c.ShouldBindJSON(&m); err != nil && err != io.EOF {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the commit.
 		if err := normalizeCommit(&m); err != nil {
diff --git a/internal/middleware/promise.go b/internal/middleware/promise.go
index b1d42ad..891f57f 100644
--- a/internal/middleware/promise.go
+++ b/internal/middleware/promise.go
@@ -3,6 +3,7 @@ package middleware
 import (
 	"errors"
 	"fmt"
+	"io"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -17,8 +18,14 @@ func Promise() gin.HandlerFunc {
 		// Promise is a relatively simple data structure that can be submitted
 		// either through the request body or query parameters.
 		var p ratus.Promise
-		c.ShouldBindJSON(&p)
-		c.ShouldBindQuery(&p)
+		if err := c.ShouldBindJSON(&p); err != nil && err != io.EOF {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
+		if err := c.ShouldBindQuery(&p); err != nil {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the promise.
 		if err := normalizePromise(&p, c.Param(ParamID)); err != nil {
-- 
2.43.0


From c0c67aa5cf7fd6dbbb9c3ab6b1ff9483e0b0af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:20 +0000
Subject: [PATCH 08/24] fix: do not panic on metrics labels containing invalid
 UTF-8

---
 internal/controller/promise.go    |  4 ++--
 internal/controller/task.go       | 12 ++++++------
 internal/metrics/metrics.go       | 11 +++++++++++
 internal/middleware/prometheus.go |  2 +-
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/internal/controller/promise.go b/internal/controller/promise.go
index 867b680..38695d9 100644
--- a/internal/controller/promise.go
+++ b/internal/controller/promise.go
@@ -152,11 +152,11 @@ func (r *PromiseController) collectMetrics(t *ratus.Task) {
 	// Collect task schedule delay.
 	if t != nil && t.Scheduled != nil && t.Consumed != nil {
 		d := t.Consumed.Sub(*t.Scheduled).Seconds()
-		metrics.DelayGauge.WithLabelValues(t.Topic, t.Producer, t.Consumer).Set(d)
+		metrics.DelayGauge.WithLabelValues(metrics.Labels(t.Topic, t.Producer, t.Consumer)...).Set(d)
 	}
 
 	// Collect number of tasks consumed.
 	if t != nil {
-		metrics.ConsumedCounter.WithLabelValues(t.Topic, t.Producer, t.Consumer).Add(1)
+		metrics.ConsumedCounter.WithLabelValues(metrics.Labels(t.Topic, t.Producer, t.Consumer)...).Add(1)
 	}
 }
diff --git a/internal/controller/task.go b/internal/controller/task.go
index 6cde157..d4f77e5 100644
--- a/internal/controller/task.go
+++ b/internal/controller/task.go
@@ -57,7 +57,7 @@ func (r *TaskController) PostTasks(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created > 0 && len(ts.Data) > 0 {
-		metrics.ProducedCounter.WithLabelValues(c.Param(middleware.ParamTopic), ts.Data[0].Producer).Add(float64(v.Created))
+		metrics.ProducedCounter.WithLabelValues(metrics.Labels(c.Param(middleware.ParamTopic), ts.Data[0].Producer)...).Add(float64(v.Created))
 	}
 }
 
@@ -80,7 +80,7 @@ func (r *TaskController) PutTasks(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created+v.Updated > 0 && len(ts.Data) > 0 {
-		metrics.ProducedCounter.WithLabelValues(c.Param(middleware.ParamTopic), ts.Data[0].Producer).Add(float64(v.Created + v.Updated))
+		metrics.ProducedCounter.WithLabelValues(metrics.Labels(c.Param(middleware.ParamTopic), ts.Data[0].Producer)...).Add(float64(v.Created + v.Updated))
 	}
 }
 
@@ -135,7 +135,7 @@ func (r *TaskController) PostTask(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created > 0 {
-		metrics.ProducedCounter.WithLabelValues(t.Topic, t.Producer).Add(float64(v.Created))
+		metrics.ProducedCounter.WithLabelValues(metrics.Labels(t.Topic, t.Producer)...).Add(float64(v.Created))
 	}
 }
 
@@ -159,7 +159,7 @@ func (r *TaskController) PutTask(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created+v.Updated > 0 {
-		metrics.ProducedCounter.WithLabelValues(t.Topic, t.Producer).Add(float64(v.Created + v.Updated))
+		metrics.ProducedCounter.WithLabelValues(metrics.Labels(t.Topic, t.Producer)...).Add(float64(v.Created + v.Updated))
 	}
 }
 
@@ -202,11 +202,11 @@ func (r *TaskController) PatchTask(c *gin.Context) {
 	// Collect task execution time.
 	if v != nil && v.Consumed != nil {
 		d := time.Since(*v.Consumed).Seconds()
-		metrics.ExecutionGauge.WithLabelValues(v.Topic, v.Producer, v.Consumer).Set(d)
+		metrics.ExecutionGauge.WithLabelValues(metrics.Labels(v.Topic, v.Producer, v.Consumer)...).Set(d)
 	}
 
 	// Collect number of tasks committed.
 	if v != nil {
-		metrics.CommittedCounter.WithLabelValues(v.Topic, v.Producer, v.Consumer).Add(1)
+		metrics.CommittedCounter.WithLabelValues(metrics.Labels(v.Topic, v.Producer, v.Consumer)...).Add(1)
 	}
 }
diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index 3c589f5..069caac 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -2,6 +2,8 @@
 package metrics
 
 import (
+	"strings"
+
 	"github.com/prometheus/client_golang/prometheus"
 	"github.com/prometheus/client_golang/prometheus/promauto"
 )
@@ -61,3 +63,12 @@ var (
 		Help: "Total number of tasks committed",
 	}, []string{labelTopic, labelProducer, labelConsumer})
 )
+
+// Labels replaces invalid UTF-8 sequences in the label values, since Prometheus
+// only accepts valid UTF-8 and panics otherwise.
+func Labels(vs ...string) []string {
+	for i, v := range vs {
+		vs[i] = strings.ToValidUTF8(v, "\uFFFD")
+	}
+	return vs
+}
diff --git a/internal/middleware/prometheus.go b/internal/middleware/prometheus.go
index 1d2eb0a..3754b6e 100644
--- a/internal/middleware/prometheus.go
+++ b/internal/middleware/prometheus.go
@@ -16,6 +16,6 @@ func Prometheus() gin.HandlerFunc {
 		c.Next()
 		d := time.Since(t).Seconds()
 		s := strconv.Itoa(c.Writer.Status())
-		metrics.RequestHistogram.WithLabelValues(c.Param(ParamTopic), c.Request.Method, c.FullPath(), s).Observe(d)
+		metrics.RequestHistogram.WithLabelValues(metrics.Labels(c.Param(ParamTopic), c.Request.Method, c.FullPath(), s)...).Observe(d)
 	}
 }
-- 
2.43.0


From 1ef84073606d41feef5f43b0b9c38e52fc5266d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:36 +0000
Subject: [PATCH 09/24] fix: do not redirect paths with empty parameters to
 collection endpoints

---
 internal/router/router.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/router/router.go b/internal/router/router.go
index c44e8e4..8bc41f9 100644
--- a/internal/router/router.go
+++ b/internal/router/router.go
@@ -37,6 +37,11 @@ func New(groups ...Group) *gin.Engine {
 	r.UseRawPath = true
 	r.UnescapePathValues = true
 
+	// A path with an empty last parameter must not be redirected to the
+	// endpoint of the collection: deleting a topic with an empty name would
+	// otherwise delete all the topics.
+	r.RedirectTrailingSlash = false
+
 	// Enable logging and profiling if not in release mode.
 	// Recommended to collect logs at load balancer level in production.
 	if gin.Mode() != gin.ReleaseMode {
-- 
2.43.0


From 2011d2ca2e7c8ba070f3acc73d856a97d2c3fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:42 +0000
Subject: [PATCH 10/24] fix: keep empty arrays in payloads when loading memdb
 snapshots

---
 internal/engine/memdb/memdb.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index 9bfac95..f9759b2 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -322,6 +322,7 @@ func load(db *memdb.MemDB, path string) error {
 			}
 			return err
 		}
+		t.Payload = restored(t.Payload)
 		if err := txn.Insert(tableTask, &t); err != nil {
 			return err
 		}
@@ -330,3 +331,22 @@ func load(db *memdb.MemDB, path string) error {
 
 	return nil
 }
+
+// restored returns the decoded payload with the empty arrays in it, which the
+// binary encoding does not distinguish from nil slices, set to non-nil again.
+func restored(v any) any {
+	switch u := v.(type) {
+	case []any:
+		if u == nil {
+			return []any{}
+		}
+		for i, e := range u {
+			u[i] = restored(e)
+		}
+	case map[string]any:
+		for k, e := range u {
+			u[k] = restored(e)
+		}
+	}
+	return v
+}
-- 
2.43.0


From 7a77f68b6f7a7b84117459cc8ce864197e69053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 11/24] fix: report memdb snapshots that could not be moved
 into place

---
 internal/engine/memdb/memdb.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index f9759b2..65e3d91 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -240,7 +240,7 @@ func clone[T any](v *T) *T {
 }
 
 // save writes a snapshot of the database to a file.
-func save(db *memdb.MemDB, path string) error {
+func save(db *memdb.MemDB, path string) (err error) {
 
 	// Create a temporary file for writing the snapshot.
 	p := fmt.Sprintf("%s.%s", path, nonce.Generate(8))
@@ -252,11 +252,15 @@ func save(db *memdb.MemDB, path string) error {
 	// Rename or delete the temporary file before returning.
 	var ok bool
 	defer func() {
-		f.Close()
+		if e := f.Close(); e != nil && ok {
+			ok, err = false, e
+		}
+		if ok {
+			err = os.Rename(p, path)
+			ok = err == nil
+		}
 		if !ok {
 			os.Remove(p)
-		} else {
-			os.Rename(p, path)
 		}
 	}()
 
-- 
2.43.0


From 4d5dbe9b1aae2dc8bb3205ed1292c31224175536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 12/24] fix: exit with an error when closing the storage engine
 fails

---
 cmd/ratus/main.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 25570e2..62300eb 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -77,7 +77,7 @@ func main() {
 	log.Println("shut down gracefully")
 }
 
-func run() error {
+func run() (err error) {
 
 	// Parse command line arguments.
 	var a args
@@ -87,10 +87,7 @@ func run() error {
 	ctx := context.Background()
 
 	// Create a storage engine instance of the specified type.
-	var (
-		g   engine.Engine
-		err error
-	)
+	var g engine.Engine
 	switch strings.ToLower(a.Engine) {
 	case "memdb":
 		g, err = memdb.New(&a.memdbConfig)
@@ -104,11 +101,15 @@ func run() error {
 	}
 
 	// Initialize the storage engine instance and defer the close method for
-	// graceful shutdown.
+	// graceful shutdown. Failing to close means that data could be lost.
 	if err := g.Open(ctx); err != nil {
 		return err
 	}
-	defer g.Close(ctx)
+	defer func() {
+		if e := g.Close(context.Background()); e != nil && err == nil {
+			err = e
+		}
+	}()
 
 	// Create router and mount API endpoints.
 	r := router.New(&controller.V1{
-- 
2.43.0


From b83d27bfa9aff025895c9a4d5af779266eb738a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 13/24] fix: document the conflict response of polling with a
 task ID

---
 docs/openapi.json              | 10 ++++++++++
 docs/openapi.yaml              |  6 ++++++
 docs/swagger.json              |  6 ++++++
 docs/swagger.yaml              |  4 ++++
 internal/controller/promise.go |  1 +
 5 files changed, 27 insertions(+)

diff --git a/docs/openapi.json b/docs/openapi.json
index 19a69f2..a47e4fa 100644
--- a/docs/openapi.json
+++ b/docs/openapi.json
@@ -394,6 +394,16 @@
                             }
                         }
                     },
+                    "409": {
+                        "description": "Conflict",
+                        "content": {
+                            "application/json": {
+                                "schema": {
+                                    "$ref": "#/components/schemas/ratus.Error"
+                                }
+                            }
+                        }
+                    },
                     "500": {
                         "description": "Internal Server Error",
                         "content": {
diff --git a/docs/openapi.yaml b/docs/openapi.yaml
index 7ac0ddf..38ec04d 100644
--- a/docs/openapi.yaml
+++ b/docs/openapi.yaml
@@ -239,6 +239,12 @@ paths:
             application/json:
               schema:
                 $ref: '#/components/schemas/ratus.Error'
+        "409":
+          description: Conflict
+          content:
+            application/json:
+              schema:
+                $ref: '#/components/schemas/ratus.Error'
         "500":
           description: Internal Server Error
           content:
diff --git a/docs/swagger.json b/docs/swagger.json
index 471f1cd..707d89c 100644
--- a/docs/swagger.json
+++ b/docs/swagger.json
@@ -304,6 +304,12 @@
                             "$ref": "#/definitions/ratus.Error"
                         }
                     },
+                    "409": {
+                        "description": "Conflict",
+                        "schema": {
+                            "$ref": "#/definitions/ratus.Error"
+                        }
+                    },
                     "500": {
                         "description": "Internal Server Error",
                         "schema": {
diff --git a/docs/swagger.yaml b/docs/swagger.yaml
index 2f76a54..de5dc6c 100644
--- a/docs/swagger.yaml
+++ b/docs/swagger.yaml
@@ -424,6 +424,10 @@ paths:
           description: Not Found
           schema:
             $ref: '#/definitions/ratus.Error'
+        "409":
+          description: Conflict
+          schema:
+            $ref: '#/definitions/ratus.Error'
         "500":
           description: Internal Server Error
           schema:
diff --git a/internal/controller/promise.go b/internal/controller/promise.go
index 38695d9..ac35308 100644
--- a/internal/controller/promise.go
+++ b/internal/controller/promise.go
@@ -48,6 +48,7 @@ func (r *PromiseController) GetPromises(c *gin.Context) {
 // @success  200 {object} ratus.Task
 // @failure  400 {object} ratus.Error
 // @failure  404 {object} ratus.Error
+// @failure  409 {object} ratus.Error
 // @failure  500 {object} ratus.Error
 func (r *PromiseController) PostPromises(c *gin.Context) {
 	p := c.MustGet(middleware.ParamPromise).(*ratus.Promise)
-- 
2.43.0


From 8131b8b1a1ee69d582a2228f710262608003ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 14/24] fix: reject timestamps that can not be encoded in
 responses

---
 internal/middleware/commit.go     |  5 ++++-
 internal/middleware/middleware.go | 16 ++++++++++++++++
 internal/middleware/promise.go    |  5 ++++-
 internal/middleware/task.go       |  5 +++++
 4 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/internal/middleware/commit.go b/internal/middleware/commit.go
index 529b095..4c18c15 100644
--- a/internal/middleware/commit.go
+++ b/internal/middleware/commit.go
@@ -46,7 +46,10 @@ func normalizeCommit(m *ratus.Commit) error {
 		return fmt.Errorf("invalid target state %d", *m.State)
 	}
 
-	// Normalize scheduled time.
+	// Normalize and validate scheduled time.
+	if err := validateTimes(m.Scheduled); err != nil {
+		return err
+	}
 	if m.Defer != "" && m.Scheduled == nil {
 		d, err := time.ParseDuration(m.Defer)
 		if err != nil {
diff --git a/internal/middleware/middleware.go b/internal/middleware/middleware.go
index b360bd2..ffaaf65 100644
--- a/internal/middleware/middleware.go
+++ b/internal/middleware/middleware.go
@@ -2,6 +2,8 @@
 package middleware
 
 import (
+	"time"
+
 	"github.com/gin-gonic/gin"
 
 	"github.com/hyperonym/ratus"
@@ -23,3 +25,17 @@ func fail(c *gin.Context, err error) {
 	e := ratus.NewError(err)
 	c.AbortWithStatusJSON(e.Error.Code, e)
 }
+
+// validateTimes rejects timestamps that can not be encoded in responses, such
+// as those with a time zone offset of 24 hours or more.
+func validateTimes(ts ...*time.Time) error {
+	for _, t := range ts {
+		if t == nil {
+			continue
+		}
+		if _, err := t.MarshalJSON(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
diff --git a/internal/middleware/promise.go b/internal/middleware/promise.go
index 891f57f..9aa7389 100644
--- a/internal/middleware/promise.go
+++ b/internal/middleware/promise.go
@@ -50,7 +50,10 @@ func normalizePromise(p *ratus.Promise, id string) error {
 		return errors.New("promise ID is inconsistent with the path parameter")
 	}
 
-	// Normalize deadline time.
+	// Normalize and validate deadline time.
+	if err := validateTimes(p.Deadline); err != nil {
+		return err
+	}
 	if p.Deadline == nil {
 		if p.Timeout == "" {
 			p.Timeout = ratus.DefaultTimeout
diff --git a/internal/middleware/task.go b/internal/middleware/task.go
index d29f353..681ddd1 100644
--- a/internal/middleware/task.go
+++ b/internal/middleware/task.go
@@ -105,6 +105,11 @@ func normalizeTask(t *ratus.Task, id, topic string) error {
 		return fmt.Errorf("invalid state %d", t.State)
 	}
 
+	// Validate timestamps.
+	if err := validateTimes(t.Produced, t.Scheduled, t.Consumed, t.Deadline); err != nil {
+		return err
+	}
+
 	// Normalize produced time.
 	n := time.Now()
 	if t.Produced == nil {
-- 
2.43.0


From d596a00801a33f2a571b5fe2431b4c3d3ec9bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:25 +0000
Subject: [PATCH 15/24] fix: accept empty batches of tasks in mongodb

---
 internal/engine/mongodb/task.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index cb4d598..197b3d2 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -27,6 +27,12 @@ func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int)
 
 // InsertTasks inserts a batch of tasks while ignoring existing ones.
 func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+
+	// Bulk writes must contain at least one operation.
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	w := make([]mongo.WriteModel, len(ts))
 	for i, t := range ts {
 		m := mongo.NewInsertOneModel()
@@ -51,6 +57,12 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 
 // UpsertTasks inserts or updates a batch of tasks.
 func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+
+	// Bulk writes must contain at least one operation.
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	return branch(func() (*ratus.Updated, error) {
 		return g.upsertTasksReplace(ctx, ts)
 	}, func() (*ratus.Updated, error) {
-- 
2.43.0


From 1f47094808f61114fc3ff636e3a70386d14c36c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 16/24] fix: store zero timestamps and payloads such as false
 in mongodb

---
 ratus.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ratus.go b/ratus.go
index 66b82d6..6e11b61 100644
--- a/ratus.go
+++ b/ratus.go
@@ -116,25 +116,25 @@ type Task struct {
 	// The time the task was created.
 	// Timestamps are generated by the instance running Ratus, remember to
 	// perform clock synchronization before running multiple instances.
-	Produced *time.Time `json:"produced,omitempty" bson:"produced,omitempty"`
+	Produced *time.Time `json:"produced,omitempty" bson:"produced"`
 	// The time the task is scheduled to be executed. Tasks will not be
 	// executed until the scheduled time arrives. After the scheduled time,
 	// excessive tasks will be executed in the order of the scheduled time.
-	Scheduled *time.Time `json:"scheduled,omitempty" bson:"scheduled,omitempty"`
+	Scheduled *time.Time `json:"scheduled,omitempty" bson:"scheduled"`
 	// The time the task was claimed by a consumer.
 	// Not to confuse this with the time of commit, which is not recorded.
-	Consumed *time.Time `json:"consumed,omitempty" bson:"consumed,omitempty"`
+	Consumed *time.Time `json:"consumed,omitempty" bson:"consumed"`
 	// The deadline for the completion of execution promised by the consumer.
 	// Consumer code needs to commit the task before this deadline, otherwise
 	// the task is determined to have timed out and will be reset to the
 	// "pending" state, allowing other consumers to retry.
-	Deadline *time.Time `json:"deadline,omitempty" bson:"deadline,omitempty"`
+	Deadline *time.Time `json:"deadline,omitempty" bson:"deadline"`
 
 	// A minimal descriptor of the task to be executed.
 	// It is not recommended to rely on Ratus as the main storage of tasks.
 	// Instead, consider storing the complete task record in a database, and
 	// use a minimal descriptor as the payload to reference the task.
-	Payload any `json:"payload,omitempty" bson:"payload,omitempty"`
+	Payload any `json:"payload,omitempty" bson:"payload"`
 
 	// A duration relative to the time the task is accepted, indicating that
 	// the task will be scheduled to execute after this duration. When the
-- 
2.43.0


From 306018e59b8c108622765846fc7eb1647bbb0049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 17/24] fix: count identical tasks as updated when upserting in
 mongodb

---
 internal/engine/mongodb/task.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index 197b3d2..9151566 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -93,7 +93,7 @@ func (g *Engine) upsertTasksReplace(ctx context.Context, ts []*ratus.Task) (*rat
 
 	return &ratus.Updated{
 		Created: r.InsertedCount + r.UpsertedCount,
-		Updated: r.ModifiedCount,
+		Updated: r.MatchedCount,
 	}, nil
 }
 
@@ -197,7 +197,7 @@ func (g *Engine) upsertTaskReplace(ctx context.Context, t *ratus.Task) (*ratus.U
 
 	return &ratus.Updated{
 		Created: r.UpsertedCount,
-		Updated: r.ModifiedCount,
+		Updated: r.MatchedCount,
 	}, nil
 }
 
-- 
2.43.0


From 3e60ca3a06b0b6bb41fae958165a26b87d1a2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 18/24] fix: keep the last of duplicate tasks in mongodb
 fallback upserts

---
 internal/engine/mongodb/task.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index 9151566..aaa91f2 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -100,19 +100,30 @@ func (g *Engine) upsertTasksReplace(ctx context.Context, ts []*ratus.Task) (*rat
 // upsertTasksDeleteAndInsert is the fallback implementation of UpsertTasks.
 func (g *Engine) upsertTasksDeleteAndInsert(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
 
+	// Keep only the last one of the tasks sharing the same ID in the batch.
+	u := make([]*ratus.Task, 0, len(ts))
+	k := make(map[string]int, len(ts))
+	for _, t := range ts {
+		if i, ok := k[t.ID]; ok {
+			u[i] = t
+			continue
+		}
+		k[t.ID] = len(u)
+		u = append(u, t)
+	}
+
 	// Delete tasks with the same IDs before inserting to avoid modification of
 	// shard key values. It's ugly, but as far as I know it's the only way to
 	// circumvent MongoDB's own limitations on sharded collections:
 	// https://www.mongodb.com/docs/v4.4/reference/method/db.collection.replaceOne/#shard-key-modification
-	w := make([]mongo.WriteModel, len(ts))
-	for i, t := range ts {
+	w := make([]mongo.WriteModel, len(u))
+	for i, t := range u {
 		m := mongo.NewDeleteOneModel()
 		m = m.SetFilter(bson.D{{Key: keyID, Value: t.ID}})
 		m = m.SetHint(indexID)
 		w[i] = m
 	}
 
-	// The number of deleted tasks is the number of tasks that should be updated.
 	o := options.BulkWrite().SetOrdered(false)
 	r, err := g.collection.BulkWrite(ctx, w, o)
 	if err != nil {
@@ -122,13 +133,15 @@ func (g *Engine) upsertTasksDeleteAndInsert(ctx context.Context, ts []*ratus.Tas
 	// Insert the tasks and ignore duplicate key errors in race conditions.
 	// This operation is expected to work on sharded collections using various
 	// sharding strategies.
-	if _, err := g.InsertTasks(ctx, ts); err != nil {
+	if _, err := g.InsertTasks(ctx, u); err != nil {
 		return nil, err
 	}
 
+	// The deleted tasks are those not created by the batch.
+	n := int64(len(u)) - r.DeletedCount
 	return &ratus.Updated{
-		Created: int64(len(ts)) - r.DeletedCount,
-		Updated: r.DeletedCount,
+		Created: n,
+		Updated: int64(len(ts)) - n,
 	}, nil
 }
 
-- 
2.43.0


From a83ddd8d21c089af1885456d475564a3d8f025f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:20 +0000
Subject: [PATCH 19/24] fix: count tasks created before an upsert falls back in
 mongodb

---
 internal/engine/mongodb/task.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index aaa91f2..351101c 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -63,14 +63,29 @@ func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 		return &ratus.Updated{}, nil
 	}
 
+	// The preferred branch may have created some of the tasks before failing,
+	// which should not be considered as updated by the fallback branch.
+	var n int64
 	return branch(func() (*ratus.Updated, error) {
-		return g.upsertTasksReplace(ctx, ts)
+		v, err := g.upsertTasksReplace(ctx, ts)
+		if err != nil {
+			n = v.Created
+			v = nil
+		}
+		return v, err
 	}, func() (*ratus.Updated, error) {
-		return g.upsertTasksDeleteAndInsert(ctx, ts)
+		v, err := g.upsertTasksDeleteAndInsert(ctx, ts)
+		if err != nil {
+			return nil, err
+		}
+		v.Created += n
+		v.Updated -= n
+		return v, nil
 	}, g.fallbackUpsertTasks)
 }
 
-// upsertTasksReplace is the preferred implementation of UpsertTasks.
+// upsertTasksReplace is the preferred implementation of UpsertTasks. Tasks that
+// were upserted regardless of an error are included in the returned numbers.
 func (g *Engine) upsertTasksReplace(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
 
 	// Perform replace operation with upsert enabled for each task in the list.
@@ -87,14 +102,14 @@ func (g *Engine) upsertTasksReplace(ctx context.Context, ts []*ratus.Task) (*rat
 	}
 	o := options.BulkWrite().SetOrdered(false)
 	r, err := g.collection.BulkWrite(ctx, w, o)
-	if err != nil {
-		return nil, err
+	if r == nil {
+		r = &mongo.BulkWriteResult{}
 	}
 
 	return &ratus.Updated{
 		Created: r.InsertedCount + r.UpsertedCount,
 		Updated: r.MatchedCount,
-	}, nil
+	}, err
 }
 
 // upsertTasksDeleteAndInsert is the fallback implementation of UpsertTasks.
-- 
2.43.0


From e020f06f6ce947ff2ecbb20696fa4348ed2cda92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:11 +0000
Subject: [PATCH 20/24] fix: report failures while looking for existing tasks
 in mongodb

---
 internal/engine/mongodb/mongodb.go |  7 +++++--
 internal/engine/mongodb/promise.go |  8 +++++---
 internal/engine/mongodb/queue.go   | 12 ++++++++----
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/internal/engine/mongodb/mongodb.go b/internal/engine/mongodb/mongodb.go
index f6a2ba1..a0099bd 100644
--- a/internal/engine/mongodb/mongodb.go
+++ b/internal/engine/mongodb/mongodb.go
@@ -265,9 +265,12 @@ func (g *Engine) peek(ctx context.Context, filter, sort any, hint string) (*ratu
 }
 
 // exists returns whether a document that matches the filter criteria exists.
-func (g *Engine) exists(ctx context.Context, filter any, hint string) bool {
+func (g *Engine) exists(ctx context.Context, filter any, hint string) (bool, error) {
 	_, err := g.peek(ctx, filter, nil, hint)
-	return err == nil
+	if err == mongo.ErrNoDocuments {
+		return false, nil
+	}
+	return err == nil, err
 }
 
 // queryOpsPoll returns a document containing query operators to peek into the
diff --git a/internal/engine/mongodb/promise.go b/internal/engine/mongodb/promise.go
index ab3070d..efff7e6 100644
--- a/internal/engine/mongodb/promise.go
+++ b/internal/engine/mongodb/promise.go
@@ -100,10 +100,12 @@ func (g *Engine) insertPromiseAtomic(ctx context.Context, p *ratus.Promise) (*ra
 		// Check if the failure is due to a mismatch of state or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID) {
+			err = ratus.ErrNotFound
+			ok, e := g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID)
+			if e != nil {
+				err = e
+			} else if ok {
 				err = ratus.ErrConflict
-			} else {
-				err = ratus.ErrNotFound
 			}
 		}
 		return nil, err
diff --git a/internal/engine/mongodb/queue.go b/internal/engine/mongodb/queue.go
index f3cb35a..4bb21f3 100644
--- a/internal/engine/mongodb/queue.go
+++ b/internal/engine/mongodb/queue.go
@@ -130,10 +130,14 @@ func (g *Engine) commitAtomic(ctx context.Context, id string, m *ratus.Commit) (
 		// Check if the failure is due to a mismatch of nonce or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if m.Nonce != "" && g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID) {
-				err = ratus.ErrConflict
-			} else {
-				err = ratus.ErrNotFound
+			err = ratus.ErrNotFound
+			if m.Nonce != "" {
+				ok, e := g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID)
+				if e != nil {
+					err = e
+				} else if ok {
+					err = ratus.ErrConflict
+				}
 			}
 		}
 		return nil, err
-- 
2.43.0


From 7220dac6214a7bf36016de335407bfcc84c8c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:34 +0000
Subject: [PATCH 21/24] fix: report failed writes among duplicate tasks in
 mongodb

---
 internal/engine/mongodb/task.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index 351101c..c24ffd3 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -45,7 +45,7 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 	// MongoDB will continue to process remaining write operations in the list.
 	o := options.BulkWrite().SetOrdered(false)
 	r, err := g.collection.BulkWrite(ctx, w, o)
-	if err != nil && !mongo.IsDuplicateKeyError(err) {
+	if err != nil && !onlyDuplicateKeyErrors(err) {
 		return nil, err
 	}
 
@@ -55,6 +55,21 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 	}, nil
 }
 
+// onlyDuplicateKeyErrors returns whether a bulk write failed for no other
+// reason than duplicate keys.
+func onlyDuplicateKeyErrors(err error) bool {
+	e, ok := err.(mongo.BulkWriteException)
+	if !ok || e.WriteConcernError != nil {
+		return false
+	}
+	for _, w := range e.WriteErrors {
+		if !mongo.IsDuplicateKeyError(w) {
+			return false
+		}
+	}
+	return true
+}
+
 // UpsertTasks inserts or updates a batch of tasks.
 func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
 
-- 
2.43.0


From 8502a2d76c2bb872b62f7334146694ee845e489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:49 +0000
Subject: [PATCH 22/24] fix: keep completed tasks for fractional and very long
 retention periods in mongodb

---
 internal/engine/mongodb/mongodb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/engine/mongodb/mongodb.go b/internal/engine/mongodb/mongodb.go
index a0099bd..95db9bd 100644
--- a/internal/engine/mongodb/mongodb.go
+++ b/internal/engine/mongodb/mongodb.go
@@ -3,6 +3,7 @@ package mongodb
 
 import (
 	"context"
+	"math"
 	"reflect"
 	"sync/atomic"
 	"time"
@@ -214,7 +215,9 @@ func (g *Engine) createIndexes(ctx context.Context) error {
 	// exceeded their retention period.
 	e.Go(func() error {
 		k := bson.D{{Key: keyConsumed, Value: 1}}
-		s := int32(g.config.RetentionPeriod.Seconds())
+
+		// The TTL value is limited to whole seconds that fit in 32 bits.
+		s := int32(math.Min(math.Ceil(g.config.RetentionPeriod.Seconds()), math.MaxInt32))
 
 		// Attempt to create a new TTL index. This operation will fail if the
 		// specified TTL value does not match the value in the existing index.
-- 
2.43.0


From 1942426249c76acc6690384b182872ff5423c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 23/24] fix: run background jobs only once after the initial
 delay

The ticker used for the initial delay, which is a nanosecond by default,
may have further ticks pending when it is reset to the normal interval, in
which case the jobs ran up to three times in a row at startup.
---
 cmd/ratus/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 62300eb..7db91a4 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -217,11 +217,13 @@ func chore(ctx context.Context, g engine.Engine, c *config.ChoreConfig) error {
 			return ctx.Err()
 		case <-r.C:
 
-			// Reset the timer to use the normal interval after the initial delay.
+			// Use the normal interval after the initial delay. Replacing the
+			// ticker discards ticks that are already due to the short delay.
 			if !n {
 				log.Println("start running background jobs")
 				n = true
-				r.Reset(c.Interval)
+				r.Stop()
+				r = time.NewTicker(c.Interval)
 			}
 
 			// Run background jobs and collect the elapsed time.
-- 
2.43.0


From 2b9073f8314ef525e6add121931ab9b8679c658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 24/24] fix: page limits whose sum with the offset overflows
 emptied the page

---
 internal/engine/memdb/promise.go | 2 +-
 internal/engine/memdb/task.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/engine/memdb/promise.go b/internal/engine/memdb/promise.go
index 3f52157..204bff5 100644
--- a/internal/engine/memdb/promise.go
+++ b/internal/engine/memdb/promise.go
@@ -18,7 +18,7 @@ func (g *Engine) ListPromises(ctx context.Context, topic string, limit, offset i
 		return nil, err
 	}
 	v := make([]*ratus.Promise, 0)
-	for i, r := 0, it.Next(); i < offset+limit && r != nil; i, r = i+1, it.Next() {
+	for i, r := 0, it.Next(); i-offset < limit && r != nil; i, r = i+1, it.Next() {
 		if i < offset {
 			continue
 		}
diff --git a/internal/engine/memdb/task.go b/internal/engine/memdb/task.go
index 8ce9373..d42d697 100644
--- a/internal/engine/memdb/task.go
+++ b/internal/engine/memdb/task.go
@@ -17,7 +17,7 @@ func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int)
 		return nil, err
 	}
 	v := make([]*ratus.Task, 0)
-	for i, r := 0, it.Next(); i < offset+limit && r != nil; i, r = i+1, it.Next() {
+	for i, r := 0, it.Next(); i-offset < limit && r != nil; i, r = i+1, it.Next() {
 		if i < offset {
 			continue
 		}
-- 
2.43.0

