package mgo

import (
	"errors"
	"fmt"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

// Fault is something that goes wrong with a command.
type Fault struct {
	Err   *Failure         // the command fails
	Drop  string           // the connection is lost "before" or "after" the command is executed
	Write map[int]*Failure // these writes of a bulk fail
	Delay time.Duration
}

type writer struct {
	n, modified int
	upserted    bson.A
	errs        bson.A
	ordered     bool
	fault       map[int]*Failure
}

// try runs one write of a bulk; it returns false when the bulk ends.
func (w *writer) try(i int, f func() error) (bool, error) {
	var err error
	if x := w.fault[i]; x != nil {
		err = x
	} else {
		err = f()
	}
	if err == nil {
		return true, nil
	}
	var x *Failure
	if !errors.As(err, &x) {
		return false, err
	}
	e := bson.D{{Key: "index", Value: int32(i)}, {Key: "code", Value: x.Code}, {Key: "codeName", Value: x.Name}, {Key: "errmsg", Value: x.Msg}}
	if x.Code == 11000 {
		e = append(e, bson.E{Key: "keyPattern", Value: bson.D{{Key: "_id", Value: int32(1)}}})
	}
	w.errs = append(w.errs, e)
	return !w.ordered, nil
}

func (w *writer) reply(update bool) bson.D {
	r := bson.D{{Key: "n", Value: int32(w.n)}}
	if update {
		r = append(r, bson.E{Key: "nModified", Value: int32(w.modified)})
	}
	if len(w.upserted) > 0 {
		r = append(r, bson.E{Key: "upserted", Value: w.upserted})
	}
	if len(w.errs) > 0 {
		r = append(r, bson.E{Key: "writeErrors", Value: w.errs})
	}
	return append(r, bson.E{Key: "ok", Value: 1.0})
}

func (s *Deployment) cursor(ns string, docs []bson.D, batch int64, set bool) bson.D {
	n := int64(101)
	if s.Batch > 0 {
		n = int64(s.Batch)
	}
	if set && batch >= 0 && (s.Batch == 0 || batch < n) {
		n = batch
	}
	id := int64(0)
	first := docs
	if int64(len(docs)) > n {
		first = docs[:n]
		s.next++
		id = s.next
		s.cursors[id] = &cursor{ns, docs[n:]}
	}
	return bson.D{{Key: "cursor", Value: bson.D{{Key: "firstBatch", Value: arr(first)}, {Key: "id", Value: id}, {Key: "ns", Value: ns}}}, {Key: "ok", Value: 1.0}}
}

func arr(l []bson.D) bson.A {
	a := bson.A{}
	for _, d := range l {
		a = append(a, d)
	}
	return a
}

// execute runs one command.
func (s *Deployment) execute(db string, cmd bson.D, fault *Fault) (bson.D, error) {
	name := cmd[0].Key
	s.Counts[name]++
	target, _ := cmd[0].Value.(string)
	ns := db + "." + target
	hintOf := func(d bson.D) any { v, _ := get(d, "hint"); return v }
	wr := &writer{ordered: true}
	if v, ok := get(cmd, "ordered"); ok {
		wr.ordered = truthy(v)
	}
	if fault != nil {
		wr.fault = fault.Write
	}
	ok1 := bson.D{{Key: "ok", Value: 1.0}}
	switch name {
	case "hello", "isMaster", "ismaster":
		mb := int32(100000)
		if s.MaxBatch > 0 {
			mb = int32(s.MaxBatch)
		}
		r := bson.D{{Key: "ismaster", Value: true}, {Key: "isWritablePrimary", Value: true}, {Key: "helloOk", Value: true}, {Key: "maxBsonObjectSize", Value: int32(16 << 20)}, {Key: "maxMessageSizeBytes", Value: int32(48000000)}, {Key: "maxWriteBatchSize", Value: mb},
			{Key: "localTime", Value: primitive.NewDateTimeFromTime(time.Now())}, {Key: "connectionId", Value: int32(1)}, {Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(21)}, {Key: "readOnly", Value: false}}
		if s.ShardKey != "" {
			r = append(r, bson.E{Key: "msg", Value: "isdbgrid"}, bson.E{Key: "logicalSessionTimeoutMinutes", Value: int32(30)})
		}
		return append(r, bson.E{Key: "ok", Value: 1.0}), nil
	case "ping", "endSessions", "killCursors":
		if name == "killCursors" {
			for _, c := range getA(cmd, "cursors") {
				n, _ := integer(c)
				delete(s.cursors, n)
			}
		}
		return ok1, nil
	case "insert":
		for i, x := range getA(cmd, "documents") {
			more, err := wr.try(i, func() error {
				if err := s.insert(ns, x.(bson.D)); err != nil {
					return err
				}
				wr.n++
				return nil
			})
			if err != nil {
				return nil, err
			}
			if !more {
				break
			}
		}
		return wr.reply(false), nil
	case "update":
		for i, x := range getA(cmd, "updates") {
			x := x.(bson.D)
			more, err := wr.try(i, func() error { return s.updateOne(ns, x, i, wr) })
			if err != nil {
				return nil, err
			}
			if !more {
				break
			}
		}
		return wr.reply(true), nil
	case "delete":
		for i, x := range getA(cmd, "deletes") {
			x := x.(bson.D)
			more, err := wr.try(i, func() error {
				q := getD(x, "q")
				l, err := s.find(ns, q, nil, hintOf(x))
				if err != nil {
					return err
				}
				lim, _ := getN(x, "limit")
				if lim == 1 && len(l) > 1 {
					l = l[:1]
				}
				if lim == 1 && !s.pinned(q) {
					if _, ok := get(implied(q), "_id"); !ok {
						return fail(61, "ShardKeyNotFound", "A single delete on a sharded collection must contain an exact match on _id or contain the shard key")
					}
				}
				s.remove(ns, l)
				wr.n += len(l)
				return nil
			})
			if err != nil {
				return nil, err
			}
			if !more {
				break
			}
		}
		return wr.reply(false), nil
	case "find":
		f := getD(cmd, "filter")
		l, err := s.find(ns, f, getD(cmd, "sort"), hintOf(cmd))
		if err != nil {
			return nil, err
		}
		if n, ok := getN(cmd, "skip"); ok {
			l = l[min(int64(len(l)), n):]
		}
		if n, ok := getN(cmd, "limit"); ok && n != 0 {
			if n < 0 {
				return nil, fail(51024, "Location51024", "BSON field 'limit' value must be >= 0, actual value '%d'", n)
			}
			l = l[:min(int64(len(l)), n)]
		}
		var docs []bson.D
		for _, i := range l {
			docs = append(docs, project(s.Docs(ns)[i], getD(cmd, "projection")))
		}
		b, set := getN(cmd, "batchSize")
		if getB(cmd, "singleBatch") {
			b, set = int64(len(docs)), true
			k := s.Batch
			s.Batch = 0
			defer func() { s.Batch = k }()
		}
		return s.cursor(ns, docs, b, set), nil
	case "getMore":
		id, _ := integer(cmd[0].Value)
		c := s.cursors[id]
		if c == nil {
			return nil, fail(43, "CursorNotFound", "cursor id %d not found", id)
		}
		n := int64(len(c.docs))
		if s.Batch > 0 {
			n = min(n, int64(s.Batch))
		}
		if b, ok := getN(cmd, "batchSize"); ok && b > 0 {
			n = min(n, b)
		}
		l := c.docs[:n]
		c.docs = c.docs[n:]
		if len(c.docs) == 0 {
			delete(s.cursors, id)
			id = 0
		}
		return bson.D{{Key: "cursor", Value: bson.D{{Key: "nextBatch", Value: arr(l)}, {Key: "id", Value: id}, {Key: "ns", Value: c.ns}}}, {Key: "ok", Value: 1.0}}, nil
	case "count", "distinct":
		q := getD(cmd, "query")
		l, err := s.find(ns, q, nil, hintOf(cmd))
		if err != nil {
			return nil, err
		}
		if name == "count" {
			if n, ok := getN(cmd, "skip"); ok {
				l = l[min(int64(len(l)), n):]
			}
			if n, ok := getN(cmd, "limit"); ok && n > 0 {
				l = l[:min(int64(len(l)), n)]
			}
			return bson.D{{Key: "n", Value: int32(len(l))}, {Key: "ok", Value: 1.0}}, nil
		}
		vals := bson.A{}
		for _, i := range l {
			v, has := get(s.Docs(ns)[i], getS(cmd, "key"))
			dup := !has
			for _, w := range vals {
				dup = dup || cmp(v, w) == 0
			}
			if !dup {
				vals = append(vals, v)
			}
		}
		return bson.D{{Key: "values", Value: vals}, {Key: "ok", Value: 1.0}}, nil
	case "findAndModify", "findandmodify":
		return s.findAndModify(ns, cmd)
	case "aggregate":
		return s.aggregate(ns, cmd)
	case "createIndexes":
		return s.createIndexes(ns, cmd)
	case "collMod":
		c := s.colls[ns]
		if c == nil {
			return nil, fail(26, "NamespaceNotFound", "ns does not exist")
		}
		d := getD(cmd, "index")
		for _, x := range c.indexes {
			if k := getD(d, "keyPattern"); k != nil && same(k, x.key) || getS(d, "name") == x.name {
				n, ok := getN(d, "expireAfterSeconds")
				if !ok || x.expire == nil && len(x.key) != 1 {
					return nil, fail(72, "InvalidOptions", "no expireAfterSeconds field to update")
				}
				if n < 0 || n > 1<<31-1 {
					return nil, fail(72, "InvalidOptions", "expireAfterSeconds out of range")
				}
				x.expire = &n
				return ok1, nil
			}
		}
		return nil, fail(27, "IndexNotFound", "cannot find index for ns %s", ns)
	case "drop":
		if s.colls[ns] == nil {
			return nil, fail(26, "NamespaceNotFound", "ns not found")
		}
		delete(s.colls, ns)
		return ok1, nil
	case "listIndexes":
		var l []bson.D
		for _, x := range s.coll(ns, false).indexes {
			d := bson.D{{Key: "v", Value: int32(2)}, {Key: "key", Value: x.key}, {Key: "name", Value: x.name}}
			if x.partial != nil {
				d = append(d, bson.E{Key: "partialFilterExpression", Value: x.partial})
			}
			if x.expire != nil {
				d = append(d, bson.E{Key: "expireAfterSeconds", Value: int32(*x.expire)})
			}
			l = append(l, d)
		}
		return s.cursor(ns, l, 0, false), nil
	case "dropIndexes":
		c := s.coll(ns, true)
		k := getS(cmd, "index")
		for i, x := range c.indexes {
			if x.name == k && i > 0 {
				c.indexes = append(c.indexes[:i:i], c.indexes[i+1:]...)
				return ok1, nil
			}
		}
		return nil, fail(27, "IndexNotFound", "index not found with name [%s]", k)
	case "create":
		s.coll(ns, true)
		return ok1, nil
	case "buildInfo":
		return bson.D{{Key: "version", Value: "7.0.0"}, {Key: "ok", Value: 1.0}}, nil
	}
	return nil, unsupported("command %s", name)
}

func (s *Deployment) remove(ns string, l []int) {
	c := s.coll(ns, false)
	gone := map[int]bool{}
	for _, i := range l {
		gone[i] = true
	}
	var keep []bson.D
	for i, d := range c.docs {
		if !gone[i] {
			keep = append(keep, d)
		}
	}
	c.docs = keep
}

// updateOne executes one statement of an update command.
func (s *Deployment) updateOne(ns string, x bson.D, i int, wr *writer) error {
	q := getD(x, "q")
	u, _ := get(x, "u")
	hint, _ := get(x, "hint")
	l, err := s.find(ns, q, nil, hint)
	if err != nil {
		return err
	}
	multi, upsert := getB(x, "multi"), getB(x, "upsert")
	ud, isDoc := u.(bson.D)
	ops := !isDoc || len(ud) > 0 && ud[0].Key[0] == '$'
	if multi && !ops {
		return fail(9, "FailedToParse", "multi update is not supported for replacement-style update")
	}
	if s.ShardKey != "" && !multi && !s.pinned(q) {
		_, byID := get(implied(q), "_id")
		if !byID || upsert && ops {
			return fail(61, "ShardKeyNotFound", "Failed to target update by query :: could not extract exact shard key")
		}
		if !ops {
			for _, k := range l {
				a, _ := get(s.Docs(ns)[k], s.ShardKey)
				b, _ := get(ud, s.ShardKey)
				if cmp(a, b) != 0 {
					return fail(31025, "Location31025", "Shard key update is not allowed without specifying the full shard key in the query")
				}
			}
		}
	}
	if !multi && len(l) > 1 {
		l = l[:1]
	}
	c := s.coll(ns, upsert)
	var next []bson.D
	for _, k := range l {
		d, err := update(c.docs[k], u, false)
		if err != nil {
			return err
		}
		if err := valid(d); err != nil {
			return err
		}
		next = append(next, d)
	}
	for n, k := range l {
		wr.n++
		if !same(c.docs[k], next[n]) {
			c.docs[k] = next[n]
			wr.modified++
		}
	}
	if len(l) > 0 || !upsert {
		return nil
	}
	d, err := update(implied(q), u, true)
	if err != nil {
		return err
	}
	if !ops {
		// Only the identifier is taken from the query.
		id, ok := get(implied(q), "_id")
		if _, has := get(ud, "_id"); !has && ok {
			d = append(bson.D{{Key: "_id", Value: id}}, ud...)
		}
	}
	if _, ok := get(d, "_id"); !ok {
		d = append(bson.D{{Key: "_id", Value: primitive.NewObjectID()}}, d...)
	}
	if err := s.insert(ns, d); err != nil {
		return err
	}
	id, _ := get(d, "_id")
	wr.n++
	wr.upserted = append(wr.upserted, bson.D{{Key: "index", Value: int32(i)}, {Key: "_id", Value: id}})
	return nil
}

func (s *Deployment) findAndModify(ns string, cmd bson.D) (bson.D, error) {
	q := getD(cmd, "query")
	if !s.pinned(q) {
		return nil, fail(61, "ShardKeyNotFound", "Query for sharded findAndModify must contain the shard key")
	}
	hint, _ := get(cmd, "hint")
	l, err := s.find(ns, q, getD(cmd, "sort"), hint)
	if err != nil {
		return nil, err
	}
	u, has := get(cmd, "update")
	upsert, isNew, remove := getB(cmd, "upsert"), getB(cmd, "new"), getB(cmd, "remove")
	fields := getD(cmd, "fields")
	reply := func(n int, existing bool, v any) bson.D {
		return bson.D{{Key: "lastErrorObject", Value: bson.D{{Key: "n", Value: int32(n)}, {Key: "updatedExisting", Value: existing}}}, {Key: "value", Value: v}, {Key: "ok", Value: 1.0}}
	}
	if len(l) == 0 {
		if !upsert {
			return reply(0, false, nil), nil
		}
		d, err := update(implied(q), u, true)
		if err != nil {
			return nil, err
		}
		if err := s.insert(ns, d); err != nil {
			return nil, err
		}
		if !isNew {
			return reply(1, false, nil), nil
		}
		return reply(1, false, project(d, fields)), nil
	}
	c := s.coll(ns, false)
	old := c.docs[l[0]]
	if remove {
		s.remove(ns, l[:1])
		return bson.D{{Key: "lastErrorObject", Value: bson.D{{Key: "n", Value: int32(1)}}}, {Key: "value", Value: project(old, fields)}, {Key: "ok", Value: 1.0}}, nil
	}
	if !has {
		return nil, fail(9, "FailedToParse", "Either an update or remove=true must be specified")
	}
	d, err := update(old, u, false)
	if err != nil {
		return nil, err
	}
	if err := valid(d); err != nil {
		return nil, err
	}
	c.docs[l[0]] = d
	if isNew {
		return reply(1, true, project(d, fields)), nil
	}
	return reply(1, true, project(old, fields)), nil
}

func (s *Deployment) aggregate(ns string, cmd bson.D) (bson.D, error) {
	hint, _ := get(cmd, "hint")
	l, err := s.find(ns, nil, nil, hint)
	if err != nil {
		return nil, err
	}
	var docs []bson.D
	for _, i := range l {
		docs = append(docs, s.Docs(ns)[i])
	}
	for _, x := range getA(cmd, "pipeline") {
		st := x.(bson.D)[0]
		switch st.Key {
		case "$match":
			var o []bson.D
			for _, d := range docs {
				ok, err := match(d, st.Value.(bson.D))
				if err != nil {
					return nil, err
				}
				if ok {
					o = append(o, d)
				}
			}
			docs = o
		case "$skip", "$limit":
			n, ok := number(st.Value)
			if !ok || n < 0 || st.Key == "$limit" && n < 1 {
				return nil, fail(15958, "Location15958", "the limit must be positive")
			}
			k := min(len(docs), int(n))
			if st.Key == "$skip" {
				docs = docs[k:]
			} else {
				docs = docs[:k]
			}
		case "$sort":
			c := &coll{docs: docs, indexes: nil}
			t := &Deployment{colls: map[string]*coll{"x": c}}
			l, err := t.find("x", nil, st.Value.(bson.D), nil)
			if err != nil {
				return nil, err
			}
			var o []bson.D
			for _, i := range l {
				o = append(o, docs[i])
			}
			docs = o
		case "$count":
			n := len(docs)
			docs = nil
			if n > 0 {
				docs = []bson.D{{{Key: st.Value.(string), Value: int32(n)}}}
			}
		case "$project", "$unset":
			if p, ok := st.Value.(bson.D); ok {
				var o []bson.D
				for _, d := range docs {
					w := project(d, p)
					for _, e := range p {
						if s, ok := e.Value.(string); ok {
							v, err := expr(d, s)
							if err != nil {
								return nil, err
							}
							w = unset(w, e.Key)
							w = append(w, bson.E{Key: e.Key, Value: v})
						}
					}
					o = append(o, w)
				}
				docs = o
				continue
			}
			return nil, unsupported("stage %s", st.Key)
		case "$group":
			g := st.Value.(bson.D)
			var keys []any
			groups := [][]bson.D{}
			for _, d := range docs {
				id, _ := get(g, "_id")
				k, err := expr(d, id)
				if err != nil {
					return nil, err
				}
				at := -1
				for i, o := range keys {
					if cmp(o, k) == 0 {
						at = i
					}
				}
				if at < 0 {
					at = len(keys)
					keys = append(keys, k)
					groups = append(groups, nil)
				}
				groups[at] = append(groups[at], d)
			}
			docs = nil
			for i, k := range keys {
				o := bson.D{{Key: "_id", Value: k}}
				for _, e := range g {
					if e.Key == "_id" {
						continue
					}
					acc := e.Value.(bson.D)[0]
					switch acc.Key {
					case "$sum", "$count":
						var n int64
						if acc.Key == "$count" {
							n = int64(len(groups[i]))
						}
						for _, d := range groups[i] {
							v, err := expr(d, acc.Value)
							if err != nil {
								return nil, err
							}
							if f, ok := number(v); ok && acc.Key == "$sum" {
								n += int64(f)
							}
						}
						o = append(o, bson.E{Key: e.Key, Value: int32(n)})
					case "$first", "$min", "$max":
						var best any
						for j, d := range groups[i] {
							v, err := expr(d, acc.Value)
							if err != nil {
								return nil, err
							}
							if j == 0 || acc.Key == "$min" && cmp(v, best) < 0 || acc.Key == "$max" && cmp(v, best) > 0 {
								best = v
							}
						}
						o = append(o, bson.E{Key: e.Key, Value: best})
					default:
						return nil, unsupported("accumulator %s", acc.Key)
					}
				}
				docs = append(docs, o)
			}
		default:
			return nil, unsupported("stage %s", st.Key)
		}
	}
	b, set := getN(getD(cmd, "cursor"), "batchSize")
	return s.cursor(ns, docs, b, set), nil
}

func (s *Deployment) createIndexes(ns string, cmd bson.D) (bson.D, error) {
	c := s.coll(ns, true)
	for _, v := range getA(cmd, "indexes") {
		d := v.(bson.D)
		x := &index{name: getS(d, "name"), key: getD(d, "key"), partial: getD(d, "partialFilterExpression"), unique: getB(d, "unique")}
		if x.name == "" || len(x.key) == 0 {
			return nil, fail(67, "CannotCreateIndex", "bad index specification")
		}
		for _, e := range x.key {
			if k, ok := e.Value.(string); ok && k != "hashed" && k != "text" && k != "2dsphere" {
				return nil, fail(67, "CannotCreateIndex", "Unknown index plugin '%s'", k)
			}
		}
		if e, ok := getN(d, "expireAfterSeconds"); ok {
			if e < 0 || e > 1<<31-1 {
				return nil, fail(67, "CannotCreateIndex", "TTL index 'expireAfterSeconds' option must be within the range 0 to 2147483647, actual value %d", e)
			}
			if len(x.key) != 1 {
				return nil, fail(67, "CannotCreateIndex", "TTL indexes are single-field indexes")
			}
			x.expire = &e
		}
		exists := false
		for _, o := range c.indexes {
			spec := same(o.key, x.key) && same(o.partial, x.partial)
			opts := o.unique == x.unique && (o.expire == nil) == (x.expire == nil) && (o.expire == nil || *o.expire == *x.expire)
			switch {
			case o.name == x.name && !spec:
				return nil, fail(86, "IndexKeySpecsConflict", "An existing index has the same name as the requested index: %s", o.name)
			case o.name == x.name && !opts || spec && o.name != x.name:
				return nil, fail(85, "IndexOptionsConflict", "An equivalent index already exists with a different name or options: %s", o.name)
			case o.name == x.name:
				exists = true
			}
		}
		if !exists {
			c.indexes = append(c.indexes, x)
		}
	}
	return bson.D{{Key: "numIndexesBefore", Value: int32(1)}, {Key: "numIndexesAfter", Value: int32(len(c.indexes))}, {Key: "ok", Value: 1.0}}, nil
}

var _ = fmt.Sprint
