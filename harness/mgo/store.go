package mgo

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

type index struct {
	name    string
	key     bson.D
	partial bson.D
	expire  *int64
	unique  bool
}

type coll struct {
	docs    []bson.D
	indexes []*index
}

// Deployment is the state shared by all connections. Commands are executed one
// at a time.
type Deployment struct {
	// ShardKey makes the deployment behave like a collection sharded by that
	// field.
	ShardKey string
	// Batch is the number of documents returned at once, 0 for the default.
	Batch int
	// MaxBatch is the number of writes accepted by one command.
	MaxBatch int

	colls   map[string]*coll
	cursors map[int64]*cursor
	next    int64
	retried map[string]bson.D
	// Unknown lists what was asked for but is not emulated.
	Unknown []string
	// Counts counts executed commands.
	Counts map[string]int
}

type cursor struct {
	ns   string
	docs []bson.D
}

// NewDeployment creates an empty deployment.
func NewDeployment() *Deployment {
	return &Deployment{colls: map[string]*coll{}, cursors: map[int64]*cursor{}, retried: map[string]bson.D{}, Counts: map[string]int{}}
}

func (s *Deployment) coll(ns string, create bool) *coll {
	c := s.colls[ns]
	if c == nil {
		c = &coll{indexes: []*index{{name: "_id_", key: bson.D{{Key: "_id", Value: int32(1)}}}}}
		if create {
			s.colls[ns] = c
		}
	}
	return c
}

// Docs returns the documents of a collection in natural order.
func (s *Deployment) Docs(ns string) []bson.D { return s.coll(ns, false).docs }

// Names returns the collections that exist, except one.
func (s *Deployment) Names(except string) []string {
	var l []string
	for k := range s.colls {
		if k != except {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

// Index describes an index.
type Index struct {
	Name    string
	Key     bson.D
	Partial bson.D
	Expire  *int64
}

// Indexes returns the indexes of a collection.
func (s *Deployment) Indexes(ns string) []Index {
	var l []Index
	for _, x := range s.coll(ns, false).indexes {
		l = append(l, Index{x.name, x.key, x.partial, x.expire})
	}
	return l
}

// Expire deletes documents as the TTL monitor does.
func (s *Deployment) Expire(now time.Time) int {
	n := 0
	for _, c := range s.colls {
		for _, x := range c.indexes {
			if x.expire == nil || len(x.key) != 1 {
				continue
			}
			var keep []bson.D
			for _, d := range c.docs {
				v, _ := get(d, x.key[0].Key)
				t, ok := v.(primitive.DateTime)
				in, _ := match(d, x.partial)
				if ok && in && !t.Time().Add(time.Duration(*x.expire)*time.Second).After(now) {
					n++
					continue
				}
				keep = append(keep, d)
			}
			c.docs = keep
		}
	}
	return n
}

// candidates returns the positions of the documents a query plan visits: all,
// or those in the index hinted at.
func (c *coll) candidates(exists bool, hint any) ([]int, error) {
	var x *index
	switch v := hint.(type) {
	case nil:
	case string:
		if v != "" {
			for _, i := range c.indexes {
				if i.name == v {
					x = i
				}
			}
			if x == nil && exists {
				return nil, fail(2, "BadValue", "error processing query: planner returned error :: caused by :: hint provided does not correspond to an existing index")
			}
		}
	case bson.D:
		if len(v) > 0 {
			for _, i := range c.indexes {
				if same(i.key, v) && x == nil {
					x = i
				}
			}
			if x == nil && exists {
				return nil, fail(2, "BadValue", "error processing query: planner returned error :: caused by :: hint provided does not correspond to an existing index")
			}
		}
	}
	var l []int
	for i, d := range c.docs {
		if x != nil && x.partial != nil {
			ok, err := match(d, x.partial)
			if err != nil {
				return nil, err
			}
			if !ok {
				continue
			}
		}
		l = append(l, i)
	}
	return l, nil
}

// find returns the positions of matching documents.
func (s *Deployment) find(ns string, f, sorting bson.D, hint any) ([]int, error) {
	c := s.coll(ns, false)
	cand, err := c.candidates(s.colls[ns] != nil, hint)
	if err != nil {
		return nil, err
	}
	var l []int
	for _, i := range cand {
		ok, err := match(c.docs[i], f)
		if err != nil {
			return nil, err
		}
		if ok {
			l = append(l, i)
		}
	}
	if len(sorting) > 0 {
		sort.SliceStable(l, func(a, b int) bool {
			for _, k := range sorting {
				v, _ := get(c.docs[l[a]], k.Key)
				w, _ := get(c.docs[l[b]], k.Key)
				n, _ := number(k.Value)
				if x := cmp(v, w); x != 0 {
					return x*int(n) < 0
				}
			}
			return false
		})
	}
	return l, nil
}

func project(d, p bson.D) bson.D {
	if len(p) == 0 {
		return d
	}
	include, id := false, true
	for _, e := range p {
		if e.Key == "_id" {
			id = truthy(e.Value)
			if id {
				include = include || len(p) == 1
			}
			continue
		}
		include = truthy(e.Value)
	}
	var o bson.D
	for _, e := range d {
		if e.Key == "_id" {
			if id {
				o = append(o, e)
			}
			continue
		}
		_, named := get(p, e.Key)
		if named == include {
			o = append(o, e)
		}
	}
	return o
}

// valid checks what MongoDB requires of every stored document.
func valid(d bson.D) error {
	b, err := bson.Marshal(d)
	if err != nil {
		return fail(2, "BadValue", "%v", err)
	}
	if len(b) > 16<<20 {
		return fail(10334, "BSONObjectTooLarge", "BSONObj size: %d is invalid", len(b))
	}
	if depth(d) > 180 {
		return fail(15, "Overflow", "cannot insert document because it exceeds 180 levels of nesting")
	}
	return nil
}

func depth(v any) int {
	n := 0
	switch x := v.(type) {
	case bson.D:
		for _, e := range x {
			n = max(n, depth(e.Value))
		}
	case bson.A:
		for _, e := range x {
			n = max(n, depth(e))
		}
	default:
		return 0
	}
	return n + 1
}

func (s *Deployment) insert(ns string, d bson.D) error {
	id, ok := get(d, "_id")
	if !ok {
		id = primitive.NewObjectID()
		d = append(bson.D{{Key: "_id", Value: id}}, d...)
	}
	if _, ok := id.(bson.A); ok {
		return fail(53, "InvalidIdField", "The '_id' value cannot be of type array")
	}
	if err := valid(d); err != nil {
		return err
	}
	c := s.coll(ns, true)
	for _, o := range c.docs {
		if x, _ := get(o, "_id"); cmp(x, id) == 0 {
			return fail(11000, "DuplicateKey", "E11000 duplicate key error collection: %s index: _id_ dup key: { _id: %q }", ns, fmt.Sprint(id))
		}
	}
	for _, x := range c.indexes {
		if !x.unique {
			continue
		}
		for _, o := range c.docs {
			dup := true
			for _, k := range x.key {
				v, _ := get(o, k.Key)
				w, _ := get(d, k.Key)
				dup = dup && cmp(v, w) == 0
			}
			if dup {
				return fail(11000, "DuplicateKey", "E11000 duplicate key error collection: %s index: %s dup key", ns, x.name)
			}
		}
	}
	c.docs = append(c.docs, d)
	return nil
}

// update computes the effect of an update on a document. For upserts the
// document is what the query implies.
func update(d bson.D, u any, upsert bool) (bson.D, error) {
	switch x := u.(type) {
	case bson.A:
		var err error
		for _, st := range x {
			sd, _ := st.(bson.D)
			if len(sd) != 1 {
				return nil, fail(40324, "Location40324", "bad pipeline")
			}
			switch sd[0].Key {
			case "$set", "$addFields":
				base := d
				for _, e := range sd[0].Value.(bson.D) {
					v, er := expr(base, e.Value)
					if er != nil {
						return nil, er
					}
					if d, err = set(d, e.Key, v); err != nil {
						return nil, err
					}
				}
			case "$unset", "$project":
				if k, ok := sd[0].Value.(string); ok && sd[0].Key == "$unset" {
					d = unset(d, k)
					continue
				}
				if l, ok := sd[0].Value.(bson.A); ok && sd[0].Key == "$unset" {
					for _, k := range l {
						d = unset(d, k.(string))
					}
					continue
				}
				return nil, unsupported("pipeline %s", sd[0].Key)
			default:
				return nil, unsupported("pipeline %s", sd[0].Key)
			}
		}
		return d, nil
	case bson.D:
		if len(x) == 0 || !strings.HasPrefix(x[0].Key, "$") {
			id, has := get(d, "_id")
			n, ok := get(x, "_id")
			switch {
			case ok && has && cmp(n, id) != 0:
				return nil, fail(66, "ImmutableField", "Performing an update on the path '_id' would modify the immutable field '_id'")
			case !ok && has:
				return append(bson.D{{Key: "_id", Value: id}}, x...), nil
			}
			// The identifier comes first.
			o := bson.D{}
			if ok {
				o = append(o, bson.E{Key: "_id", Value: n})
			}
			for _, e := range x {
				if e.Key != "_id" {
					o = append(o, e)
				}
			}
			return o, nil
		}
		seen := map[string]bool{}
		for _, o := range x {
			fs, _ := o.Value.(bson.D)
			for _, e := range fs {
				if seen[e.Key] {
					return nil, fail(40, "ConflictingUpdateOperators", "Updating the path '%s' would create a conflict at '%s'", e.Key, e.Key)
				}
				seen[e.Key] = true
				if e.Key == "_id" && o.Key != "$setOnInsert" {
					if id, has := get(d, "_id"); has && cmp(id, e.Value) != 0 {
						return nil, fail(66, "ImmutableField", "Performing an update on the path '_id' would modify the immutable field '_id'")
					}
				}
				var err error
				switch o.Key {
				case "$set":
					d, err = set(d, e.Key, e.Value)
				case "$setOnInsert":
					if upsert {
						d, err = set(d, e.Key, e.Value)
					}
				case "$unset":
					d = unset(d, e.Key)
				case "$currentDate":
					d, err = set(d, e.Key, primitive.NewDateTimeFromTime(time.Now()))
				case "$inc":
					v, has := get(d, e.Key)
					f, ok := number(v)
					g, _ := number(e.Value)
					if has && !ok {
						return nil, fail(14, "TypeMismatch", "Cannot apply $inc to a value of non-numeric type")
					}
					_, i1 := integer(v)
					_, i2 := integer(e.Value)
					if (i1 || !has) && i2 {
						d, err = set(d, e.Key, int64(f+g))
					} else {
						d, err = set(d, e.Key, f+g)
					}
				case "$min", "$max":
					v, has := get(d, e.Key)
					c := cmp(e.Value, v)
					if !has || o.Key == "$min" && c < 0 || o.Key == "$max" && c > 0 {
						d, err = set(d, e.Key, e.Value)
					}
				default:
					return nil, unsupported("update operator %s", o.Key)
				}
				if err != nil {
					return nil, err
				}
			}
		}
		return d, nil
	}
	return nil, fail(9, "FailedToParse", "bad update")
}

// implied returns the document an upsert starts from.
func implied(f bson.D) bson.D {
	var d bson.D
	for _, e := range f {
		if e.Key == "$and" {
			for _, c := range e.Value.(bson.A) {
				d = append(d, implied(c.(bson.D))...)
			}
			continue
		}
		if o, ok := isOps(e.Value); ok {
			if o[0].Key == "$eq" {
				d = append(d, bson.E{Key: e.Key, Value: o[0].Value})
			}
			continue
		}
		if !strings.HasPrefix(e.Key, "$") {
			d = append(d, e)
		}
	}
	return d
}

// pinned tells whether a query determines the shard.
func (s *Deployment) pinned(f bson.D) bool {
	if s.ShardKey == "" {
		return true
	}
	_, ok := get(implied(f), s.ShardKey)
	return ok
}
