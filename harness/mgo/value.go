// Package mgo emulates a MongoDB deployment that speaks the wire protocol over
// in-memory connections. It implements what a queue needs: conditional and
// unconditional updates of single documents, bulk writes, queries, partial,
// hashed and TTL indexes with hints, cursors, sharding restrictions and
// retryable writes, as documented by MongoDB.
package mgo

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

// get returns the value of a field, following dots into embedded documents.
func get(d bson.D, path string) (any, bool) {
	head, rest, dotted := strings.Cut(path, ".")
	for _, e := range d {
		if e.Key == path {
			return e.Value, true
		}
		if dotted && e.Key == head {
			if s, ok := e.Value.(bson.D); ok {
				return get(s, rest)
			}
		}
	}
	return nil, false
}

func getD(d bson.D, k string) bson.D {
	v, _ := get(d, k)
	x, _ := v.(bson.D)
	return x
}

func getA(d bson.D, k string) bson.A {
	v, _ := get(d, k)
	x, _ := v.(bson.A)
	return x
}

func getS(d bson.D, k string) string {
	v, _ := get(d, k)
	x, _ := v.(string)
	return x
}

func truthy(v any) bool {
	switch x := v.(type) {
	case bool:
		return x
	case nil:
		return false
	}
	if f, ok := number(v); ok {
		return f != 0
	}
	return true
}

func getB(d bson.D, k string) bool {
	v, ok := get(d, k)
	return ok && truthy(v)
}

func getN(d bson.D, k string) (int64, bool) {
	v, ok := get(d, k)
	if !ok {
		return 0, false
	}
	f, ok := number(v)
	return int64(f), ok
}

func number(v any) (float64, bool) {
	switch x := v.(type) {
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	case float64:
		return x, true
	case int:
		return float64(x), true
	}
	return 0, false
}

// set returns a copy of the document with the field set.
func set(d bson.D, path string, v any) (bson.D, error) {
	head, rest, dotted := strings.Cut(path, ".")
	o := append(bson.D{}, d...)
	for i, e := range o {
		if e.Key != head {
			continue
		}
		if !dotted {
			o[i].Value = v
			return o, nil
		}
		s, ok := e.Value.(bson.D)
		if !ok {
			return nil, fail(28, "PathNotViable", "Cannot create field in element {%s: %v}", head, e.Value)
		}
		n, err := set(s, rest, v)
		if err != nil {
			return nil, err
		}
		o[i].Value = n
		return o, nil
	}
	if dotted {
		n, err := set(nil, rest, v)
		if err != nil {
			return nil, err
		}
		return append(o, bson.E{Key: head, Value: n}), nil
	}
	return append(o, bson.E{Key: head, Value: v}), nil
}

func unset(d bson.D, path string) bson.D {
	head, rest, dotted := strings.Cut(path, ".")
	var o bson.D
	for _, e := range d {
		if e.Key == head {
			if !dotted {
				continue
			}
			if s, ok := e.Value.(bson.D); ok {
				e.Value = unset(s, rest)
			}
		}
		o = append(o, e)
	}
	return o
}

// order is the canonical type order of comparisons.
func order(v any) int {
	switch v.(type) {
	case primitive.MinKey:
		return 0
	case nil, primitive.Null, primitive.Undefined:
		return 1
	case int32, int64, float64, int, primitive.Decimal128:
		return 2
	case string, primitive.Symbol:
		return 3
	case bson.D:
		return 4
	case bson.A:
		return 5
	case primitive.Binary:
		return 6
	case primitive.ObjectID:
		return 7
	case bool:
		return 8
	case primitive.DateTime:
		return 9
	case primitive.Timestamp:
		return 10
	case primitive.Regex:
		return 11
	case primitive.MaxKey:
		return 99
	}
	panic(fmt.Sprintf("value of type %T", v))
}

// cmp compares two values in the canonical order.
func cmp(a, b any) int {
	x, y := order(a), order(b)
	if x != y {
		return sign(x - y)
	}
	switch x {
	case 2:
		f, _ := number(a)
		g, _ := number(b)
		i, oki := integer(a)
		j, okj := integer(b)
		switch {
		case oki && okj:
			return less(i < j, i > j)
		case math.IsNaN(f) || math.IsNaN(g):
			return less(math.IsNaN(f) && !math.IsNaN(g), !math.IsNaN(f) && math.IsNaN(g))
		}
		return less(f < g, f > g)
	case 3:
		return strings.Compare(a.(string), b.(string))
	case 4:
		p, q := a.(bson.D), b.(bson.D)
		for i := range p {
			if i >= len(q) {
				return 1
			}
			if c := sign(order(p[i].Value) - order(q[i].Value)); c != 0 {
				return c
			}
			if c := strings.Compare(p[i].Key, q[i].Key); c != 0 {
				return c
			}
			if c := cmp(p[i].Value, q[i].Value); c != 0 {
				return c
			}
		}
		return sign(len(p) - len(q))
	case 5:
		p, q := a.(bson.A), b.(bson.A)
		for i := range p {
			if i >= len(q) {
				return 1
			}
			if c := cmp(p[i], q[i]); c != 0 {
				return c
			}
		}
		return sign(len(p) - len(q))
	case 8:
		return less(!a.(bool) && b.(bool), a.(bool) && !b.(bool))
	case 9:
		return less(a.(primitive.DateTime) < b.(primitive.DateTime), a.(primitive.DateTime) > b.(primitive.DateTime))
	case 7:
		p, q := a.(primitive.ObjectID), b.(primitive.ObjectID)
		return bytes.Compare(p[:], q[:])
	}
	return strings.Compare(fmt.Sprint(a), fmt.Sprint(b))
}

func integer(v any) (int64, bool) {
	switch x := v.(type) {
	case int32:
		return int64(x), true
	case int64:
		return x, true
	case int:
		return int64(x), true
	}
	return 0, false
}

func sign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func less(l, g bool) int {
	if l {
		return -1
	}
	if g {
		return 1
	}
	return 0
}

func isOps(v any) (bson.D, bool) {
	d, ok := v.(bson.D)
	return d, ok && len(d) > 0 && strings.HasPrefix(d[0].Key, "$")
}

// match evaluates a query.
func match(d, f bson.D) (bool, error) {
	for _, e := range f {
		switch e.Key {
		case "$and", "$or", "$nor":
			n := 0
			l := e.Value.(bson.A)
			for _, c := range l {
				ok, err := match(d, c.(bson.D))
				if err != nil {
					return false, err
				}
				if ok {
					n++
				}
			}
			if e.Key == "$and" && n < len(l) || e.Key == "$or" && n == 0 || e.Key == "$nor" && n > 0 {
				return false, nil
			}
			continue
		case "$comment":
			continue
		case "$expr":
			v, err := expr(d, e.Value)
			if err != nil {
				return false, err
			}
			if !truthy(v) {
				return false, nil
			}
			continue
		}
		if strings.HasPrefix(e.Key, "$") {
			return false, unsupported("query operator %s", e.Key)
		}
		v, has := get(d, e.Key)
		ops, ok := isOps(e.Value)
		if !ok {
			if !equal(v, has, e.Value) {
				return false, nil
			}
			continue
		}
		for _, o := range ops {
			ok, err := op(v, has, o.Key, o.Value)
			if err != nil {
				return false, err
			}
			if !ok {
				return false, nil
			}
		}
	}
	return true, nil
}

func equal(v any, has bool, w any) bool {
	if w == nil {
		return !has || v == nil
	}
	if !has {
		return false
	}
	if l, ok := v.(bson.A); ok {
		if _, ok := w.(bson.A); !ok {
			for _, x := range l {
				if cmp(x, w) == 0 {
					return true
				}
			}
			return false
		}
	}
	return cmp(v, w) == 0
}

func op(v any, has bool, k string, w any) (bool, error) {
	// Comparisons hold only between values of the same type.
	same := has && order(v) == order(w) || w == nil && (!has || v == nil)
	switch k {
	case "$eq":
		return equal(v, has, w), nil
	case "$ne":
		return !equal(v, has, w), nil
	case "$lt":
		return same && cmp(v, w) < 0, nil
	case "$lte":
		return same && cmp(v, w) <= 0, nil
	case "$gt":
		return same && cmp(v, w) > 0, nil
	case "$gte":
		return same && cmp(v, w) >= 0, nil
	case "$exists":
		return has == truthy(w), nil
	case "$in", "$nin":
		for _, x := range w.(bson.A) {
			if equal(v, has, x) {
				return k == "$in", nil
			}
		}
		return k == "$nin", nil
	case "$not":
		d, ok := isOps(w)
		if !ok {
			return false, unsupported("$not")
		}
		for _, o := range d {
			r, err := op(v, has, o.Key, o.Value)
			if err != nil {
				return false, err
			}
			if !r {
				return true, nil
			}
		}
		return false, nil
	}
	return false, unsupported("query operator %s", k)
}

// expr evaluates the simplest aggregation expressions.
func expr(d bson.D, v any) (any, error) {
	switch x := v.(type) {
	case string:
		if x == "$$NOW" {
			return primitive.NewDateTimeFromTime(time.Now()), nil
		}
		if x == "$$ROOT" {
			return d, nil
		}
		if strings.HasPrefix(x, "$$") {
			return nil, unsupported("variable %s", x)
		}
		if strings.HasPrefix(x, "$") {
			r, _ := get(d, x[1:])
			return r, nil
		}
		return x, nil
	case bson.D:
		o, ok := isOps(x)
		if !ok {
			var r bson.D
			for _, e := range x {
				w, err := expr(d, e.Value)
				if err != nil {
					return nil, err
				}
				r = append(r, bson.E{Key: e.Key, Value: w})
			}
			return r, nil
		}
		k, w := o[0].Key, o[0].Value
		if k == "$literal" {
			return w, nil
		}
		var args bson.A
		if l, ok := w.(bson.A); ok {
			for _, y := range l {
				z, err := expr(d, y)
				if err != nil {
					return nil, err
				}
				args = append(args, z)
			}
		} else {
			z, err := expr(d, w)
			if err != nil {
				return nil, err
			}
			args = bson.A{z}
		}
		two := len(args) == 2
		switch {
		case k == "$eq" && two:
			return cmp(args[0], args[1]) == 0, nil
		case k == "$ne" && two:
			return cmp(args[0], args[1]) != 0, nil
		case k == "$lt" && two:
			return cmp(args[0], args[1]) < 0, nil
		case k == "$lte" && two:
			return cmp(args[0], args[1]) <= 0, nil
		case k == "$gt" && two:
			return cmp(args[0], args[1]) > 0, nil
		case k == "$gte" && two:
			return cmp(args[0], args[1]) >= 0, nil
		case k == "$and":
			for _, a := range args {
				if !truthy(a) {
					return false, nil
				}
			}
			return true, nil
		case k == "$or":
			for _, a := range args {
				if truthy(a) {
					return true, nil
				}
			}
			return false, nil
		case k == "$not":
			return !truthy(args[0]), nil
		case k == "$ifNull":
			for _, a := range args {
				if a != nil {
					return a, nil
				}
			}
			return nil, nil
		case k == "$cond" && len(args) == 3:
			if truthy(args[0]) {
				return args[1], nil
			}
			return args[2], nil
		}
		return nil, unsupported("expression %s", k)
	}
	return v, nil
}

// same tells whether two documents are identical.
func same(a, b bson.D) bool {
	if len(a) == 0 || len(b) == 0 {
		return len(a) == len(b)
	}
	x, err := bson.Marshal(a)
	if err != nil {
		panic(err)
	}
	y, err := bson.Marshal(b)
	if err != nil {
		panic(err)
	}
	return bytes.Equal(x, y)
}

// Failure is an error reported by the deployment.
type Failure struct {
	Code   int32
	Name   string
	Msg    string
	Labels []string
}

func (f *Failure) Error() string { return fmt.Sprintf("(%s) %s", f.Name, f.Msg) }

func fail(code int32, name, f string, a ...any) *Failure {
	return &Failure{Code: code, Name: name, Msg: fmt.Sprintf(f, a...)}
}

// Unsupported is returned for what the emulation does not know.
type Unsupported struct{ What string }

func (u *Unsupported) Error() string { return "not emulated: " + u.What }

func unsupported(f string, a ...any) error { return &Unsupported{fmt.Sprintf(f, a...)} }
