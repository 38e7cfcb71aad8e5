// Package mongo is an independent model of the MongoDB filter and update semantics (for the operators the in-memory
// document store supports), used as the oracle of C03 and C04.
package mongo

import (
	"errors"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"go.mongodb.org/mongo-driver/bson"
)

// ErrUnspecified marks inputs on which the model deliberately takes no position.
var ErrUnspecified = errors.New("unspecified")
var ErrBad = errors.New("bad query or update")

// Norm returns a deep copy of a document in its stored form.
func Norm(v any) (bson.D, error) {
	b, err := bson.Marshal(v)
	if err != nil {
		return nil, err
	}
	var d bson.D
	err = bson.Unmarshal(b, &d)
	return d, err
}

func NormValue(v any) (any, error) {
	d, err := Norm(bson.D{{Key: "v", Value: v}})
	if err != nil {
		return nil, err
	}
	return d[0].Value, nil
}

func num(v any) (i int64, f float64, isInt, isNum bool) {
	switch x := v.(type) {
	case int32:
		return int64(x), float64(x), true, true
	case int64:
		return x, float64(x), true, true
	case int:
		return int64(x), float64(x), true, true
	case float64:
		return 0, x, false, true
	}
	return
}

// Equal is BSON equality: numbers by value, documents ordered.
func Equal(a, b any) bool {
	ai, af, aInt, aNum := num(a)
	bi, bf, bInt, bNum := num(b)
	if aNum || bNum {
		if aNum != bNum {
			return false
		}
		if aInt && bInt {
			return ai == bi
		}
		return af == bf
	}
	switch x := a.(type) {
	case bson.D:
		y, ok := b.(bson.D)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i].Key != y[i].Key || !Equal(x[i].Value, y[i].Value) {
				return false
			}
		}
		return true
	case bson.A:
		y, ok := b.(bson.A)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func index(s string) (int, bool) {
	n, err := strconv.Atoi(s)
	return n, err == nil && n >= 0 && (s == "0" || s[0] >= '1' && s[0] <= '9')
}

// terminals lists the values a dotted path leads to; arrays on the way are traversed.
func terminals(v any, path []string) (out []any, throughArray bool) {
	if len(path) == 0 {
		return []any{v}, false
	}
	switch x := v.(type) {
	case bson.D:
		for _, e := range x {
			if e.Key == path[0] {
				return terminals(e.Value, path[1:])
			}
		}
	case bson.A:
		throughArray = true
		if i, ok := index(path[0]); ok {
			if i < len(x) {
				out, _ = terminals(x[i], path[1:])
			}
			return out, true
		}
		for _, e := range x {
			if d, ok := e.(bson.D); ok {
				t, _ := terminals(d, path)
				out = append(out, t...)
			}
		}
	}
	return
}

type pred func(v any) bool

func anyValue(ts []any, p pred) bool {
	for _, t := range ts {
		if p(t) {
			return true
		}
		if a, ok := t.(bson.A); ok {
			for _, e := range a {
				if p(e) {
					return true
				}
			}
		}
	}
	return false
}

func isOps(d bson.D) bool {
	for _, e := range d {
		if strings.HasPrefix(e.Key, "$") {
			return true
		}
	}
	return false
}

// Match evaluates a filter given in stored form.
func Match(filter bson.D, doc bson.D) (bool, error) {
	res := true
	for _, e := range filter {
		ok, err := cond(e, doc)
		if err != nil {
			return false, err
		}
		res = res && ok
	}
	return res, nil
}

func subs(v any, doc bson.D) (n, hits int, err error) {
	a, ok := v.(bson.A)
	if !ok || len(a) == 0 {
		return 0, 0, ErrBad
	}
	for _, q := range a {
		d, ok := q.(bson.D)
		if !ok {
			return 0, 0, ErrBad
		}
		m, err := Match(d, doc)
		if err != nil {
			return 0, 0, err
		}
		if m {
			hits++
		}
	}
	return len(a), hits, nil
}

func cond(e bson.E, doc bson.D) (bool, error) {
	switch e.Key {
	case "$and":
		n, h, err := subs(e.Value, doc)
		return n == h, err
	case "$or":
		_, h, err := subs(e.Value, doc)
		return h > 0, err
	case "$nor":
		_, h, err := subs(e.Value, doc)
		return h == 0, err
	case "$not": // an extension of this store: negates a whole query
		d, ok := e.Value.(bson.D)
		if !ok {
			return false, ErrBad
		}
		m, err := Match(d, doc)
		return !m, err
	}
	if strings.HasPrefix(e.Key, "$") {
		return false, ErrBad
	}
	ts, thr := terminals(doc, strings.Split(e.Key, "."))
	d, ok := e.Value.(bson.D)
	if !ok || !isOps(d) {
		return eq(ts, thr, e.Value)
	}
	array, plain := false, false
	for _, o := range d {
		if o.Key == "$all" || o.Key == "$elemMatch" {
			array = true
		} else {
			plain = true
		}
	}
	if array && plain {
		return false, ErrUnspecified
	}
	res := true
	for _, o := range d {
		m, err := op(o, ts, thr)
		if err != nil {
			return false, err
		}
		res = res && m
	}
	return res, nil
}

func eq(ts []any, thr bool, v any) (bool, error) {
	if v == nil {
		if thr {
			return false, ErrUnspecified
		}
		return len(ts) == 0 || anyValue(ts, func(x any) bool { return x == nil }), nil
	}
	return anyValue(ts, func(x any) bool { return Equal(x, v) }), nil
}

func op(o bson.E, ts []any, thr bool) (bool, error) {
	switch o.Key {
	case "$eq":
		return eq(ts, thr, o.Value)
	case "$ne":
		m, err := eq(ts, thr, o.Value)
		return !m, err
	case "$gt", "$gte", "$lt", "$lte":
		vi, vf, vInt, vNum := num(o.Value)
		if !vNum {
			return false, ErrUnspecified
		}
		return anyValue(ts, func(x any) bool {
			xi, xf, xInt, xNum := num(x)
			if !xNum {
				return false
			}
			c := 0
			if xInt && vInt {
				if xi < vi {
					c = -1
				} else if xi > vi {
					c = 1
				}
			} else if xf < vf {
				c = -1
			} else if xf > vf {
				c = 1
			}
			switch o.Key {
			case "$gt":
				return c > 0
			case "$gte":
				return c >= 0
			case "$lt":
				return c < 0
			}
			return c <= 0
		}), nil
	case "$in":
		a, ok := o.Value.(bson.A)
		if !ok {
			return false, ErrBad
		}
		for _, v := range a {
			m, err := eq(ts, thr, v)
			if m || err != nil {
				return m, err
			}
		}
		return false, nil
	case "$exists":
		b, ok := o.Value.(bool)
		if !ok {
			return false, ErrBad
		}
		return (len(ts) > 0) == b, nil
	case "$regex":
		s, ok := o.Value.(string)
		if !ok {
			return false, ErrBad
		}
		re, err := regexp.Compile(s)
		if err != nil {
			return false, ErrBad
		}
		return anyValue(ts, func(x any) bool {
			s, ok := x.(string)
			return ok && re.MatchString(s)
		}), nil
	case "$all":
		a, ok := o.Value.(bson.A)
		if !ok {
			return false, ErrBad
		}
		if len(a) == 0 {
			return false, nil
		}
		for _, v := range a {
			m, err := eq(ts, thr, v)
			if !m || err != nil {
				return false, err
			}
		}
		return true, nil
	case "$elemMatch":
		q, ok := o.Value.(bson.D)
		if !ok {
			return false, ErrBad
		}
		res := false
		if _, err := Match(q, bson.D{}); err != nil {
			return false, err
		}
		for _, t := range ts {
			a, _ := t.(bson.A)
			for _, el := range a {
				if d, ok := el.(bson.D); ok {
					m, err := Match(q, d)
					if err != nil {
						return false, err
					}
					res = res || m
				}
			}
		}
		return res, nil
	}
	return false, ErrBad
}

// ---------------------------------------------------------------- updates

func clone(v any) any {
	switch x := v.(type) {
	case bson.D:
		out := make(bson.D, len(x))
		for i := range x {
			out[i] = bson.E{Key: x[i].Key, Value: clone(x[i].Value)}
		}
		return out
	case bson.A:
		out := make(bson.A, len(x))
		for i := range x {
			out[i] = clone(x[i])
		}
		return out
	}
	return v
}

func CloneD(d bson.D) bson.D { return clone(d).(bson.D) }

// errAbsent: the leaf function wants nothing to be created.
var errAbsent = errors.New("absent")

// leaf gets the current value (present or not) and returns the new one.
type leaf func(cur any, present bool) (any, error)

// apply changes the value at path. create: missing parents are created, and obstacles are errors.
func apply(v any, path []string, create bool, f leaf) (any, error) {
	switch x := v.(type) {
	case bson.D:
		for i := range x {
			if x[i].Key == path[0] {
				var nv any
				var err error
				if len(path) == 1 {
					nv, err = f(x[i].Value, true)
				} else {
					nv, err = apply(x[i].Value, path[1:], create, f)
				}
				if err == errRemove {
					return append(append(bson.D{}, x[:i]...), x[i+1:]...), nil
				}
				if err != nil {
					return nil, err
				}
				out := append(bson.D{}, x...)
				out[i].Value = nv
				return out, nil
			}
		}
		if !create {
			return x, nil
		}
		if _, isIdx := index(path[0]); isIdx {
			return nil, ErrUnspecified // a field with a numeric name
		}
		var nv any
		var err error
		if len(path) == 1 {
			nv, err = f(nil, false)
		} else {
			if _, isIdx := index(path[1]); isIdx {
				return nil, ErrUnspecified
			}
			nv, err = apply(bson.D{}, path[1:], create, f)
		}
		if err != nil {
			return nil, err
		}
		return append(append(bson.D{}, x...), bson.E{Key: path[0], Value: nv}), nil
	case bson.A:
		i, ok := index(path[0])
		if !ok {
			if create {
				return nil, ErrBad
			}
			return x, nil
		}
		out := append(bson.A{}, x...)
		if i >= len(out) {
			if !create {
				return x, nil
			}
			for len(out) < i {
				out = append(out, nil)
			}
			if len(path) == 1 {
				nv, err := f(nil, false)
				if err != nil {
					return nil, err
				}
				return append(out, nv), nil
			}
			if _, isIdx := index(path[1]); isIdx {
				return nil, ErrUnspecified
			}
			nv, err := apply(bson.D{}, path[1:], create, f)
			if err != nil {
				return nil, err
			}
			return append(out, nv), nil
		}
		var nv any
		var err error
		if len(path) == 1 {
			nv, err = f(out[i], true)
			if err == errRemove {
				nv, err = nil, nil
			}
		} else {
			nv, err = apply(out[i], path[1:], create, f)
		}
		if err != nil {
			return nil, err
		}
		out[i] = nv
		return out, nil
	case nil:
		if create {
			return nil, ErrUnspecified
		}
		return nil, nil
	}
	if create {
		return nil, ErrBad
	}
	return v, nil
}

var errRemove = errors.New("remove")

func modifiers(v any) bool {
	d, ok := v.(bson.D)
	return ok && isOps(d)
}

// Update applies an update given in stored form to a document, yielding a new document.
func Update(update bson.D, doc bson.D) (bson.D, error) {
	cur := any(CloneD(doc))
	var unspec error
	for _, o := range update {
		args, ok := o.Value.(bson.D)
		if !ok {
			return nil, ErrBad
		}
		for _, a := range args {
			path := strings.Split(a.Key, ".")
			if path[0] == "_id" {
				return nil, ErrUnspecified
			}
			var f leaf
			create := true
			val := a.Value
			switch o.Key {
			case "$set":
				f = func(any, bool) (any, error) { return clone(val), nil }
			case "$unset":
				create = false
				f = func(any, bool) (any, error) { return nil, errRemove }
			case "$inc":
				vi, _, vInt, vNum := num(val)
				if !vNum || !vInt {
					return nil, ErrBad
				}
				f = func(c any, present bool) (any, error) {
					if !present {
						return vi, nil
					}
					ci, cf, cInt, cNum := num(c)
					switch {
					case c == nil:
						return nil, ErrUnspecified
					case !cNum:
						return nil, ErrBad
					case cInt:
						if vi > 0 && ci > math.MaxInt64-vi || vi < 0 && ci < math.MinInt64-vi {
							return nil, ErrBad
						}
						return ci + vi, nil
					}
					return cf + float64(vi), nil
				}
			case "$push", "$addToSet":
				if modifiers(val) {
					return nil, ErrBad
				}
				f = func(c any, present bool) (any, error) {
					if !present {
						return bson.A{clone(val)}, nil
					}
					x, ok := c.(bson.A)
					if c == nil {
						return nil, ErrUnspecified
					}
					if !ok {
						return nil, ErrBad
					}
					if o.Key == "$addToSet" {
						for _, e := range x {
							if Equal(e, val) {
								return x, nil
							}
						}
					}
					return append(append(bson.A{}, x...), clone(val)), nil
				}
			case "$pull":
				create = false
				if modifiers(val) {
					return nil, ErrBad
				}
				if d, ok := val.(bson.D); ok {
					if _, err := Match(d, bson.D{}); err != nil {
						return nil, err
					}
				}
				f = func(c any, present bool) (any, error) {
					x, ok := c.(bson.A)
					if c == nil {
						return nil, ErrUnspecified
					}
					if !ok {
						return nil, ErrBad
					}
					out := bson.A{}
					for _, e := range x {
						hit := false
						if q, isD := val.(bson.D); isD {
							if d, ok := e.(bson.D); ok {
								m, err := Match(q, d)
								if err != nil {
									return nil, err
								}
								hit = m
							}
						} else {
							hit = Equal(e, val)
						}
						if !hit {
							out = append(out, e)
						}
					}
					return out, nil
				}
			default:
				return nil, ErrBad
			}
			nv, err := apply(cur, path, create, f)
			if err == ErrUnspecified {
				unspec = err
				continue
			}
			if err != nil {
				return nil, err
			}
			cur = nv
		}
	}
	if unspec != nil {
		return nil, unspec
	}
	return cur.(bson.D), nil
}
