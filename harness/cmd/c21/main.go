// C21: value copying helpers are total, type-exact and deep on slices.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"verif/harness/hx"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"go.mongodb.org/mongo-driver/bson"
	"go.opentelemetry.io/otel/trace"
)

type namedInt int
type namedStr string
type namedSlice []int
type pair struct {
	A int
	B string
}
type hidden struct {
	a int
	B []string
}
type withIface struct {
	X any
	P *pair
}
type str struct{ s string }

func (s str) String() string { return s.s }

type perr struct{ m string }

func (p *perr) Error() string { return p.m }

func t[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var bases = []reflect.Type{
	t[bool](), t[int](), t[int8](), t[int16](), t[int32](), t[int64](), t[uint](), t[uint8](), t[uint16](), t[uint32](), t[uint64](),
	t[float32](), t[float64](), t[complex128](), t[string](), t[namedInt](), t[namedStr](), t[namedSlice](), t[pair](), t[hidden](), t[withIface](), t[str](),
	t[any](), t[error](), t[fmt.Stringer](), t[*pair](), t[*perr](), t[*int](), t[**int](), t[map[string]int](), t[map[string]any](), t[map[namedStr][]int](),
	t[[2]int](), t[[0]string](), t[func()](), t[chan int](), t[time.Time](), t[bson.D](), t[bson.M](), t[bson.A](), t[bson.E](), t[[]byte](), t[json.RawMessage](), t[struct{}](),
}

func randType(r *rand.Rand, depth int) reflect.Type {
	if depth > 0 && r.Intn(5) < 2 {
		return reflect.SliceOf(randType(r, depth-1))
	}
	if depth > 0 && r.Intn(12) == 0 {
		return reflect.PointerTo(randType(r, depth-1))
	}
	return bases[r.Intn(len(bases))]
}

// fill makes a random value of the type.
func fill(r *rand.Rand, ty reflect.Type, depth int) reflect.Value {
	v := reflect.New(ty).Elem()
	switch ty {
	case t[error]():
		if r.Intn(3) > 0 {
			v.Set(reflect.ValueOf(&perr{"e"}))
		}
		return v
	case t[fmt.Stringer]():
		if r.Intn(3) > 0 {
			v.Set(reflect.ValueOf(str{"s"}))
		}
		return v
	case t[time.Time]():
		v.Set(reflect.ValueOf(time.Unix(r.Int63n(1e9), 0)))
		return v
	case t[hidden]():
		v.Set(reflect.ValueOf(hidden{r.Intn(9), []string{"x"}}))
		return v
	case t[str]():
		v.Set(reflect.ValueOf(str{fmt.Sprint(r.Intn(9))}))
		return v
	}
	switch ty.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Uint64()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(r.Uint64())
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.Intn(1000)) / 4)
	case reflect.Complex128:
		v.SetComplex(complex(float64(r.Intn(10)), 1))
	case reflect.String:
		v.SetString(strings.Repeat("a\x00é", r.Intn(3)))
	case reflect.Slice:
		if r.Intn(6) > 0 {
			n := r.Intn(4)
			v.Set(reflect.MakeSlice(ty, n, n+r.Intn(3)))
			for i := 0; i < n; i++ {
				v.Index(i).Set(fill(r, ty.Elem(), depth-1))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(fill(r, ty.Elem(), depth-1))
		}
	case reflect.Map:
		if r.Intn(4) > 0 {
			v.Set(reflect.MakeMap(ty))
			for i := r.Intn(3); i > 0 && depth > 0; i-- {
				v.SetMapIndex(fill(r, ty.Key(), depth-1), fill(r, ty.Elem(), depth-1))
			}
		}
	case reflect.Pointer:
		if r.Intn(4) > 0 {
			p := reflect.New(ty.Elem())
			if depth > 0 && ty.Elem() != t[perr]() {
				p.Elem().Set(fill(r, ty.Elem(), depth-1))
			}
			v.Set(p)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				v.Field(i).Set(fill(r, v.Field(i).Type(), depth-1))
			}
		}
	case reflect.Interface:
		if r.Intn(5) > 0 && depth > 0 {
			v.Set(fill(r, randType(r, 1), depth-1))
		}
	case reflect.Chan:
		if r.Intn(2) == 0 {
			v.Set(reflect.MakeChan(ty, 1))
		}
	}
	return v
}

// expect is the specification: what dst of type dt holds after copying src, or !ok.
func expect(src any, dt reflect.Type) (reflect.Value, bool) {
	out := reflect.New(dt).Elem()
	if src == nil {
		switch dt.Kind() {
		case reflect.Interface, reflect.Pointer, reflect.Slice, reflect.Map, reflect.Func, reflect.Chan, reflect.UnsafePointer:
			return out, true
		}
		return out, false
	}
	sv := reflect.ValueOf(src)
	if sv.Kind() == reflect.Slice && dt.Kind() == reflect.Slice {
		out.Set(reflect.MakeSlice(dt, sv.Len(), sv.Len()))
		for i := 0; i < sv.Len(); i++ {
			e, ok := expect(sv.Index(i).Interface(), dt.Elem())
			if !ok {
				return out, false
			}
			out.Index(i).Set(e)
		}
		return out, true
	}
	if !sv.Type().AssignableTo(dt) {
		return out, false
	}
	out.Set(sv)
	return out, true
}

// same is deep equality of type and content; func/chan/pointer/map by identity or content, nil slices equal empty ones.
func same(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		return same(a.Elem(), b.Elem())
	case reflect.Func:
		return a.IsNil() == b.IsNil()
	case reflect.Chan, reflect.Map, reflect.Pointer:
		return a.Pointer() == b.Pointer()
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return fmt.Sprint(a) == fmt.Sprint(b)
}

// snapshot copies slices (recursively) so that later in-place changes show.
func snapshot(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	out.Set(v)
	if v.Kind() == reflect.Slice && !v.IsNil() {
		out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(snapshot(v.Index(i)))
		}
	}
	return out
}


func main() {
	h := hx.New()
	h.Rule = "a (source type, destination type, outcome) triple of CopyResult, or a distinct helper input; nil and mismatching ones included"
	if h.Part("copy") {
		r := h.Rand(21)
		n := h.N(150000, 5000000)
		for i := 0; i < n; i++ {
			dt := randType(r, 3)
			st := dt
			switch r.Intn(5) {
			case 0:
				st = randType(r, 3)
			case 1: // generalise: []any of elements into []T
				st = reflect.SliceOf(t[any]())
				dt = reflect.SliceOf(randType(r, 2))
			}
			sv := fill(r, st, 3)
			if st.Kind() == reflect.Slice && st.Elem() == t[any]() && dt.Kind() == reflect.Slice && st != dt && r.Intn(3) > 0 {
				k := r.Intn(4)
				sv = reflect.MakeSlice(st, k, k)
				for j := 0; j < k; j++ {
					if r.Intn(8) > 0 {
						sv.Index(j).Set(fill(r, dt.Elem(), 2))
					}
				}
			}
			src := sv.Interface()
			dst := reflect.New(dt)
			dst.Elem().Set(fill(r, dt, 2))
			before := snapshot(dst.Elem())
			srcBefore := snapshot(sv)
			want, ok := expect(src, dt)
			desc := fmt.Sprintf("CopyResult(%T %.80v, *%v)", src, src, dt)
			var err error
			if p := hx.Catch(func() { err = backend.CopyResult(src, dst.Interface()) }); p != "" {
				h.Violate("copy/panic", desc+": "+p, nil)
				continue
			}
			h.Case(fmt.Sprint(st, "|", dt, "|", ok), true)
			if ok != (err == nil) {
				h.Violatef("copy/verdict", desc, "%s: error %v, but the value is assignable: %v", desc, err, ok)
				continue
			}
			if !ok {
				h.Observe("copies_rejected", 1)
				if !same(before, dst.Elem()) {
					h.Violatef("copy/failed-changed-dst", desc, "%s failed but changed the destination", desc)
				}
				continue
			}
			h.Observe("copies_done", 1)
			if !same(want, dst.Elem()) {
				h.Violatef("copy/value", desc, "%s stored %.100v instead of %.100v", desc, dst.Elem(), want)
				continue
			}
			if !same(srcBefore, sv) {
				h.Violatef("copy/source-changed", desc, "%s changed its source", desc)
			}
			// independence of slice storage, in both directions
			if sv.Kind() == reflect.Interface {
				sv = sv.Elem()
			}
			if dt.Kind() == reflect.Slice && sv.Kind() == reflect.Slice {
				after := snapshot(dst.Elem())
				k := 0
				scrambleShared(r, sv, dst.Elem(), &k)
				h.Observe("source_elements_overwritten", k)
				if !same(after, dst.Elem()) {
					h.Violatef("copy/aliases-source", desc, "%s: overwriting the source's elements afterwards changed the destination", desc)
				}
			}
		}
		h.Sample("CopyResult over random pairs of " + fmt.Sprint(len(bases)) + " base types, nested in slices and pointers")
		// non-pointer, nil and odd destinations
		var np *int
		var nerr *error
		var niface any
		for _, src := range []any{nil, 1, "s", []int{1}, np, pair{}, map[string]int{}} {
			for _, dst := range []any{nil, 1, "x", pair{}, []int{1}, np, nerr, niface, map[string]int{}, func() {}, make(chan int)} {
				desc := fmt.Sprintf("CopyResult(%T, %T)", src, dst)
				if p := hx.Catch(func() {
					if err := backend.CopyResult(src, dst); err == nil {
						h.Violatef("copy/bad-destination", nil, "%s succeeded", desc)
					}
				}); p != "" {
					h.Violate("copy/panic", desc+": "+p, nil)
				}
				h.Case(desc, true)
			}
		}
	}
	if h.Part("zero") {
		r := h.Rand(22)
		for i := 0; i < h.N(20000, 500000); i++ {
			ty := randType(r, 2)
			dst := reflect.New(ty)
			dst.Elem().Set(fill(r, ty, 2))
			want := snapshot(dst.Elem())
			p := hx.Catch(func() {
				got, err := backend.GetPointerValue(dst.Interface())
				gv := reflect.New(ty).Elem()
				if got != nil {
					gv.Set(reflect.ValueOf(got))
				}
				if err != nil || !same(gv, want) {
					h.Violatef("deref/value", nil, "GetPointerValue(*%v) = %.80v, %v instead of %.80v", ty, got, err, want)
				}
				if err := backend.SetZero(dst.Interface()); err != nil || !dst.Elem().IsZero() {
					h.Violatef("zero/value", nil, "SetZero(*%v): %v, leaves %.80v", ty, err, dst.Elem())
				}
			})
			if p != "" {
				h.Violatef("helper/panic", nil, "GetPointerValue/SetZero of *%v: %s", ty, p)
			}
			h.Case("zero "+ty.String(), true)
			h.Observe("zeroed", 1)
			// the same type as a non-pointer, and as a nil pointer
			for _, bad := range []any{fill(r, ty, 2).Interface(), reflect.Zero(reflect.PointerTo(ty)).Interface(), nil} {
				if bad != nil && reflect.TypeOf(bad).Kind() == reflect.Pointer && !reflect.ValueOf(bad).IsNil() {
					continue
				}
				p := hx.Catch(func() {
					if v, err := backend.GetPointerValue(bad); err == nil {
						h.Violatef("deref/accepts", nil, "GetPointerValue(%T %.60v) = %v without an error", bad, bad, v)
					}
					if err := backend.SetZero(bad); err == nil {
						h.Violatef("zero/accepts", nil, "SetZero(%T %.60v) succeeded", bad, bad)
					}
				})
				if p != "" {
					h.Violatef("helper/panic", nil, "GetPointerValue/SetZero(%T): %s", bad, p)
				}
				h.Observe("bad_pointers_offered", 1)
			}
		}
	}
	if h.Part("trace") {
		r := h.Rand(23)
		for i := 0; i < h.N(20000, 500000); i++ {
			var c trace.SpanContextConfig
			r.Read(c.TraceID[:])
			r.Read(c.SpanID[:])
			if r.Intn(4) == 0 { // short ids with leading and trailing zeros
				for k := range c.TraceID {
					if r.Intn(2) == 0 {
						c.TraceID[k] = 0
					}
				}
				c.SpanID = trace.SpanID{0, 0, 0, 0, 0, 0, 0, byte(r.Intn(256))}
			}
			c.TraceFlags = trace.TraceFlags(r.Intn(256))
			c.Remote = r.Intn(2) == 0
			for k := r.Intn(4); k > 0; k-- {
				if ts, err := c.TraceState.Insert(fmt.Sprintf("k%d", r.Intn(9)), fmt.Sprintf("v-%d", r.Intn(1000))); err == nil {
					c.TraceState = ts
				}
			}
			sc := trace.NewSpanContext(c)
			b, err := json.Marshal(sc)
			if err != nil {
				continue
			}
			valid := c.TraceID.IsValid() && c.SpanID.IsValid()
			enc := string(b)
			p := hx.Catch(func() {
				got, err := backend.GetSpanContext(enc)
				if valid {
					if err != nil {
						h.Violatef("trace/rejected", enc, "GetSpanContext(%s): %v", enc, err)
					} else if !trace.NewSpanContext(got).Equal(sc) {
						h.Violatef("trace/roundtrip", enc, "GetSpanContext(%s) = %+v", enc, got)
					}
					h.Observe("contexts_round_tripped", 1)
				} else if err == nil && (got.TraceID.IsValid() != c.TraceID.IsValid() || got.SpanID.IsValid() != c.SpanID.IsValid()) {
					h.Violatef("trace/roundtrip", enc, "GetSpanContext(%s) = %+v", enc, got)
				}
			})
			if p != "" {
				h.Violatef("trace/panic", enc, "GetSpanContext(%q): %s", enc, p)
			}
			h.Case("trace"+enc, true)
			// damaged encodings
			d := []byte(enc)
			for k := 1 + r.Intn(4); k > 0; k-- {
				switch r.Intn(3) {
				case 0:
					d[r.Intn(len(d))] = byte(r.Intn(256))
				case 1:
					if len(d) > 3 {
						p := r.Intn(len(d) - 2)
						d = append(d[:p:p], d[p+1+r.Intn(2):]...)
					}
				case 2:
					d = d[:1+r.Intn(len(d))]
				}
			}
			for _, s := range []string{string(d), enc[:r.Intn(len(enc))]} {
				if p := hx.Catch(func() { backend.GetSpanContext(s) }); p != "" {
					h.Violatef("trace/panic", s, "GetSpanContext(%q): %s", s, p)
				}
				h.Observe("damaged_contexts_decoded", 1)
			}
		}
		id, sid := strings.Repeat("0a", 16), strings.Repeat("0b", 8)
		for _, flags := range []string{"", "0", "zz", "01", "0101", "ff"} {
			for _, f := range []string{
				`{"TraceID":"` + id + `","SpanID":"` + sid + `","TraceFlags":"` + flags + `"}`,
				`{"TraceID":"` + id + `","SpanID":"","TraceFlags":"` + flags + `"}`,
				`{"SpanID":"` + sid + `","TraceFlags":"` + flags + `"}`,
				`{"TraceID":"` + id + `","SpanID":"` + sid + `","TraceFlags":"` + flags + `","TraceState":"=,="}`,
			} {
				var got trace.SpanContextConfig
				var err error
				if p := hx.Catch(func() { got, err = backend.GetSpanContext(f) }); p != "" {
					h.Violatef("trace/panic", f, "GetSpanContext(%s): %s", f, p)
				} else if err == nil && !trace.NewSpanContext(got).IsValid() {
					h.Violatef("trace/invalid-accepted", f, "GetSpanContext(%s) = %+v without an error", f, got)
				}
				h.Case(f, true)
			}
		}
		for _, s := range []string{"", "null", "{}", "[]", "1", "\"\"", "{\"TraceID\":1}"} {
			if p := hx.Catch(func() {
				if c, err := backend.GetSpanContext(s); err == nil {
					h.Violatef("trace/invalid-accepted", s, "GetSpanContext(%q) = %+v without an error", s, c)
				}
			}); p != "" {
				h.Violatef("trace/panic", s, "GetSpanContext(%q): %s", s, p)
			}
			h.Case("bad"+s, true)
		}
	}
	h.Done()
}

// scrambleShared overwrites the source's slice storage to the depth to which the destination had to be a copy:
// wherever both sides are slices.
func scrambleShared(r *rand.Rand, s, d reflect.Value, n *int) {
	if s.Kind() == reflect.Interface {
		s = s.Elem()
	}
	if s.Kind() != reflect.Slice || d.Kind() != reflect.Slice {
		return
	}
	for i := 0; i < s.Len(); i++ {
		scrambleShared(r, s.Index(i), d.Index(i), n)
		s.Index(i).Set(fill(r, s.Type().Elem(), 1))
		*n++
	}
}
