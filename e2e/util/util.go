// Package util is what the services of generated workflow specs are made of: pure functions of their
// arguments that record every invocation.
package util

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// ---------------------------------------------------------------- canonical form and hash of values

// Canon renders a value; nil and empty slices and maps are the same value.
func Canon(v any) string {
	var b strings.Builder
	canon(&b, reflect.ValueOf(v))
	return b.String()
}

func canon(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			b.WriteString("&")
			canon(b, v.Elem())
		}
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			canon(b, v.Field(i))
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			canon(b, v.Index(i))
		}
		b.WriteString("]")
	case reflect.Map:
		var ss []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			canon(&e, k)
			e.WriteString(":")
			canon(&e, v.MapIndex(k))
			ss = append(ss, e.String())
		}
		sort.Strings(ss)
		b.WriteString("map[" + strings.Join(ss, " ") + "]")
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32:
		fmt.Fprintf(b, "f%x", math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		fmt.Fprintf(b, "f%x", math.Float64bits(v.Float()))
	default:
		fmt.Fprintf(b, "?%v", v.Kind())
	}
}

func Hash(vs ...any) uint64 {
	h := fnv.New64a()
	for _, v := range vs {
		h.Write([]byte(Canon(v)))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// ---------------------------------------------------------------- deterministic values

type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed ^ 0x9e3779b97f4a7c15} }

func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int { return int(r.Next() % uint64(n)) }

var strs = []string{"", "a", "hello world", "x&y=z?#%20+;/", "\"quoted\\\"", "null", "0", "true", "ünïcödé ☃ 𝄞", "line\nbreak\ttab",
	" lead", "trail ", "<b>&amp;</b>", "{\"a\":1}", "[1,2]", "\u2028\u2029", "\x00nul", "%", "a,b;c", "-1"}

// Fill sets the variable that p points to to a pseudo-random value.
func (r *Rng) Fill(p any) { r.fill(reflect.ValueOf(p).Elem(), 0) }

func (r *Rng) fill(v reflect.Value, depth int) {
	if !v.CanSet() {
		return
	}
	zero := r.N(6) == 0
	switch v.Kind() {
	case reflect.Pointer:
		if NoNil || (!zero && depth < 4) {
			v.Set(reflect.New(v.Type().Elem()))
			r.fill(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.fill(v.Field(i), depth+1)
		}
	case reflect.Slice:
		n := r.N(4)
		if depth > 3 {
			n = 0
		}
		if depth < 2 && r.N(12) == 0 {
			n = 4 + r.N(40)
		}
		if zero {
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			r.fill(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.fill(v.Index(i), depth+1)
		}
	case reflect.Map:
		n := r.N(4)
		if depth > 3 {
			n = 0
		}
		if zero {
			return
		}
		m := reflect.MakeMap(v.Type())
		for i := 0; i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			e := reflect.New(v.Type().Elem()).Elem()
			r.fill(k, depth+1)
			r.fill(e, depth+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.String:
		if depth < 2 && r.N(20) == 0 {
			v.SetString(strings.Repeat(strs[r.N(len(strs))]+"x", 1+r.N(300)))
		} else if r.N(2) == 0 {
			v.SetString(strs[r.N(len(strs))])
		} else {
			v.SetString(fmt.Sprintf("s%d", r.N(1000000)))
		}
	case reflect.Bool:
		v.SetBool(r.N(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := v.Type().Bits()
		switch r.N(5) {
		case 0:
			v.SetInt(0)
		case 1:
			v.SetInt(math.MinInt64 >> (64 - bits))
		case 2:
			v.SetInt(math.MaxInt64 >> (64 - bits))
		case 3:
			v.SetInt(int64(r.N(200)) - 100)
		default:
			v.SetInt(int64(r.Next()) >> (64 - bits))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		bits := v.Type().Bits()
		switch r.N(4) {
		case 0:
			v.SetUint(0)
		case 1:
			v.SetUint(math.MaxUint64 >> (64 - bits))
		case 2:
			v.SetUint(uint64(r.N(100)))
		default:
			v.SetUint(r.Next() >> (64 - bits))
		}
	case reflect.Float32, reflect.Float64:
		var f float64
		switch r.N(5) {
		case 0:
		case 1:
			f = float64(r.N(1000)) - 500
		case 2:
			f = math.MaxFloat32
		case 3:
			f = 1e-30 * float64(1+r.N(1000))
		default:
			f = float64(int64(r.Next())) / 12345.678
		}
		if v.Kind() == reflect.Float32 {
			f = float64(float32(f))
		}
		v.SetFloat(f)
	}
}

// NoNil makes Fill never produce nil pointers.
var NoNil = os.Getenv("VERIF_NONIL") != ""

// Err is the error that an invocation with this hash returns.
func Err(h uint64) error {
	if h%7 == 3 {
		return errors.New("error " + strconv.FormatUint(h, 16))
	}
	return nil
}

// ---------------------------------------------------------------- event log

var mu sync.Mutex
var file *os.File

// Record appends one line to the event log $VERIF_LOG (shared by all processes).
func Record(fields ...any) {
	mu.Lock()
	defer mu.Unlock()
	if file == nil {
		path := os.Getenv("VERIF_LOG")
		if path == "" {
			return
		}
		var err error
		file, err = os.OpenFile(path, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
		if err != nil {
			return
		}
	}
	var ss []string
	for _, f := range fields {
		ss = append(ss, strings.ReplaceAll(fmt.Sprint(f), "\n", " "))
	}
	file.WriteString(strings.Join(ss, "\t") + "\n")
}

// Call is what every method of a generated service does: it records the invocation and computes
// the results from the arguments. rets are pointers to the results.
func Call(service, method string, args []any, rets ...any) error {
	h := Hash(append([]any{service, method}, args...)...)
	Record("call", service, method, strconv.FormatUint(h, 16), os.Getpid())
	return Result(h, rets...)
}

// Result computes the results of an invocation with hash h.
func Result(h uint64, rets ...any) error {
	if err := Err(h); err != nil {
		return err
	}
	r := NewRng(h)
	for _, p := range rets {
		r.Fill(p)
	}
	return nil
}
