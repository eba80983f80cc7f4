//go:build go1.23

// Package engsim simulates the callers of the engines: the functions they call
// back fail, the callers are interleaved at every statement, and the order of
// the maps is drawn.
package engsim

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/steve-care-software/rodkina/zz_verif/core"
)

type memoKey struct {
	p uintptr
	t reflect.Type
}

// dumper digests what can be observed of a value through its methods.
type dumper struct {
	suffix string // removed from every name
	memo   map[memoKey]uint64
	errs   bool // include the text of errors
	keep   []interface{}
	alive  []reflect.Value
}

func newDumper(suffix string, errs bool) *dumper {
	return &dumper{suffix: suffix, memo: map[memoKey]uint64{}, errs: errs}
}

func digestOf(suffix string, errs bool, vs ...interface{}) uint64 {
	return newDumper(suffix, errs).digest(vs...)
}

// digest of values.  What it met before it does not look at again, so that the
// objects may not be modified between two digests.
func (d *dumper) digest(vs ...interface{}) uint64 {
	d.keep = append(d.keep, vs...)
	h := uint64(7)
	quietly(func() {
		for _, v := range vs {
			h = core.Mix(h, d.value(reflect.ValueOf(v), 0))
		}
	})
	return h
}

func (d *dumper) str(s string) uint64 {
	if d.suffix != "" {
		s = strings.ReplaceAll(s, d.suffix, "")
	}
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return core.Mix(h, uint64(len(s)))
}

var errorType = reflect.TypeOf((*error)(nil)).Elem()

func (d *dumper) value(v reflect.Value, depth int) uint64 {
	if depth > 400 {
		return 3
	}
	if !v.IsValid() {
		return 1
	}
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return 1
		}
		v = v.Elem()
	}
	if v.Type().Implements(errorType) {
		if v.Kind() == reflect.Ptr && v.IsNil() {
			return 1
		}
		if !d.errs {
			return 2
		}
		return core.Mix(2, d.str(v.Interface().(error).Error()))
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return 11
		}
		return 12
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return core.Mix(13, uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return core.Mix(14, v.Uint())
	case reflect.Float32, reflect.Float64:
		return d.str(fmt.Sprint(v.Float()))
	case reflect.String:
		return d.str(v.String())
	case reflect.Func, reflect.Chan:
		if v.IsNil() {
			return 15
		}
		return 16
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			return core.Mix(17, d.str(string(b)))
		}
		h := core.Mix(18, uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			h = core.Mix(h, d.value(v.Index(i), depth+1))
		}
		return h
	case reflect.Map:
		h := core.Mix(19, uint64(v.Len()))
		it := v.MapRange()
		for it.Next() {
			h += core.Mix(d.value(it.Key(), depth+1), d.value(it.Value(), depth+1))
		}
		return h
	case reflect.Ptr:
		if v.IsNil() {
			return 1
		}
		p := memoKey{v.Pointer(), v.Type()}
		if h, ok := d.memo[p]; ok {
			return h
		}
		d.memo[p] = 23
		d.alive = append(d.alive, v) // its address is not used again meanwhile
		var h uint64
		if v.NumMethod() > 0 {
			h = d.methods(v, depth)
		} else {
			h = d.value(v.Elem(), depth+1)
		}
		d.memo[p] = h
		return h
	case reflect.Struct:
		if x, ok := v.Interface().(time.Time); ok {
			return core.Mix(25, d.str(x.UTC().Format(time.RFC3339Nano)))
		}
		h := uint64(21)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				h = core.Mix(h, d.value(v.Field(i), depth+1))
			}
		}
		return h
	}
	return 22
}

type method struct {
	index int
	hash  uint64
}

var methodsOf = map[reflect.Type][]method{}

func (d *dumper) methods(v reflect.Value, depth int) uint64 {
	h := uint64(20)
	t := v.Type()
	list, ok := methodsOf[t]
	if !ok {
		names := []string{}
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			if m.Type.NumIn() != 1 || m.Type.NumOut() != 1 || m.Type.IsVariadic() {
				continue
			}
			names = append(names, m.Name)
		}
		sort.Strings(names)
		for _, n := range names {
			m, _ := t.MethodByName(n)
			list = append(list, method{m.Index, (&dumper{}).str(n)})
		}
		methodsOf[t] = list
	}
	for _, m := range list {
		h = core.Mix(core.Mix(h, m.hash), d.call(v.Method(m.index), depth))
	}
	return h
}

func (d *dumper) call(m reflect.Value, depth int) (h uint64) {
	defer func() {
		if r := recover(); r != nil {
			h = 24
		}
	}()
	return d.value(m.Call(nil)[0], depth+1)
}

// canon writes a value that went through the interpreter.
func canon(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case []interface{}:
		if x == nil {
			return "[]"
		}
		l := []string{}
		for _, e := range x {
			l = append(l, canon(e))
		}
		return "[" + strings.Join(l, " ") + "]"
	case map[uint]interface{}:
		keys := []int{}
		for k := range x {
			keys = append(keys, int(k))
		}
		sort.Ints(keys)
		l := []string{}
		for _, k := range keys {
			l = append(l, fmt.Sprintf("%d:%s", k, canon(x[uint(k)])))
		}
		return "{" + strings.Join(l, " ") + "}"
	case []byte:
		return fmt.Sprintf("bytes(%q)", string(x))
	case string:
		return fmt.Sprintf("string(%q)", x)
	case error:
		return "error"
	}
	return fmt.Sprintf("%T(%v)", v, v)
}
