//go:build go1.21

package zzsim

import (
	"reflect"
	"strings"
	"unsafe"
)

// The package-level variables of the code under test are put back to the values they had
// after initialisation before every run: each run is a process of its own.

var globals []any
var restore []func()
var taken bool

// Globals registers package-level variables, by pointer.
func Globals(ptrs ...any) { globals = append(globals, ptrs...) }

// Reset restores the registered variables; the first call records them.
func Reset() {
	runNo++
	initRNG = NewRNG(1)
	if !taken {
		taken = true
		s := &snapper{seen: map[seenKey]bool{}}
		for _, p := range globals {
			s.value(reflect.ValueOf(p).Elem(), 0)
		}
		restore = s.out
		return
	}
	for _, f := range restore {
		f()
	}
}

var runNo int64

// Epoch numbers the runs.
func Epoch() int64 { return runNo }

type seenKey struct {
	p uintptr
	t reflect.Type
	n int
}

type snapper struct {
	seen map[seenKey]bool
	out  []func()
	size int
}

const snapLimit = 64 << 20

// plain tells whether copying a value copies all there is to it.
func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return t.Len() == 0 || plain(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !plain(t.Field(i).Type) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Ptr, reflect.Map, reflect.Chan, reflect.Interface:
		return false
	}
	return true // numbers, strings, functions, uintptr, unsafe.Pointer
}

// transparent are the packages whose values are ordinary memory through and through.
var transparent = map[string]bool{"gkr-mimc": true, "math/big": true, "math/rand": true, "math/rand/v2": true, "bufio": true, "bytes": true, "strings": true,
	"container/list": true, "container/ring": true}

// opaque tells whether the insides of a type belong to the libraries.
func opaque(t reflect.Type) bool {
	p := t.PkgPath()
	return p != "" && !transparent[p] && !strings.HasPrefix(p, "gkr-mimc/") && !strings.HasPrefix(p, "crypto/") && !plain(t)
}

func settable(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// value records the addressable v and what it refers to.
func (s *snapper) value(v reflect.Value, depth int) {
	t := v.Type()
	k := seenKey{v.UnsafeAddr(), t, -1}
	if t.Size() == 0 || s.seen[k] || depth > 64 || s.size > snapLimit {
		return
	}
	s.seen[k] = true
	v = settable(v)
	if plain(t) || opaque(t) {
		s.keep(v)
		return
	}
	switch t.Kind() {
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.value(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s.value(v.Field(i), depth+1)
		}
	case reflect.Slice:
		s.keep(v)
		s.slice(v, depth)
	case reflect.Ptr:
		s.keep(v)
		if !v.IsNil() {
			s.pointee(v.Elem(), depth)
		}
	case reflect.Map:
		s.keep(v)
		s.mapping(v, depth)
	case reflect.Chan:
		s.keep(v)
		s.channel(v)
	case reflect.Interface:
		s.keep(v)
		if e := v.Elem(); e.IsValid() {
			switch e.Kind() {
			case reflect.Ptr:
				if !e.IsNil() {
					s.pointee(e.Elem(), depth)
				}
			case reflect.Slice:
				s.slice(e, depth)
			case reflect.Map:
				s.mapping(e, depth)
			case reflect.Chan:
				s.channel(e)
			}
		}
	}
}

func (s *snapper) pointee(v reflect.Value, depth int) {
	if !opaque(v.Type()) {
		s.value(v, depth+1)
	}
}

func (s *snapper) keep(v reflect.Value) {
	s.size += int(v.Type().Size())
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	s.out = append(s.out, func() { v.Set(c) })
}

func (s *snapper) slice(v reflect.Value, depth int) {
	if v.Len() == 0 {
		return
	}
	k := seenKey{v.Pointer(), v.Type(), v.Len()}
	if s.seen[k] {
		return
	}
	s.seen[k] = true
	if !plain(v.Type().Elem()) {
		for i := 0; i < v.Len(); i++ {
			s.value(v.Index(i), depth+1)
		}
		return
	}
	s.size += v.Len() * int(v.Type().Elem().Size())
	all := v.Slice3(0, v.Len(), v.Len())
	c := reflect.MakeSlice(reflect.SliceOf(v.Type().Elem()), v.Len(), v.Len())
	reflect.Copy(c, all)
	s.out = append(s.out, func() { reflect.Copy(all, c) })
}

func (s *snapper) mapping(v reflect.Value, depth int) {
	if v.IsNil() {
		return
	}
	k := seenKey{v.Pointer(), v.Type(), -2}
	if s.seen[k] {
		return
	}
	s.seen[k] = true
	var keys, vals []reflect.Value
	for it := v.MapRange(); it.Next(); {
		e := reflect.New(v.Type().Elem()).Elem()
		e.Set(it.Value())
		keys, vals = append(keys, it.Key()), append(vals, e)
		s.value(e, depth+1)
	}
	s.out = append(s.out, func() {
		v.Clear()
		for i := range keys {
			v.SetMapIndex(keys[i], vals[i])
		}
	})
}

func (s *snapper) channel(v reflect.Value) {
	if v.IsNil() || v.Type().ChanDir() != reflect.BothDir || s.seen[seenKey{v.Pointer(), v.Type(), -3}] {
		return
	}
	s.seen[seenKey{v.Pointer(), v.Type(), -3}] = true
	var have []reflect.Value
	drain := func() (out []reflect.Value, closed bool) {
		for {
			e, ok := v.TryRecv()
			if !ok {
				return out, e.IsValid()
			}
			out = append(out, e)
		}
	}
	have, closed := drain()
	if closed {
		return
	}
	fill := func() {
		for _, e := range have {
			if !v.TrySend(e) {
				return
			}
		}
	}
	fill()
	s.out = append(s.out, func() {
		if _, closed := drain(); !closed {
			fill()
		}
	})
}

// Weigh is the size in bytes of the registered variables, the given values and all they refer to.
func Weigh(extra ...any) int {
	w := &weigher{seen: map[seenKey]bool{}}
	for _, p := range globals {
		w.value(reflect.ValueOf(p), 0)
	}
	for _, p := range extra {
		w.value(reflect.ValueOf(p), 0)
	}
	return w.size
}

type weigher struct {
	seen map[seenKey]bool
	size int
}

func (w *weigher) first(p uintptr, t reflect.Type, n int) bool {
	k := seenKey{p, t, n}
	if w.seen[k] {
		return false
	}
	w.seen[k] = true
	return true
}

// value adds what v refers to; the memory of v itself is counted by whoever holds it.
func (w *weigher) value(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 200 {
		return
	}
	t := v.Type()
	if t.Kind() == reflect.Struct && t.Name() == "Pool" && strings.HasSuffix(t.PkgPath(), "/zzsync") {
		return // given back to the collector at any time
	}
	if t.Kind() != reflect.String && plain(t) || opaque(t) {
		return
	}
	switch t.Kind() {
	case reflect.String:
		w.size += v.Len()
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.value(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			w.value(v.Field(i), depth+1)
		}
	case reflect.Slice:
		if v.Cap() == 0 || !w.first(v.Pointer(), t, v.Len()) {
			return
		}
		w.size += v.Cap() * int(t.Elem().Size())
		if !plain(t.Elem()) || t.Elem().Kind() == reflect.String {
			for i := 0; i < v.Len(); i++ {
				w.value(v.Index(i), depth+1)
			}
		}
	case reflect.Ptr:
		if v.IsNil() || opaque(t.Elem()) || !w.first(v.Pointer(), t, -1) {
			return
		}
		w.size += int(t.Elem().Size())
		w.value(v.Elem(), depth+1)
	case reflect.Map:
		if v.IsNil() || !w.first(v.Pointer(), t, -2) {
			return
		}
		w.size += v.Len() * int(t.Key().Size()+t.Elem().Size())
		for it := v.MapRange(); it.Next(); {
			w.value(it.Key(), depth+1)
			w.value(it.Value(), depth+1)
		}
	case reflect.Interface:
		if e := v.Elem(); e.IsValid() {
			if e.Kind() != reflect.Ptr {
				w.size += int(e.Type().Size())
			}
			w.value(e, depth+1)
		}
	}
}
