//go:build go1.27

package rt

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
)

// Entry is one key of a map being ranged over.
type Entry[K comparable, V any] struct {
	m map[K]V
	k K
}

// Get returns key and value, and whether the key is still there.
func (e Entry[K, V]) Get() (K, V, bool) {
	v, ok := e.m[e.k]
	return e.k, v, ok
}

func Zero[K comparable, V any](m map[K]V) (k K, v V) { return }

// A write to a map is not atomic; the Go runtime ends the process if it
// notices another access meanwhile.

// MW is called before a statement that changes the map f returns.
func MW(site uint32, f func() any) {
	w := W
	if w == nil || w.down {
		return
	}
	p := mapPtr(f)
	if p == 0 {
		return
	}
	w.mapCheck(p, "fatal error: concurrent map writes")
	if w.mapBusy == nil {
		w.mapBusy = map[uintptr]int{}
	}
	w.mapBusy[p]++
	Y(site)
	if w.mapBusy[p]--; w.mapBusy[p] <= 0 {
		delete(w.mapBusy, p)
	}
}

// MR is called before a statement that reads the map f returns.
func MR(f func() any) {
	w := W
	if w == nil || w.down || len(w.mapBusy) == 0 {
		return
	}
	if p := mapPtr(f); p != 0 {
		w.mapCheck(p, "fatal error: concurrent map read and map write")
	}
}

func (w *World) mapCheck(p uintptr, msg string) {
	if len(w.mapBusy) == 0 || w.mapBusy[p] == 0 {
		return
	}
	g := w.enter()
	if g == nil || g.Grp.OnPanic == nil {
		return
	}
	Count("concurrent-map-access", 1)
	g.Grp.OnPanic(msg, string(debug.Stack()))
	Die()
}

func mapPtr(f func() any) (p uintptr) {
	defer func() {
		if recover() != nil {
			p = 0 // evaluated too early
		}
	}()
	v := reflect.ValueOf(f())
	if v.Kind() != reflect.Map {
		return 0
	}
	return v.Pointer()
}

// Entries lists the keys of m in an order decided by the maporder tape.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	if W != nil && !W.down && len(W.mapBusy) > 0 && m != nil {
		W.mapCheck(reflect.ValueOf(m).Pointer(), "fatal error: concurrent map iteration and map write")
	}
	out := make([]Entry[K, V], 0, len(m))
	for k := range m {
		out = append(out, Entry[K, V]{m, k})
	}
	if len(out) < 2 {
		return out
	}
	less := func(i, j int) bool { return fmt.Sprint(out[i].k) < fmt.Sprint(out[j].k) }
	switch reflect.TypeOf(out[0].k).Kind() {
	case reflect.String:
		less = func(i, j int) bool {
			return reflect.ValueOf(out[i].k).String() < reflect.ValueOf(out[j].k).String()
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		less = func(i, j int) bool { return reflect.ValueOf(out[i].k).Int() < reflect.ValueOf(out[j].k).Int() }
	case reflect.Uint, reflect.Uint64, reflect.Uint32:
		less = func(i, j int) bool { return reflect.ValueOf(out[i].k).Uint() < reflect.ValueOf(out[j].k).Uint() }
	}
	sort.SliceStable(out, less)
	if W != nil && !W.down {
		t := &W.T[TMap]
		if len(out) <= 8 {
			for i := 0; i < len(out)-1; i++ {
				j := i + t.N(len(out)-i)
				out[i], out[j] = out[j], out[i]
			}
		} else {
			r := t.N(len(out))
			out = append(append([]Entry[K, V](nil), out[r:]...), out[:r]...)
		}
	}
	return out
}
