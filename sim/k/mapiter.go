package k

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
)

// Iter iterates over a map in an order the simulator decides.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapIter starts 'range m'; the second and third results give the types of
// the loop variables.
func MapIter[M ~map[K]V, K comparable, V any](m M) (*Iter[K, V], K, V) {
	var zk K
	var zv V
	access(reflect.ValueOf(m).Pointer(), false)
	it := &Iter[K, V]{m: m}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		sortKeys(it.keys)
		w := Cur
		if w != nil && w.cur != nil && !w.cur.dead {
			p := w.maps.Perm(len(it.keys))
			keys := make([]K, len(p))
			for i, j := range p {
				keys[i] = it.keys[j]
			}
			it.keys = keys
		}
	}
	return it, zk, zv
}

func sortKeys[K comparable](keys []K) {
	rk := reflect.TypeOf(keys).Elem().Kind()
	s := make([]string, len(keys))
	for i, k := range keys {
		switch rk {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			s[i] = fmt.Sprintf("%020d", uint64(reflect.ValueOf(k).Int())^(1<<63))
		case reflect.Ptr:
			s[i] = fmt.Sprintf("%+v", reflect.ValueOf(k).Elem().Interface())
		default:
			s[i] = fmt.Sprintf("%v", k)
		}
	}
	idx := make([]int, len(keys))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return s[idx[a]] < s[idx[b]] })
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	copy(keys, out)
}

// MapR announces that a map is read.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if m != nil {
		access(reflect.ValueOf(m).Pointer(), false)
	}
	return m
}

// MapW announces that a map is changed.
func MapW[M ~map[K]V, K comparable, V any](m M) M {
	if m != nil {
		access(reflect.ValueOf(m).Pointer(), true)
	}
	return m
}

type mapOp struct {
	p     *Proc
	write bool
}

// access lets other threads run while one is at a map: if another one gets to
// the same map meanwhile and either changes it, real threads would collide.
func access(m uintptr, write bool) {
	w := Cur
	if w == nil || w.cur == nil || len(w.procs) < 2 {
		return
	}
	p := w.cur
	h := p.head()
	if h.dead {
		return
	}
	for _, o := range w.mapOps[m] {
		if o.p != p && (write || o.write) {
			what := "concurrent map read and map write"
			if write && o.write {
				what = "concurrent map writes"
			}
			h.Panic = "fatal error: " + what
			h.Code = 2
			h.dead = true
			runtime.Goexit()
		}
	}
	if w.mapOps == nil {
		w.mapOps = map[uintptr][]mapOp{}
	}
	w.mapOps[m] = append(w.mapOps[m], mapOp{p, write})
	defer func() {
		ops := w.mapOps[m]
		for i, o := range ops {
			if o.p == p {
				ops = append(ops[:i:i], ops[i+1:]...)
				break
			}
		}
		if len(ops) == 0 {
			delete(w.mapOps, m)
		} else {
			w.mapOps[m] = ops
		}
	}()
	Shared()
}

// Shared is a point before a statement that uses what threads share.
func Shared() {
	w := Cur
	if w == nil || w.cur == nil || len(w.procs) < 2 {
		return
	}
	h := w.cur.head()
	if h.dead {
		return
	}
	w.cur.yield()
	if h.dead {
		runtime.Goexit()
	}
}

// Next advances; entries deleted meanwhile are not visited.
func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}
