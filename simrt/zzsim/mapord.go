package zzsim

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// ptrID gives pointer-like map keys an identity that does not depend on
// addresses: the order in which the run first saw them.
var ptrIDs = map[unsafe.Pointer]int{}

// ResetIDs forgets pointer identities (start of a run).
func ResetIDs() {
	ptrIDs = map[unsafe.Pointer]int{}
	resetAddrs()
}

func keyStr(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())^(1<<63))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Bool:
		if v.Bool() {
			return "1"
		}
		return "0"
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += keyStr(v.Field(i)) + ","
		}
		return s + "}"
	case reflect.Array:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += keyStr(v.Index(i)) + ","
		}
		return s + "]"
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + ":" + keyStr(v.Elem())
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		p := v.UnsafePointer()
		if p == nil {
			return "nil"
		}
		id, ok := ptrIDs[p]
		if !ok {
			id = len(ptrIDs)
			ptrIDs[p] = id
		}
		return fmt.Sprintf("p%020d", id)
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("%030.10f", v.Float())
	}
	return fmt.Sprintf("%v", v)
}

// SeePtr registers a pointer map key in program order.
func SeePtr[K comparable](k K) {
	v := reflect.ValueOf(&k).Elem()
	if hasPtr(v.Type()) {
		keyStr(v)
	}
}

func hasPtr(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer, reflect.Interface:
		return true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPtr(t.Field(i).Type) {
				return true
			}
		}
	case reflect.Array:
		return hasPtr(t.Elem())
	}
	return false
}

// OrderKeys puts keys into the canonical order and then applies the selected
// iteration order.
func OrderKeys[K comparable](ks []K) {
	strs := make([]string, len(ks))
	idx := make([]int, len(ks))
	for i := range ks {
		strs[i] = keyStr(reflect.ValueOf(&ks[i]).Elem())
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
	out := make([]K, len(ks))
	for i, j := range idx {
		out[i] = ks[j]
	}
	GlobalMapRanges++
	if S != nil {
		S.Stats.MapRanges++
	}
	switch mapMode {
	case 1:
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	case 2:
		for i := len(out) - 1; i > 0; i-- {
			j := mapRng.N(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	if mapMode != 0 && len(out) > 1 && S != nil {
		S.Stats.MapShuffled++
	}
	copy(ks, out)
}

// Map ranges over a map in the simulator's order. Entries deleted during the
// loop are skipped; entries added during the loop may or may not be visited,
// as the language allows - which, is decided by the seed.
func Map[M ~map[K]V, K comparable, V any](m M, site int) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		if m == nil {
			return
		}
		MR(m, site)
		ks := make([]K, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		OrderKeys(ks)
		seen := len(ks)
		for i := 0; i < len(ks); i++ {
			if cur != nil {
				MR(m, site)
			}
			v, ok := m[ks[i]]
			if !ok {
				continue
			}
			if !yield(ks[i], v) {
				return
			}
			if i == len(ks)-1 && len(m) > 0 && mapMode == 2 && mapRng.N(2) == 0 {
				// visit entries added meanwhile
				have := make(map[K]bool, len(ks))
				for _, k := range ks {
					have[k] = true
				}
				var add []K
				for k := range m {
					if !have[k] {
						add = append(add, k)
					}
				}
				if len(add) > 0 && len(ks) < 4*seen+64 {
					OrderKeys(add)
					ks = append(ks, add...)
				}
			}
		}
	}
}
