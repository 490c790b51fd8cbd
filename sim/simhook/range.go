package simhook

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"slices"
)

// Range replaces a loop over a map in the instrumented code: the order, which
// the language leaves open, is the simulator's choice.
func Range[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		slices.SortFunc(keys, compare[K])
		if len(keys) > 1 {
			switch Choose(4) {
			case 1:
				slices.Reverse(keys)
			case 2, 3:
				x := uint64(Choose(1<<16))*2862933555777941757 + 3037000493
				for i := len(keys) - 1; i > 0; i-- {
					x = x*6364136223846793005 + 1442695040888963407
					j := int((x >> 33) % uint64(i+1))
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok && k == k {
				continue // deleted meanwhile
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func compare[K comparable](a, b K) int {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	switch x.Kind() {
	case reflect.String:
		return cmp.Compare(x.String(), y.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp.Compare(x.Int(), y.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return cmp.Compare(x.Uint(), y.Uint())
	}
	return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b))
}
