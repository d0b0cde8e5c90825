package simrt

import (
	"fmt"
	"iter"
	"sort"
)

// RangeMap replaces range over a map: the order is drawn from the environment PRNG,
// entries deleted before they are reached are skipped.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sortKeys(keys)
		for _, i := range MapOrder(len(keys)) {
			k := keys[i]
			v, ok := m[k]
			if !ok && k == k {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	sort.SliceStable(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
}

// Zero resets a package-level variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
