// Package simmaps replaces package maps in the code under test, with iteration orders drawn from the run's PRNG.
package simmaps

import (
	"iter"
	"maps"

	"vsim/simrt"
)

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range simrt.RangeMap(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range simrt.RangeMap(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V]       { return simrt.RangeMap(m) }
func Insert[M ~map[K]V, K comparable, V any](m M, s iter.Seq2[K, V]) { maps.Insert(m, s) }
func Collect[K comparable, V any](s iter.Seq2[K, V]) map[K]V         { return maps.Collect(s) }
func Clone[M ~map[K]V, K comparable, V any](m M) M                   { return maps.Clone(m) }
func Copy[A ~map[K]V, B ~map[K]V, K comparable, V any](d A, s B)     { maps.Copy(d, s) }
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, f func(K, V) bool) {
	for k, v := range simrt.RangeMap(m) {
		if f(k, v) {
			delete(m, k)
		}
	}
}
func Equal[A, B ~map[K]V, K, V comparable](a A, b B) bool { return maps.Equal(a, b) }
func EqualFunc[A ~map[K]V, B ~map[K]W, K comparable, V, W any](a A, b B, eq func(V, W) bool) bool {
	return maps.EqualFunc(a, b, eq)
}
