// Package smaps replaces package maps in the instrumented build.
package smaps

import (
	"iter"
	"maps"

	sim "github.com/adamcolton/parlex/zzsim"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return sim.Map(m, 0) }
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(y func(K) bool) {
		for k := range sim.Map(m, 0) {
			if !y(k) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(y func(V) bool) {
		for _, v := range sim.Map(m, 0) {
			if !y(v) {
				return
			}
		}
	}
}
func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) {
	sim.MW(m, 0)
	maps.Insert(m, seq)
}
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V { return maps.Collect(seq) }
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool {
	sim.MR(a, 0)
	sim.MR(b, 0)
	return maps.Equal(a, b)
}
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	sim.MR(a, 0)
	sim.MR(b, 0)
	return maps.EqualFunc(a, b, eq)
}
func Clone[M ~map[K]V, K comparable, V any](m M) M {
	sim.MR(m, 0)
	return maps.Clone(m)
}
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](d M1, s M2) {
	sim.MR(s, 0)
	sim.MW(d, 0)
	maps.Copy(d, s)
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range sim.Map(m, 0) {
		if del(k, v) {
			sim.MW(m, 0)
			delete(m, k)
		}
	}
}
