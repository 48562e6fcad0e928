# generates atomic.go
out=['''// Package satomic replaces package sync/atomic in the instrumented build.
// Generated by gen.py.
package satomic

import (
	"unsafe"

	sim "github.com/adamcolton/parlex/zzsim"
)

var clocks = map[unsafe.Pointer]*sim.SyncVar{}

// sv returns the clock of an address. Addresses are kept alive by the map,
// which is emptied by Reset.
func sv(p unsafe.Pointer) *sim.SyncVar {
	v := clocks[p]
	if v == nil {
		v = &sim.SyncVar{}
		clocks[p] = v
	}
	return v
}

// Reset forgets all clocks (start of a run).
func Reset() { clocks = map[unsafe.Pointer]*sim.SyncVar{} }

func rd(p unsafe.Pointer) { sim.Sync(); sv(p).Acquire() }
func wr(p unsafe.Pointer) { sim.Sync(); v := sv(p); v.Acquire(); v.Release() }
''']
for T,N in [("int32","Int32"),("int64","Int64"),("uint32","Uint32"),("uint64","Uint64"),("uintptr","Uintptr")]:
    out.append(f'''
func Load{N}(p *{T}) {T} {{ rd(unsafe.Pointer(p)); return *p }}
func Store{N}(p *{T}, v {T}) {{ wr(unsafe.Pointer(p)); *p = v }}
func Add{N}(p *{T}, d {T}) {T} {{ wr(unsafe.Pointer(p)); *p += d; return *p }}
func Swap{N}(p *{T}, v {T}) {T} {{ wr(unsafe.Pointer(p)); o := *p; *p = v; return o }}
func And{N}(p *{T}, v {T}) {T} {{ wr(unsafe.Pointer(p)); o := *p; *p &= v; return o }}
func Or{N}(p *{T}, v {T}) {T} {{ wr(unsafe.Pointer(p)); o := *p; *p |= v; return o }}
func CompareAndSwap{N}(p *{T}, o, n {T}) bool {{
	wr(unsafe.Pointer(p))
	if *p == o {{
		*p = n
		return true
	}}
	return false
}}

type {N} struct{{ v {T} }}

func (x *{N}) Load() {T} {{ return Load{N}(&x.v) }}
func (x *{N}) Store(v {T}) {{ Store{N}(&x.v, v) }}
func (x *{N}) Add(d {T}) {T} {{ return Add{N}(&x.v, d) }}
func (x *{N}) Swap(v {T}) {T} {{ return Swap{N}(&x.v, v) }}
func (x *{N}) And(v {T}) {T} {{ return And{N}(&x.v, v) }}
func (x *{N}) Or(v {T}) {T} {{ return Or{N}(&x.v, v) }}
func (x *{N}) CompareAndSwap(o, n {T}) bool {{ return CompareAndSwap{N}(&x.v, o, n) }}
''')
out.append('''
type Bool struct{ v bool }

func (x *Bool) Load() bool { rd(unsafe.Pointer(x)); return x.v }
func (x *Bool) Store(v bool) { wr(unsafe.Pointer(x)); x.v = v }
func (x *Bool) Swap(v bool) bool { wr(unsafe.Pointer(x)); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	wr(unsafe.Pointer(x))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T { rd(unsafe.Pointer(x)); return x.v }
func (x *Pointer[T]) Store(v *T) { wr(unsafe.Pointer(x)); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { wr(unsafe.Pointer(x)); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	wr(unsafe.Pointer(x))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct{ v any }

func (x *Value) Load() any { rd(unsafe.Pointer(x)); return x.v }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	wr(unsafe.Pointer(x))
	x.v = v
}
func (x *Value) Swap(v any) any { wr(unsafe.Pointer(x)); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	wr(unsafe.Pointer(x))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { rd(unsafe.Pointer(p)); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { wr(unsafe.Pointer(p)); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	wr(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	wr(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}
''')
open("atomic.go","w").write("".join(out))
