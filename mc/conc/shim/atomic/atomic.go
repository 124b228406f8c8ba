//go:build go1.23

// Package atomic stands in for sync/atomic in rewritten code.
package atomic

import (
	"unsafe"

	"github.com/superisaac/jlib/zzverif/vrt"
)

var global vrt.Obj

func gstep(w string) {
	if !vrt.Pass() {
		vrt.Step(&global, w)
	}
}

type ob struct{ o vrt.Obj }

func (b *ob) step(w string) {
	if !vrt.Pass() {
		vrt.Step(&b.o, w)
	}
}

type Bool struct {
	ob
	v bool
}

func (x *Bool) Load() bool       { x.step("atomic.Load"); return x.v }
func (x *Bool) Store(v bool)     { x.step("atomic.Store"); x.v = v }
func (x *Bool) Swap(v bool) bool { x.step("atomic.Swap"); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	x.step("atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct {
	ob
	v any
}

func (x *Value) Load() any { x.step("atomic.Load"); return x.v }
func (x *Value) Store(v any) {
	x.step("atomic.Store")
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	x.v = v
}
func (x *Value) Swap(v any) any { x.step("atomic.Swap"); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	x.step("atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Pointer[T any] struct {
	ob
	v *T
}

func (x *Pointer[T]) Load() *T     { x.step("atomic.Load"); return x.v }
func (x *Pointer[T]) Store(v *T)   { x.step("atomic.Store"); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { x.step("atomic.Swap"); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	x.step("atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { gstep("atomic.Load"); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { gstep("atomic.Store"); *p = v }

type Int32 struct {
	ob
	v int32
}

func (x *Int32) Load() int32        { x.step("atomic.Load"); return x.v }
func (x *Int32) Store(v int32)      { x.step("atomic.Store"); x.v = v }
func (x *Int32) Swap(v int32) int32 { x.step("atomic.Swap"); o := x.v; x.v = v; return o }
func (x *Int32) Add(d int32) int32  { x.step("atomic.Add"); x.v += d; return x.v }
func (x *Int32) And(m int32) int32  { x.step("atomic.And"); o := x.v; x.v &= m; return o }
func (x *Int32) Or(m int32) int32   { x.step("atomic.Or"); o := x.v; x.v |= m; return o }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	x.step("atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadInt32(p *int32) int32          { gstep("atomic.Load"); return *p }
func StoreInt32(p *int32, v int32)      { gstep("atomic.Store"); *p = v }
func AddInt32(p *int32, d int32) int32  { gstep("atomic.Add"); *p += d; return *p }
func SwapInt32(p *int32, v int32) int32 { gstep("atomic.Swap"); o := *p; *p = v; return o }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	gstep("atomic.CompareAndSwap")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int64 struct {
	ob
	v int64
}

func (x *Int64) Load() int64        { x.step("atomic.Load"); return x.v }
func (x *Int64) Store(v int64)      { x.step("atomic.Store"); x.v = v }
func (x *Int64) Swap(v int64) int64 { x.step("atomic.Swap"); o := x.v; x.v = v; return o }
func (x *Int64) Add(d int64) int64  { x.step("atomic.Add"); x.v += d; return x.v }
func (x *Int64) And(m int64) int64  { x.step("atomic.And"); o := x.v; x.v &= m; return o }
func (x *Int64) Or(m int64) int64   { x.step("atomic.Or"); o := x.v; x.v |= m; return o }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	x.step("atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadInt64(p *int64) int64          { gstep("atomic.Load"); return *p }
func StoreInt64(p *int64, v int64)      { gstep("atomic.Store"); *p = v }
func AddInt64(p *int64, d int64) int64  { gstep("atomic.Add"); *p += d; return *p }
func SwapInt64(p *int64, v int64) int64 { gstep("atomic.Swap"); o := *p; *p = v; return o }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	gstep("atomic.CompareAndSwap")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint32 struct {
	ob
	v uint32
}

func (x *Uint32) Load() uint32         { x.step("atomic.Load"); return x.v }
func (x *Uint32) Store(v uint32)       { x.step("atomic.Store"); x.v = v }
func (x *Uint32) Swap(v uint32) uint32 { x.step("atomic.Swap"); o := x.v; x.v = v; return o }
func (x *Uint32) Add(d uint32) uint32  { x.step("atomic.Add"); x.v += d; return x.v }
func (x *Uint32) And(m uint32) uint32  { x.step("atomic.And"); o := x.v; x.v &= m; return o }
func (x *Uint32) Or(m uint32) uint32   { x.step("atomic.Or"); o := x.v; x.v |= m; return o }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	x.step("atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadUint32(p *uint32) uint32           { gstep("atomic.Load"); return *p }
func StoreUint32(p *uint32, v uint32)       { gstep("atomic.Store"); *p = v }
func AddUint32(p *uint32, d uint32) uint32  { gstep("atomic.Add"); *p += d; return *p }
func SwapUint32(p *uint32, v uint32) uint32 { gstep("atomic.Swap"); o := *p; *p = v; return o }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	gstep("atomic.CompareAndSwap")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint64 struct {
	ob
	v uint64
}

func (x *Uint64) Load() uint64         { x.step("atomic.Load"); return x.v }
func (x *Uint64) Store(v uint64)       { x.step("atomic.Store"); x.v = v }
func (x *Uint64) Swap(v uint64) uint64 { x.step("atomic.Swap"); o := x.v; x.v = v; return o }
func (x *Uint64) Add(d uint64) uint64  { x.step("atomic.Add"); x.v += d; return x.v }
func (x *Uint64) And(m uint64) uint64  { x.step("atomic.And"); o := x.v; x.v &= m; return o }
func (x *Uint64) Or(m uint64) uint64   { x.step("atomic.Or"); o := x.v; x.v |= m; return o }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	x.step("atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadUint64(p *uint64) uint64           { gstep("atomic.Load"); return *p }
func StoreUint64(p *uint64, v uint64)       { gstep("atomic.Store"); *p = v }
func AddUint64(p *uint64, d uint64) uint64  { gstep("atomic.Add"); *p += d; return *p }
func SwapUint64(p *uint64, v uint64) uint64 { gstep("atomic.Swap"); o := *p; *p = v; return o }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	gstep("atomic.CompareAndSwap")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uintptr struct {
	ob
	v uintptr
}

func (x *Uintptr) Load() uintptr          { x.step("atomic.Load"); return x.v }
func (x *Uintptr) Store(v uintptr)        { x.step("atomic.Store"); x.v = v }
func (x *Uintptr) Swap(v uintptr) uintptr { x.step("atomic.Swap"); o := x.v; x.v = v; return o }
func (x *Uintptr) Add(d uintptr) uintptr  { x.step("atomic.Add"); x.v += d; return x.v }
func (x *Uintptr) And(m uintptr) uintptr  { x.step("atomic.And"); o := x.v; x.v &= m; return o }
func (x *Uintptr) Or(m uintptr) uintptr   { x.step("atomic.Or"); o := x.v; x.v |= m; return o }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	x.step("atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadUintptr(p *uintptr) uintptr            { gstep("atomic.Load"); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { gstep("atomic.Store"); *p = v }
func AddUintptr(p *uintptr, d uintptr) uintptr  { gstep("atomic.Add"); *p += d; return *p }
func SwapUintptr(p *uintptr, v uintptr) uintptr { gstep("atomic.Swap"); o := *p; *p = v; return o }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	gstep("atomic.CompareAndSwap")
	if *p == o {
		*p = n
		return true
	}
	return false
}
