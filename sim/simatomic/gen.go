package simatomic

import "sync/atomic"

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { pt(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { pt(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { pt(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { pt(); return x.v.Add(d) }
func (x *Int32) And(m int32) int32              { pt(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { pt(); return x.v.Or(m) }

func LoadInt32(p *int32) int32                      { pt(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)                  { pt(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32             { pt(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { pt(); return atomic.CompareAndSwapInt32(p, o, n) }
func AddInt32(p *int32, d int32) int32              { pt(); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, m int32) int32              { pt(); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32               { pt(); return atomic.OrInt32(p, m) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { pt(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { pt(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { pt(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { pt(); return x.v.Add(d) }
func (x *Int64) And(m int64) int64              { pt(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { pt(); return x.v.Or(m) }

func LoadInt64(p *int64) int64                      { pt(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)                  { pt(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64             { pt(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { pt(); return atomic.CompareAndSwapInt64(p, o, n) }
func AddInt64(p *int64, d int64) int64              { pt(); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, m int64) int64              { pt(); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64               { pt(); return atomic.OrInt64(p, m) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { pt(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { pt(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { pt(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { pt(); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32             { pt(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { pt(); return x.v.Or(m) }

func LoadUint32(p *uint32) uint32           { pt(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { pt(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { pt(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, d uint32) uint32 { pt(); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, m uint32) uint32 { pt(); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { pt(); return atomic.OrUint32(p, m) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { pt(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { pt(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { pt(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { pt(); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64             { pt(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { pt(); return x.v.Or(m) }

func LoadUint64(p *uint64) uint64           { pt(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { pt(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { pt(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, d uint64) uint64 { pt(); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, m uint64) uint64 { pt(); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { pt(); return atomic.OrUint64(p, m) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { pt(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { pt(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { pt(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { pt(); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr            { pt(); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { pt(); return x.v.Or(m) }

func LoadUintptr(p *uintptr) uintptr            { pt(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { pt(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { pt(); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, m uintptr) uintptr { pt(); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { pt(); return atomic.OrUintptr(p, m) }
