// Code generated by cmd/shimgen. DO NOT EDIT.

package atomic

import real "sync/atomic"

var AndInt32 = real.AndInt32
var AndInt64 = real.AndInt64
var AndUint32 = real.AndUint32
var AndUint64 = real.AndUint64
var AndUintptr = real.AndUintptr

type Bool = real.Bool
type Int32 = real.Int32
type Int64 = real.Int64

var OrInt32 = real.OrInt32
var OrInt64 = real.OrInt64
var OrUint32 = real.OrUint32
var OrUint64 = real.OrUint64
var OrUintptr = real.OrUintptr

type Pointer[T any] = real.Pointer[T]
type Uint32 = real.Uint32
type Uint64 = real.Uint64
type Uintptr = real.Uintptr
type Value = real.Value
