package rand

import "vsim/vsim"

func Int64() int64         { return int64(vsim.RandU64() >> 1) }
func Uint32() uint32       { return uint32(vsim.RandU64()) }
func Uint64() uint64       { return vsim.RandU64() }
func Int32() int32         { return int32(vsim.RandU64() >> 33) }
func Int() int             { return int(vsim.RandU64() >> 1) }
func Int64N(n int64) int64 { return int64(vsim.RandU64()>>1) % n }
func Int32N(n int32) int32 { return int32(Int64N(int64(n))) }
func IntN(n int) int       { return int(Int64N(int64(n))) }
func Float64() float64     { return float64(vsim.RandU64()>>11) / (1 << 53) }
