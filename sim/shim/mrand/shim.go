package rand

import "vsim/vsim"

func Seed(int64)                 {}
func Int63() int64               { return int64(vsim.RandU64() >> 1) }
func Uint32() uint32             { return uint32(vsim.RandU64()) }
func Uint64() uint64             { return vsim.RandU64() }
func Int31() int32               { return int32(vsim.RandU64() >> 33) }
func Int() int                   { return int(vsim.RandU64() >> 1) }
func Int63n(n int64) int64       { return int64(vsim.RandU64()>>1) % n }
func Int31n(n int32) int32       { return int32(Int63n(int64(n))) }
func Intn(n int) int             { return int(Int63n(int64(n))) }
func Float64() float64           { return float64(vsim.RandU64()>>11) / (1 << 53) }
func Float32() float32           { return float32(Float64()) }
func Read(b []byte) (int, error) { return vsim.RandRead(b) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
