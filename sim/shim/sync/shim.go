package sync

import "vsim/vsim"

type Mutex = vsim.Mutex
type RWMutex = vsim.RWMutex
type WaitGroup = vsim.WaitGroup
type Once = vsim.Once
type Locker = vsim.Locker
type Cond = vsim.Cond
type Map = vsim.Map
type Pool = vsim.Pool

func NewCond(l Locker) *Cond { return vsim.NewCond(l) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}
