package vsim

import (
	"reflect"
	"runtime/debug"
)

func stackNow() string { return string(debug.Stack()) }

var resetFns []func()

// OnReset registers a function run at the start of every simulation.
func OnReset(f func()) { resetFns = append(resetFns, f) }

func resetGlobals() {
	for _, f := range resetFns {
		f()
	}
}

// Rand is the simulated entropy source: deterministic per run.
var randState uint64

func init() {
	OnReset(func() { randState = uint64(S.draw(StWork, 1<<20, nil)) })
}

func RandU64() uint64 { return splitmix(&randState) }

func RandRead(b []byte) (int, error) {
	for i := 0; i < len(b); i += 8 {
		v := RandU64()
		for j := 0; j < 8 && i+j < len(b); j++ {
			b[i+j] = byte(v >> (8 * uint(j)))
		}
	}
	return len(b), nil
}

// Globals registers package variables of the system under test: every run
// starts with the values they have now.
func Globals(ptrs ...any) {
	for _, p := range ptrs {
		v := reflect.ValueOf(p).Elem()
		old := reflect.New(v.Type()).Elem()
		old.Set(v)
		var more func()
		switch v.Kind() {
		case reflect.Map:
			if v.IsNil() {
				break
			}
			type kv struct{ k, v reflect.Value }
			var l []kv
			for it := old.MapRange(); it.Next(); {
				l = append(l, kv{it.Key(), it.Value()})
				if e := it.Value(); e.Kind() == reflect.Ptr && !e.IsNil() {
					Globals(e.Interface())
				}
			}
			more = func() {
				old.Clear()
				for _, e := range l {
					old.SetMapIndex(e.k, e.v)
				}
			}
		case reflect.Slice:
			if v.IsNil() {
				break
			}
			c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(c, v)
			more = func() { reflect.Copy(old, c) }
		case reflect.Ptr:
			if v.IsNil() {
				break
			}
			c := reflect.New(v.Type().Elem()).Elem()
			c.Set(old.Elem())
			more = func() { old.Elem().Set(c) }
		}
		OnReset(func() {
			v.Set(old)
			if more != nil {
				more()
			}
		})
	}
}
