package runtime

import "vsim/vsim"

func Gosched()          { vsim.Sleep(0) }
func NumGoroutine() int { return 1 }
func GC()               {}
