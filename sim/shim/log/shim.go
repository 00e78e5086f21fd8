package log

import (
	"fmt"
	shimos "vsim/shim/os"
	"vsim/vsim"
)

func out(s string)              { vsim.Stderr.Write([]byte(s)) }
func Println(a ...any)          { out(fmt.Sprintln(a...)) }
func Printf(f string, a ...any) { out(fmt.Sprintf(f, a...)) }
func Print(a ...any)            { out(fmt.Sprint(a...)) }
func Fatal(a ...any)            { out(fmt.Sprint(a...)); shimos.Exit(1) }
func Fatalf(f string, a ...any) { out(fmt.Sprintf(f, a...)); shimos.Exit(1) }
func Fatalln(a ...any)          { out(fmt.Sprintln(a...)); shimos.Exit(1) }
func Panic(a ...any)            { panic(fmt.Sprint(a...)) }
func Panicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func Panicln(a ...any)          { panic(fmt.Sprintln(a...)) }
