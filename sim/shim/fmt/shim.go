package fmt

import (
	"fmt"
	"vsim/vsim"
)

func out(s string) (int, error) { vsim.Stdout.Write([]byte(s)); return len(s), nil }

func Println(a ...any) (int, error)          { return out(fmt.Sprintln(a...)) }
func Printf(f string, a ...any) (int, error) { return out(fmt.Sprintf(f, a...)) }
func Print(a ...any) (int, error)            { return out(fmt.Sprint(a...)) }
