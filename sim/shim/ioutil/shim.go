package ioutil

import (
	"io/fs"
	shimos "vsim/shim/os"
	"vsim/vsim"
)

func ReadFile(name string) ([]byte, error)                    { return vsim.ReadFile(name) }
func WriteFile(name string, b []byte, perm fs.FileMode) error { return vsim.WriteFile(name, b, perm) }
func TempFile(dir, pattern string) (*vsim.File, error)        { return shimos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)             { return shimos.MkdirTemp(dir, pattern) }
func ReadDir(string) ([]fs.FileInfo, error)                   { panic("vsim: ReadDir") }
