package os

import (
	"io/fs"
	"os"
	"vsim/vsim"
)

type File = vsim.File

var (
	Stdin  = vsim.Stdin
	Stdout = vsim.Stdout
	Stderr = vsim.Stderr
)

func Open(name string) (*File, error) { return vsim.OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return vsim.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	return vsim.OpenFile(name, flag, perm)
}
func ReadFile(name string) ([]byte, error)                    { return vsim.ReadFile(name) }
func WriteFile(name string, b []byte, perm fs.FileMode) error { return vsim.WriteFile(name, b, perm) }
func Stat(name string) (fs.FileInfo, error)                   { return vsim.Stat(name) }
func Lstat(name string) (fs.FileInfo, error)                  { return vsim.Stat(name) }
func Remove(name string) error                                { return vsim.Remove(name) }
func RemoveAll(name string) error                             { vsim.Remove(name); return nil }
func Rename(a, b string) error                                { return vsim.Rename(a, b) }
func Mkdir(name string, p fs.FileMode) error                  { return vsim.Mkdir(name, p) }
func MkdirAll(name string, p fs.FileMode) error               { return vsim.Mkdir(name, p) }
func CreateTemp(dir, pattern string) (*File, error) {
	return vsim.OpenFile(vsim.TempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
}
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}
func Exit(code int) {
	if p := vsim.CurProc(); p != nil {
		p.Exit(code)
		return
	}
	os.Exit(code)
}
func Chmod(string, fs.FileMode) error       { return nil }
func Getwd() (string, error)                { return "/cwd", nil }
func Getpid() int                           { return 1000 }
func Chdir(string) error                    { return nil }
func TempDir() string                       { return "/tmp" }
func DirFS(string) fs.FS                    { panic("vsim: DirFS") }
func Symlink(a, b string) error             { panic("vsim: Symlink") }
func Link(a, b string) error                { panic("vsim: Link") }
func ReadDir(string) ([]fs.DirEntry, error) { panic("vsim: ReadDir") }
func MkdirTemp(d, p string) (string, error) { n := vsim.TempName(d, p); return n, vsim.Mkdir(n, 0) }
func Kill()                                 {}
func NewFile(uintptr, string) *File         { panic("vsim: NewFile") }
func Pipe() (*File, *File, error)           { panic("vsim: Pipe") }
func StartProcess()                         {}
func CopyFS(string, fs.FS) error            { panic("vsim: CopyFS") }
