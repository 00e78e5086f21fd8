package vsim

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"regexp"
	"sort"
	"syscall"
	"time"
)

// reAddr matches addresses in memory, which differ from process to process.
var reAddr = regexp.MustCompile(`0x[0-9a-f]{8,16}`)

type Inode struct {
	Data  []byte
	Mod   time.Duration
	isDir bool
	dev   *device
	// what is written to HoleLen bytes from HoleAt on is not kept: they read
	// as zeros, so files of many gigabytes cost nothing
	HoleAt, HoleLen int64
}

// Size is the size of the file.
func (i *Inode) Size() int64 {
	if n := int64(len(i.Data)); n <= i.HoleAt {
		return n
	} else {
		return n + i.HoleLen
	}
}

// Phys maps an offset to one into Data; it reports how many of n bytes from
// there on lie together and whether they are in the hole.
func (i *Inode) Phys(off int64, n int) (at int64, m int, hole bool) {
	end := i.HoleAt + i.HoleLen
	switch {
	case i.HoleLen == 0 || off >= end:
		return off - i.HoleLen, n, false
	case off < i.HoleAt:
		return off, int(min(int64(n), i.HoleAt-off)), false
	}
	return i.HoleAt, int(min(int64(n), end-off)), true
}

func (i *Inode) read(b []byte, off int64) {
	for len(b) > 0 {
		at, m, hole := i.Phys(off, len(b))
		if hole {
			clear(b[:m])
		} else {
			copy(b[:m], i.Data[at:])
		}
		b, off = b[m:], off+int64(m)
	}
}

func (i *Inode) write(b []byte, off int64) {
	for len(b) > 0 {
		at, m, hole := i.Phys(off, len(b))
		end := at + int64(m)
		if hole {
			end = at + 1 // a file reaching into its hole reaches beyond it
		}
		if int64(len(i.Data)) < end {
			if int64(cap(i.Data)) < end {
				nd := make([]byte, end, end*2)
				copy(nd, i.Data)
				i.Data = nd
			} else {
				i.Data = i.Data[:end]
			}
		}
		if !hole {
			copy(i.Data[at:], b[:m])
		}
		b, off = b[m:], off+int64(m)
	}
}

// ErrCrash, returned by a fault hook, crashes the writing process right after
// the allowed part of the write.
var ErrCrash = errors.New("crash")

type device struct{ name string }

// FS is an in-memory file system. What a completed write put there survives a
// process crash; a write in progress may be torn.
type FS struct {
	s     *Sim
	Files map[string]*Inode
	// Fault decides about one operation: how many of n bytes take effect and
	// the error to return. op is open, create, read, write, seek, close, sync.
	Fault     func(op, name string, off int64, n int) (allow int, err error)
	Created   []string
	Opened    []string
	ShortRead int // n>0: reads return at most n.. bytes, drawn
	Handles   []*File
	// the hole of files to be created
	HoleAt, HoleLen int64
	OnStd           func(p *Proc, std int, b []byte) // output of a process
}

func newFS(s *Sim) *FS { return &FS{s: s, Files: map[string]*Inode{}} }

type File struct {
	name   string
	ino    *Inode
	off    int64
	closed bool
	flag   int
	Proc   *Proc
	std    int
	WErr   int // write errors reported to the program
}

func (f *File) Closed() bool { return f.closed }

var (
	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}
)

func perr(op, name string, e error) error { return &fs.PathError{Op: op, Path: name, Err: e} }

func (v *FS) fault(op, name string, off int64, n int) (int, error) {
	if v.Fault == nil {
		return n, nil
	}
	return v.Fault(op, name, off, n)
}

func clean(n string) string {
	if n == "" {
		return ""
	}
	if !path.IsAbs(n) {
		n = "/cwd/" + n
	}
	return path.Clean(n)
}

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if dying() {
		return nil, perr("open", name, fs.ErrClosed)
	}
	opYield()
	v := S.FS
	p := clean(name)
	if p == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	op := "open"
	if flag&(os.O_CREATE|os.O_TRUNC) != 0 {
		op = "create"
	}
	if _, err := v.fault(op, p, 0, 0); err != nil {
		Fault("disk_open_error")
		return nil, perr("open", name, err)
	}
	ino := v.Files[p]
	if ino != nil && ino.isDir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		ino = &Inode{Mod: S.now, HoleAt: v.HoleAt, HoleLen: v.HoleLen}
		v.Files[p] = ino
		v.Created = append(v.Created, p)
		S.logf("fs create %s", p)
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	} else if flag&os.O_TRUNC != 0 {
		ino.Data = nil
		S.logf("fs truncate %s", p)
		v.Created = append(v.Created, p)
	}
	v.Opened = append(v.Opened, p)
	f := &File{name: name, ino: ino, flag: flag, Proc: CurProc()}
	f.Proc.files = append(f.Proc.files, f)
	v.Handles = append(v.Handles, f)
	return f, nil
}

// OpenFiles lists files a process holds open.
func (p *Proc) OpenFiles() []string {
	var l []string
	for _, f := range p.files {
		if !f.closed {
			l = append(l, clean(f.name))
		}
	}
	return l
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) chk(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, fs.ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if dying() {
		return 0, io.EOF
	}
	opYield()
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if f.std > 0 {
		return 0, io.EOF
	}
	n, err := f.readAt(b, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) readAt(b []byte, off int64) (int, error) {
	v := S.FS
	if len(b) == 0 {
		return 0, nil
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == os.O_WRONLY {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if off >= f.ino.Size() {
		if _, err := v.fault("read", clean(f.name), off, 0); err != nil {
			Fault("disk_read_error")
			return 0, perr("read", f.name, err)
		}
		return 0, io.EOF
	}
	n := min(len(b), int(min(f.ino.Size()-off, 1<<40)))
	S.IOs++
	allow, err := v.fault("read", clean(f.name), off, n)
	if allow < n {
		n = allow
	}
	if err != nil {
		Fault("disk_read_error")
		f.ino.read(b[:n], off)
		return n, perr("read", f.name, err)
	}
	if v.ShortRead > 0 && n > 1 {
		if k := Draw(StNet, v.ShortRead+1); k > 0 && k < n {
			S.Faults["disk_short_read"]++
			n = k
		}
	}
	f.ino.read(b[:n], off)
	S.fpMix(uint64(n)<<8 | 0xe)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if dying() {
		return 0, io.EOF
	}
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	tot := 0
	for tot < len(b) {
		n, err := f.readAt(b[tot:], off+int64(tot))
		tot += n
		if err != nil {
			return tot, err
		}
	}
	return tot, nil
}

func (f *File) Write(b []byte) (int, error) {
	if dying() {
		return 0, fs.ErrClosed
	}
	opYield()
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	if f.std > 0 {
		S.logf("std%d: %s", f.std, reAddr.ReplaceAll(b, []byte("0x…")))
		if v := S.FS.OnStd; v != nil {
			v(CurProc(), f.std, b)
		}
		return len(b), nil
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = f.ino.Size()
	}
	n, err := f.writeAt(b, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) writeAt(b []byte, off int64) (int, error) {
	v := S.FS
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if at, m, _ := f.ino.Phys(off, len(b)); at+int64(m) > 1<<28 {
		return 0, perr("write", f.name, syscall.EFBIG)
	}
	n, err := v.fault("write", clean(f.name), off, len(b))
	if n > len(b) {
		n = len(b)
	}
	if n > 0 {
		f.ino.write(b[:n], off)
	}
	f.ino.Mod = S.now
	S.IOs++
	S.fpMix(uint64(n)<<8 | 0xf)
	S.logf("fs write %s off %d n %d", f.name, off, n)
	if err == ErrCrash {
		Fault("process_crash")
		f.Proc.Crash()
		err = fs.ErrClosed
	}
	if err != nil {
		f.WErr++
		Fault("disk_write_error")
		return n, perr("write", f.name, err)
	}
	return n, nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if dying() {
		return 0, fs.ErrClosed
	}
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	return f.writeAt(b, off)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if dying() {
		return 0, fs.ErrClosed
	}
	opYield()
	if err := f.chk("seek"); err != nil {
		return 0, err
	}
	var base int64
	switch whence {
	case 1:
		base = f.off
	case 2:
		base = f.ino.Size()
	}
	if base+off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	if _, err := S.FS.fault("seek", clean(f.name), base+off, 0); err != nil {
		Fault("disk_seek_error")
		return 0, perr("seek", f.name, err)
	}
	f.off = base + off
	return f.off, nil
}

func (f *File) Close() error {
	if dying() {
		return nil
	}
	if f == nil {
		return os.ErrInvalid
	}
	if f.std > 0 {
		return nil
	}
	if f.closed {
		return perr("close", f.name, fs.ErrClosed)
	}
	f.closed = true
	S.logf("fs close %s", f.name)
	if _, err := S.FS.fault("close", clean(f.name), 0, 0); err != nil {
		Fault("disk_close_error")
		return perr("close", f.name, err)
	}
	return nil
}

func (f *File) Sync() error {
	if dying() {
		return nil
	}
	if err := f.chk("sync"); err != nil {
		return err
	}
	if _, err := S.FS.fault("sync", clean(f.name), 0, 0); err != nil {
		Fault("disk_sync_error")
		return perr("sync", f.name, err)
	}
	return nil
}

func (f *File) Truncate(n int64) error {
	if err := f.chk("truncate"); err != nil {
		return err
	}
	d := f.ino.Data
	if n <= int64(len(d)) {
		f.ino.Data = d[:n:n]
	} else {
		f.ino.Data = append(d, make([]byte, n-int64(len(d)))...)
	}
	return nil
}

func (f *File) Chmod(fs.FileMode) error { return nil }

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.chk("stat"); err != nil {
		return nil, err
	}
	if f.std > 0 {
		return finfo{name: path.Base(f.name), ino: &Inode{}}, nil
	}
	return finfo{path.Base(f.name), f.ino}, nil
}

type finfo struct {
	name string
	ino  *Inode
}

func (i finfo) Name() string { return i.name }
func (i finfo) Size() int64  { return i.ino.Size() }
func (i finfo) Mode() fs.FileMode {
	if i.ino.isDir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i finfo) ModTime() time.Time { return Epoch.Add(i.ino.Mod) }
func (i finfo) IsDir() bool        { return i.ino.isDir }
func (i finfo) Sys() any           { return nil }

func Stat(name string) (fs.FileInfo, error) {
	if dying() {
		return nil, fs.ErrClosed
	}
	ino := S.FS.Files[clean(name)]
	if ino == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return finfo{path.Base(name), ino}, nil
}

func Remove(name string) error {
	if dying() {
		return fs.ErrClosed
	}
	opYield()
	p := clean(name)
	if S.FS.Files[p] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(S.FS.Files, p)
	S.logf("fs remove %s", p)
	return nil
}

func Rename(a, b string) error {
	if dying() {
		return fs.ErrClosed
	}
	opYield()
	ino := S.FS.Files[clean(a)]
	if ino == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	if _, err := S.FS.fault("rename", clean(a), 0, 0); err != nil {
		return perr("rename", a, err)
	}
	delete(S.FS.Files, clean(a))
	S.FS.Files[clean(b)] = ino
	return nil
}

func Mkdir(name string, _ fs.FileMode) error {
	if dying() {
		return fs.ErrClosed
	}
	S.FS.Files[clean(name)] = &Inode{isDir: true}
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := OpenFile(name, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, b []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func TempName(dir, pattern string) string {
	return path.Join(dir, pattern+"tmp")
}

func (v *FS) Names() []string {
	var l []string
	for n := range v.Files {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// Put and Get are harness-side access without faults.
func (v *FS) Put(name string, b []byte) { v.Files[clean(name)] = &Inode{Data: b} }
func (v *FS) Get(name string) ([]byte, bool) {
	i := v.Files[clean(name)]
	if i == nil {
		return nil, false
	}
	return i.Data, true
}
