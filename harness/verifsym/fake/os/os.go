// Package os stands in for the operating system while the disk cache harnesses run:
// a file system in memory whose operations fail, stop the process or let another
// process run wherever the solver's choices say. Nothing here touches a real file.
package os

import (
	"errors"
	"runtime/debug"
	"unsafe"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

const (
	O_RDONLY = 0x0
	O_WRONLY = 0x1
	O_RDWR   = 0x2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	ModePerm FileMode = 0777

	PathSeparator = '/'
)

type FileMode uint32

var (
	ErrNotExist   = errors.New("file does not exist")
	ErrExist      = errors.New("file already exists")
	ErrInvalid    = errors.New("invalid argument")
	ErrPermission = errors.New("permission denied")
	ErrClosed     = errors.New("file already closed")
	errFault      = errors.New("input/output error")
	errFull       = errors.New("no space left on device")
	errEOF        = errors.New("EOF")
)

type PathError struct {
	Op, Path string
	Err      error
}

func (e *PathError) Error() string { return e.Op + " " + e.Path + ": " + e.Err.Error() }
func (e *PathError) Unwrap() error { return e.Err }

type LinkError = PathError

func cause(err error) error {
	if p, ok := err.(*PathError); ok {
		return p.Err
	}
	return err
}
func IsNotExist(err error) bool   { return cause(err) == ErrNotExist }
func IsExist(err error) bool      { return cause(err) == ErrExist }
func IsPermission(err error) bool { return cause(err) == ErrPermission }

// ---- what the harness controls and observes ----

// Room is the capacity of a file in bytes.
const Room = 64

// Node is a file's content.
type Node struct {
	Back []byte // Room bytes, zero beyond Size
	Size int
}

type entry struct {
	path string
	n    *Node
}

type region struct {
	b    []byte
	live bool
}

var (
	files   []entry
	dirs    []string
	regions []region

	Faults  int    // operations that may still fail
	Kills   int    // processes that may still be killed
	Other   func() // another process, run once between two operations
	Killed  bool   // the running process was killed
	nextTmp int
)

func init() { debug.SetGCPercent(-1) }

type killed struct{}

// Point is a place where the process can be killed or another one can run.
func Point(what string) {
	sym.Gate()
	if Killed {
		return
	}
	if Other != nil {
		if sym.Choose("other process before "+what, 2) == 1 {
			f := Other
			Other = nil
			f()
		}
	}
	if Kills > 0 {
		if sym.Choose("killed before "+what, 2) == 1 {
			Kills--
			Killed = true
			panic(killed{})
		}
	}
}

// fails decides whether an operation fails.
func fails(what string) bool {
	Point(what)
	if Killed {
		return true
	}
	if Faults > 0 {
		if sym.Choose("failure of "+what, 2) == 1 {
			Faults--
			return true
		}
	}
	return false
}

// Process runs f as one process, which may be killed; reports whether it survived.
func Process(f func()) bool {
	ok := sym.Try(f)
	Killed = false
	return ok
}

// Put places a file with the given content.
func Put(path string, content []byte) {
	n := &Node{Back: make([]byte, Room), Size: len(content)}
	copy(n.Back, content)
	set(path, n)
	mkdirs(dir(path))
}

// Content is the content of a file, nil if there is none.
func Content(path string) []byte {
	n := lookup(path)
	if n == nil {
		return nil
	}
	return n.Back[:n.Size]
}

// Names lists the files.
func Names() []string {
	var l []string
	for _, e := range files {
		l = append(l, e.path)
	}
	return l
}

// Unmapped reports whether p points into a region that was unmapped.
func Unmapped(p unsafe.Pointer) bool {
	dead := false
	for _, r := range regions {
		for i := range r.b {
			if unsafe.Pointer(&r.b[i]) == p {
				if r.live {
					return false
				}
				dead = true
			}
		}
	}
	return dead
}

// ---- state ----

func lookup(path string) *Node {
	for _, e := range files {
		if e.path == path {
			return e.n
		}
	}
	return nil
}

func set(path string, n *Node) {
	for i, e := range files {
		if e.path == path {
			files[i].n = n
			return
		}
	}
	files = append(files, entry{path, n})
}

func drop(path string) {
	var l []entry
	for _, e := range files {
		if e.path != path {
			l = append(l, e)
		}
	}
	files = l
}

func dir(path string) string {
	for i := len(path) - 1; i > 0; i-- {
		if path[i] == '/' {
			return path[:i]
		}
	}
	return "/"
}

func isDir(path string) bool {
	if path == "/" || path == "." {
		return true
	}
	for _, d := range dirs {
		if d == path {
			return true
		}
	}
	return false
}

func mkdirs(path string) {
	if !isDir(path) {
		mkdirs(dir(path))
		dirs = append(dirs, path)
	}
}

func (n *Node) resize(size int64) error {
	if size < 0 {
		return ErrInvalid
	}
	if size > Room {
		return errFull
	}
	for i := int(size); i < n.Size; i++ {
		n.Back[i] = 0
	}
	n.Size = int(size)
	return nil
}

// ---- the part of package os the code may use ----

type File struct {
	n      *Node
	name   string
	flag   int
	pos    int
	closed bool
}

type FileInfo interface {
	Name() string
	Size() int64
	IsDir() bool
}

type info struct {
	name string
	size int64
	dir  bool
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return i.size }
func (i *info) IsDir() bool  { return i.dir }

func wrap(op, path string, err error) error { return &PathError{op, path, err} }

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if fails("open") {
		return nil, wrap("open", name, errFault)
	}
	n := lookup(name)
	if n == nil {
		if flag&O_CREATE == 0 || !isDir(dir(name)) {
			return nil, wrap("open", name, ErrNotExist)
		}
		n = &Node{Back: make([]byte, Room)}
		set(name, n)
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return nil, wrap("open", name, ErrExist)
		}
		if flag&O_TRUNC != 0 {
			n.resize(0)
		}
	}
	return &File{n: n, name: name, flag: flag}, nil
}

func CreateTemp(d, pattern string) (*File, error) {
	nextTmp++
	suffix := string(rune('a'+nextTmp/26%26)) + string(rune('a'+nextTmp%26))
	name := pattern + suffix
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			name = pattern[:i] + suffix + pattern[i+1:]
			break
		}
	}
	if d == "" {
		d = TempDir()
	}
	return OpenFile(d+"/"+name, O_RDWR|O_CREATE|O_EXCL, 0600)
}

func TempDir() string { return "/tmp" }
func Getpid() int     { return 4711 }
func Getpagesize() int {
	return 4096
}

func (f *File) Name() string { return f.name }

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return wrap("close", f.name, ErrClosed)
	}
	f.closed = true
	if fails("close") {
		return wrap("close", f.name, errFault)
	}
	return nil
}

func (f *File) Truncate(size int64) error {
	if f.closed {
		return wrap("truncate", f.name, ErrClosed)
	}
	if fails("truncate") {
		return wrap("truncate", f.name, errFault)
	}
	if f.flag&(O_RDWR|O_WRONLY) == 0 {
		return wrap("truncate", f.name, ErrInvalid)
	}
	return f.n.resize(size)
}

func (f *File) Sync() error {
	if f.closed {
		return wrap("sync", f.name, ErrClosed)
	}
	if fails("sync") {
		return wrap("sync", f.name, errFault)
	}
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if f.closed {
		return nil, wrap("stat", f.name, ErrClosed)
	}
	if fails("fstat") {
		return nil, wrap("stat", f.name, errFault)
	}
	return &info{f.name, int64(f.n.Size), false}, nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.closed {
		return 0, wrap("write", f.name, ErrClosed)
	}
	if f.flag&(O_RDWR|O_WRONLY) == 0 {
		return 0, wrap("write", f.name, ErrPermission)
	}
	// a failing write leaves a prefix behind, so does a killed process
	half := len(b) / 2
	for i := 0; i < half; i++ {
		if err := f.put(int(off)+i, b[i]); err != nil {
			return i, err
		}
	}
	if fails("write") {
		return half, wrap("write", f.name, errFault)
	}
	for i := half; i < len(b); i++ {
		if err := f.put(int(off)+i, b[i]); err != nil {
			return i, err
		}
	}
	return len(b), nil
}

func (f *File) put(i int, c byte) error {
	if i >= Room {
		return wrap("write", f.name, errFull)
	}
	f.n.Back[i] = c
	if i >= f.n.Size {
		f.n.Size = i + 1
	}
	return nil
}

func (f *File) Write(b []byte) (int, error) {
	if f.flag&O_APPEND != 0 {
		f.pos = f.n.Size
	}
	n, err := f.WriteAt(b, int64(f.pos))
	f.pos += n
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f.closed {
		return 0, wrap("read", f.name, ErrClosed)
	}
	if fails("read") {
		return 0, wrap("read", f.name, errFault)
	}
	if int(off) >= f.n.Size {
		return 0, errEOF
	}
	n := copy(b, f.n.Back[off:f.n.Size])
	if n < len(b) {
		return n, errEOF
	}
	return n, nil
}

func (f *File) Read(b []byte) (int, error) {
	if f.pos >= f.n.Size {
		return 0, errEOF
	}
	n, err := f.ReadAt(b, int64(f.pos))
	f.pos += n
	if n > 0 {
		err = nil
	}
	return n, err
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case 0:
		f.pos = int(offset)
	case 1:
		f.pos += int(offset)
	case 2:
		f.pos = f.n.Size + int(offset)
	}
	return int64(f.pos), nil
}

func Stat(name string) (FileInfo, error) {
	if fails("stat") {
		return nil, wrap("stat", name, errFault)
	}
	if n := lookup(name); n != nil {
		return &info{name, int64(n.Size), false}, nil
	}
	if isDir(name) {
		return &info{name, 4096, true}, nil
	}
	return nil, wrap("stat", name, ErrNotExist)
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func MkdirAll(path string, perm FileMode) error {
	if fails("mkdir") {
		return wrap("mkdir", path, errFault)
	}
	mkdirs(path)
	return nil
}

func Remove(name string) error {
	if fails("remove") {
		return wrap("remove", name, errFault)
	}
	if lookup(name) == nil {
		return wrap("remove", name, ErrNotExist)
	}
	drop(name)
	return nil
}

func Truncate(name string, size int64) error {
	if fails("truncate") {
		return wrap("truncate", name, errFault)
	}
	n := lookup(name)
	if n == nil {
		return wrap("truncate", name, ErrNotExist)
	}
	return n.resize(size)
}

func Rename(from, to string) error {
	if fails("rename") {
		return wrap("rename", from, errFault)
	}
	n := lookup(from)
	if n == nil || !isDir(dir(to)) {
		return wrap("rename", from, ErrNotExist)
	}
	if from != to {
		drop(from)
		set(to, n)
	}
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	b := make([]byte, f.n.Size)
	if len(b) > 0 {
		if _, err := f.ReadAt(b, 0); err != nil {
			return nil, err
		}
	}
	return b, f.Close()
}

func WriteFile(name string, b []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	if _, err := f.Write(b); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}

// ---- memory mapping, for the stand-in of the mmap package ----

// VerifMap maps the file: shared for writing, a snapshot for reading only.
func (f *File) VerifMap(length int, write, private bool) ([]byte, error) {
	if f == nil || f.closed {
		return nil, ErrInvalid
	}
	if fails("mmap") {
		return nil, errFault
	}
	if length < 0 {
		length = f.n.Size
	}
	if length == 0 || f.flag&O_WRONLY != 0 {
		return nil, ErrInvalid
	}
	if length > f.n.Size {
		panic("verif: access beyond the end of a mapped file")
	}
	var b []byte
	if write && !private {
		if f.flag&O_RDWR == 0 {
			return nil, ErrPermission
		}
		b = f.n.Back[:length:length]
	} else {
		b = make([]byte, length)
		copy(b, f.n.Back)
	}
	regions = append(regions, region{b, true})
	return b, nil
}

// VerifUnmap ends a mapping.
func VerifUnmap(b []byte) error {
	if fails("munmap") {
		return errFault
	}
	if len(b) == 0 {
		return ErrInvalid
	}
	for i := len(regions) - 1; i >= 0; i-- {
		if regions[i].live && len(regions[i].b) == len(b) && &regions[i].b[0] == &b[0] {
			regions[i].live = false
			return nil
		}
	}
	return ErrInvalid
}

// VerifCall is any other call on a mapping.
func VerifCall(what string) error {
	if fails(what) {
		return errFault
	}
	return nil
}

// ---- less usual calls ----

type DirEntry interface {
	Name() string
	IsDir() bool
	Info() (FileInfo, error)
}

type dirEntry struct{ i *info }

func (d *dirEntry) Name() string            { return d.i.name }
func (d *dirEntry) IsDir() bool             { return d.i.dir }
func (d *dirEntry) Info() (FileInfo, error) { return d.i, nil }

func ReadDir(name string) ([]DirEntry, error) {
	if fails("readdir") {
		return nil, wrap("open", name, errFault)
	}
	if !isDir(name) {
		return nil, wrap("open", name, ErrNotExist)
	}
	var out []DirEntry
	for _, e := range files {
		if dir(e.path) == name {
			out = append(out, &dirEntry{&info{e.path[len(name)+1:], int64(e.n.Size), false}})
		}
	}
	for _, d := range dirs {
		if d != name && dir(d) == name {
			out = append(out, &dirEntry{&info{d[len(name)+1:], 4096, true}})
		}
	}
	return out, nil
}

func RemoveAll(name string) error {
	if fails("remove") {
		return wrap("remove", name, errFault)
	}
	drop(name)
	for _, p := range Names() {
		if len(p) > len(name) && p[:len(name)+1] == name+"/" {
			drop(p)
		}
	}
	return nil
}

func Mkdir(path string, perm FileMode) error {
	if fails("mkdir") {
		return wrap("mkdir", path, errFault)
	}
	if isDir(path) {
		return wrap("mkdir", path, ErrExist)
	}
	if !isDir(dir(path)) {
		return wrap("mkdir", path, ErrNotExist)
	}
	mkdirs(path)
	return nil
}

func Link(from, to string) error {
	if fails("link") {
		return wrap("link", from, errFault)
	}
	n := lookup(from)
	if n == nil {
		return wrap("link", from, ErrNotExist)
	}
	if lookup(to) != nil {
		return wrap("link", to, ErrExist)
	}
	set(to, n)
	return nil
}

func Chmod(name string, mode FileMode) error {
	if fails("chmod") {
		return wrap("chmod", name, errFault)
	}
	if lookup(name) == nil && !isDir(name) {
		return wrap("chmod", name, ErrNotExist)
	}
	return nil
}

func (f *File) Chmod(mode FileMode) error { return VerifCall("chmod") }
func (f *File) Fd() uintptr               { return 3 }
func Getenv(string) string                { return "" }
func UserHomeDir() (string, error)        { return "/home/user", nil }
func Getuid() int                         { return 1000 }
