// Package vfs is an in-memory file system that implements the traversal file
// system interface of the code under test. It is the stand-in for the real
// disk: nothing that is done through it can leave the process. It serves
// directory entries in an arbitrary (seeded) order, so that any order seen by
// a client is the work of the traversal, it can be told to fail at chosen
// points, and it records every call.
package vfs

import (
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	nef "github.com/snivilised/nefilim"
)

// Node is one item of the tree.
type Node struct {
	Name string
	Dir  bool
	Kids []*Node // in raw (served) order
	Data []byte
	Link bool // mode says symlink; never a directory
}

// Find a child by name.
func (n *Node) Find(name string) *Node {
	for _, k := range n.Kids {
		if k.Name == name {
			return k
		}
	}

	return nil
}

// FS is the file system.
type FS struct {
	Root *Node // virtual root
	Rel  bool  // relative (paths without a leading separator)

	mu       sync.Mutex
	ReadErr  map[string]error // ReadDir failure per path
	ReadPart map[string]int   // with ReadErr: number of entries served along
	StatErr  map[string]error
	InfoErr  map[string]error // DirEntry.Info failure per path
	MkErr    error            // MakeDirAll fails
	WriteErr error            // WriteFile fails
	WriteCut int              // with WriteErr: bytes written before failing
	Reads    []string         // every ReadDir, in order
	Writes   []string
	Unusable []string // made with permissions that keep the owner from using it
	Stats    []string
	Outside  []string // absolute writes observed outside the tree (none expected)
}

// New makes an empty file system.
func New(rel bool) *FS {
	return &FS{
		Root: &Node{Dir: true}, Rel: rel,
		ReadErr: map[string]error{}, ReadPart: map[string]int{},
		StatErr: map[string]error{}, InfoErr: map[string]error{},
	}
}

func (f *FS) split(p string) []string {
	p = strings.Trim(path.Clean(p), "/")
	if p == "" || p == "." {
		return nil
	}

	return strings.Split(p, "/")
}

// At finds the node at p.
func (f *FS) At(p string) *Node {
	n := f.Root
	for _, s := range f.split(p) {
		if n == nil || !n.Dir {
			return nil
		}

		n = n.Find(s)
	}

	return n
}

// Mk makes p (and its parents).
func (f *FS) Mk(p string, dir bool) *Node {
	n := f.Root
	parts := f.split(p)

	for i, s := range parts {
		k := n.Find(s)
		if k == nil {
			k = &Node{Name: s, Dir: i < len(parts)-1 || dir}
			n.Kids = append(n.Kids, k)
		}

		n = k
	}

	return n
}

// Shuffle makes the served order of every directory arbitrary.
func (f *FS) Shuffle(r *rand.Rand) {
	var walk func(n *Node)
	walk = func(n *Node) {
		r.Shuffle(len(n.Kids), func(i, j int) {
			n.Kids[i], n.Kids[j] = n.Kids[j], n.Kids[i]
		})

		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(f.Root)
}

// Listing is a flat description of the tree, for counterexamples.
func (f *FS) Listing() []string {
	var out []string

	var walk func(n *Node, at string)
	walk = func(n *Node, at string) {
		for _, k := range n.Kids {
			p := at + "/" + k.Name
			if k.Dir {
				out = append(out, p+"/")
				walk(k, p)
			} else {
				out = append(out, p)
			}
		}
	}
	walk(f.Root, "")
	sort.Strings(out)

	return out
}

// Reset the logs.
func (f *FS) Reset() {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.Reads, f.Writes, f.Stats, f.Unusable = nil, nil, nil, nil
}

// TakeReads returns the directories read so far.
func (f *FS) TakeReads() []string {
	f.mu.Lock()
	defer f.mu.Unlock()

	return append([]string{}, f.Reads...)
}

type info struct{ n *Node }

func (i info) Name() string { return i.n.Name }
func (i info) Size() int64  { return int64(len(i.n.Data)) }
func (i info) Mode() fs.FileMode {
	switch {
	case i.n.Dir:
		return fs.ModeDir | 0o755
	case i.n.Link:
		return fs.ModeSymlink | 0o777
	}

	return 0o644
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() any           { return nil }

type entry struct {
	info
	err error
}

func (e entry) Type() fs.FileMode { return e.Mode().Type() }
func (e entry) Info() (fs.FileInfo, error) {
	if e.err != nil {
		return nil, e.err
	}

	return e.info, nil
}
func (e entry) String() string { return e.Name() }

func bad(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// Valid refuses a path that does not fit the kind of file system, as the real
// ones do.
func (f *FS) valid(p string) bool {
	if f.Rel {
		return fs.ValidPath(p)
	}

	return strings.HasPrefix(p, "/")
}

// reasons that a file system gives.
var reasons = []error{fs.ErrPermission, fs.ErrNotExist, fs.ErrInvalid, fs.ErrClosed, fs.ErrExist, io.EOF, io.ErrUnexpectedEOF,
	os.ErrDeadlineExceeded, context.Canceled, syscall.EACCES, syscall.EIO, syscall.ELOOP, syscall.ENOTDIR, syscall.ENAMETOOLONG}

// guise in which the failure of an operation is reported.
func guise(op, p string, err error) error {
	h := fnv.New32a()
	fmt.Fprint(h, op, p)
	k := int(h.Sum32()>>4) % (len(reasons) + 4)

	switch {
	case err == nil:
		return nil
	case k < len(reasons):
		return &fs.PathError{Op: op, Path: p, Err: errors.Join(err, reasons[k])}
	case k < len(reasons)+2:
		return bad(op, p, err)
	}

	return err
}

// InfoFailure of an entry.
func (f *FS) InfoFailure(p string) error { return guise("lstat", p, f.InfoErr[p]) }

// Stat implements fs.StatFS.
func (f *FS) Stat(p string) (fs.FileInfo, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.Stats = append(f.Stats, p)

	if err := f.StatErr[p]; err != nil {
		return nil, guise("stat", p, err)
	}

	if !f.valid(p) {
		return nil, bad("stat", p, fs.ErrInvalid)
	}

	n := f.At(p)
	if n == nil {
		return nil, bad("stat", p, fs.ErrNotExist)
	}

	return info{n}, nil
}

// ReadDir implements fs.ReadDirFS. The order is whatever Kids has.
func (f *FS) ReadDir(p string) ([]fs.DirEntry, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.Reads = append(f.Reads, p)

	if !f.valid(p) {
		return nil, bad("readdir", p, fs.ErrInvalid)
	}

	n := f.At(p)
	if n == nil {
		return nil, bad("readdir", p, fs.ErrNotExist)
	}

	if !n.Dir {
		return nil, bad("readdir", p, errors.New("not a directory"))
	}

	out := make([]fs.DirEntry, 0, len(n.Kids))
	for _, k := range n.Kids {
		at := path.Join(p, k.Name)
		out = append(out, entry{info: info{k}, err: f.InfoFailure(at)})
	}

	if err := f.ReadErr[p]; err != nil {
		return out[:min(len(out), f.ReadPart[p])], guise("readdir", p, err)
	}

	return out, nil
}

type file struct {
	info
	pos int
}

func (h *file) Stat() (fs.FileInfo, error) { return h.info, nil }
func (h *file) Close() error               { return nil }
func (h *file) Read(b []byte) (int, error) {
	if h.pos >= len(h.n.Data) {
		return 0, io.EOF
	}

	c := copy(b, h.n.Data[h.pos:])
	h.pos += c

	return c, nil
}

// Open implements fs.FS.
func (f *FS) Open(p string) (fs.File, error) {
	f.mu.Lock()
	defer f.mu.Unlock()

	n := f.At(p)
	if n == nil {
		return nil, bad("open", p, fs.ErrNotExist)
	}

	return &file{info: info{n}}, nil
}

// ReadFile reads a whole file.
func (f *FS) ReadFile(p string) ([]byte, error) {
	f.mu.Lock()
	defer f.mu.Unlock()

	n := f.At(p)
	if n == nil || n.Dir {
		return nil, bad("read", p, fs.ErrNotExist)
	}

	return append([]byte{}, n.Data...), nil
}

// Calc is the path calculator that goes with the kind of file system.
func (f *FS) Calc() nef.PathCalc {
	if f.Rel {
		return &nef.RelativeCalc{}
	}

	return &nef.AbsoluteCalc{}
}

// IsRelative tells the kind.
func (f *FS) IsRelative() bool { return f.Rel }

// FileExists tells if p is a file.
func (f *FS) FileExists(p string) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	n := f.At(p)

	return n != nil && !n.Dir
}

// DirectoryExists tells if p is a directory.
func (f *FS) DirectoryExists(p string) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	n := f.At(p)

	return n != nil && n.Dir
}

// MakeDir makes one directory.
func (f *FS) MakeDir(p string, perm os.FileMode) error { return f.MakeDirAll(p, perm) }

// MakeDirAll makes a directory and its parents.
func (f *FS) MakeDirAll(p string, perm os.FileMode) error {
	f.mu.Lock()
	defer f.mu.Unlock()

	if perm&0o700 != 0o700 {
		f.Unusable = append(f.Unusable, fmt.Sprintf("%s %v", p, perm))
	}

	if f.MkErr != nil {
		return f.MkErr
	}

	f.Mk(p, true)

	return nil
}

// Ensure is not used by the traversal.
func (f *FS) Ensure(nef.PathAs) (string, error) { return "", errors.New("vfs: ensure") }

// Create is not used by the traversal.
func (f *FS) Create(string) (fs.File, error) { return nil, errors.New("vfs: create") }

// WriteFile writes a whole file.
func (f *FS) WriteFile(p string, data []byte, perm os.FileMode) error {
	f.mu.Lock()
	defer f.mu.Unlock()

	if perm&0o600 != 0o600 {
		f.Unusable = append(f.Unusable, fmt.Sprintf("%s %v", p, perm))
	}
	f.Writes = append(f.Writes, p)

	if f.WriteErr != nil {
		if f.WriteCut > 0 {
			f.Mk(p, false).Data = append([]byte{}, data[:min(len(data), f.WriteCut)]...)
		}

		return f.WriteErr
	}

	n := f.Mk(p, false)
	if n.Dir {
		return bad("write", p, fmt.Errorf("is a directory"))
	}

	n.Data = append([]byte{}, data...)

	return nil
}
