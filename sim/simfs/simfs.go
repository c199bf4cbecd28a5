// Package simfs is the simulated disk: an inode tree whose every change is one
// Effect. The simulated kernel applies effects as the program runs and logs
// them; the driver applies the logged effects to its own copy, so both always
// agree on what the disk holds, also after a crash.
package simfs

import (
	"fmt"
	"sort"
	"strings"
)

const (
	File = 'f'
	Dir  = 'd'
	Link = 'l'
	Null = 'n' // /dev/null
	Full = 'u' // /dev/full
)

type Inode struct {
	Ino   int
	Kind  byte
	Mode  uint32
	Uid   int
	Data  []byte
	To    string         // symlink target
	Kids  map[string]int // directory entries
	Links int
	Mtime int64 // ns
}

type FS struct {
	Inodes map[int]*Inode
	Next   int
	Now    int64 // ns; each change takes a microsecond
}

const Root = 1

// Effect is one change of the disk.
type Effect struct {
	Op   string `json:"op"` // write trunc create link unlink rename chmod chown utime
	Ino  int    `json:"ino,omitempty"`
	Dir  int    `json:"dir,omitempty"`
	Name string `json:"name,omitempty"`
	Off  int64  `json:"off,omitempty"`
	Data []byte `json:"data,omitempty"`
	Kind byte   `json:"kind,omitempty"`
	Mode uint32 `json:"mode,omitempty"`
	Uid  int    `json:"uid,omitempty"`
}

func New() *FS {
	f := &FS{Inodes: map[int]*Inode{}, Next: 2}
	f.Inodes[Root] = &Inode{Ino: Root, Kind: Dir, Mode: 0o755, Kids: map[string]int{}, Links: 1}
	return f
}

func (f *FS) Clone() *FS {
	g := &FS{Inodes: map[int]*Inode{}, Next: f.Next, Now: f.Now}
	for k, n := range f.Inodes {
		m := *n
		m.Data = append([]byte(nil), n.Data...)
		if n.Kids != nil {
			m.Kids = map[string]int{}
			for a, b := range n.Kids {
				m.Kids[a] = b
			}
		}
		g.Inodes[k] = &m
	}
	return g
}

// Apply makes the change. It returns the inode created, if any.
func (f *FS) Apply(e Effect) int {
	f.Now += 1000
	touch := func(ino int) {
		if n := f.Inodes[ino]; n != nil {
			n.Mtime = f.Now
		}
	}
	switch e.Op {
	case "write":
		n := f.Inodes[e.Ino]
		end := e.Off + int64(len(e.Data))
		if int64(len(n.Data)) < end {
			n.Data = append(n.Data, make([]byte, end-int64(len(n.Data)))...)
		}
		copy(n.Data[e.Off:], e.Data)
		touch(e.Ino)
	case "trunc":
		n := f.Inodes[e.Ino]
		if int64(len(n.Data)) >= e.Off {
			n.Data = append([]byte(nil), n.Data[:e.Off]...)
		} else {
			n.Data = append(n.Data, make([]byte, e.Off-int64(len(n.Data)))...)
		}
		touch(e.Ino)
	case "create":
		ino := f.Next
		f.Next++
		n := &Inode{Ino: ino, Kind: e.Kind, Mode: e.Mode, Uid: e.Uid, Links: 1, Mtime: f.Now}
		if e.Kind == Dir {
			n.Kids = map[string]int{}
		}
		if e.Kind == Link {
			n.To = string(e.Data)
		} else {
			n.Data = append([]byte(nil), e.Data...)
		}
		f.Inodes[ino] = n
		f.Inodes[e.Dir].Kids[e.Name] = ino
		touch(e.Dir)
		return ino
	case "link":
		f.Inodes[e.Dir].Kids[e.Name] = e.Ino
		f.Inodes[e.Ino].Links++
		touch(e.Dir)
		return e.Ino
	case "unlink":
		ino := f.Inodes[e.Dir].Kids[e.Name]
		delete(f.Inodes[e.Dir].Kids, e.Name)
		if n := f.Inodes[ino]; n != nil {
			n.Links--
		}
		touch(e.Dir)
	case "rename": // (Ino, Name) -> (Dir, Data)
		ino := f.Inodes[e.Ino].Kids[e.Name]
		if old, ok := f.Inodes[e.Dir].Kids[string(e.Data)]; ok {
			f.Inodes[old].Links--
		}
		delete(f.Inodes[e.Ino].Kids, e.Name)
		f.Inodes[e.Dir].Kids[string(e.Data)] = ino
		touch(e.Ino)
		touch(e.Dir)
	case "chmod":
		f.Inodes[e.Ino].Mode = e.Mode
	case "chown":
		f.Inodes[e.Ino].Uid = e.Uid
	case "utime":
		f.Inodes[e.Ino].Mtime = e.Off
	default:
		panic("simfs: unknown effect " + e.Op)
	}
	return 0
}

// Perm reports whether uid may do what (4 read, 2 write, 1 search) on n.
func (n *Inode) Perm(uid int, what uint32) bool {
	if uid == 0 {
		return true
	}
	if n.Uid == uid {
		return (n.Mode>>6)&what == what
	}
	return n.Mode&what == what
}

// Walk resolves path from the directory cwd. It returns the parent directory,
// the last name, and the inode (nil if it does not exist). err is a symbolic
// errno.
func (f *FS) Walk(cwd int, path string, uid int, follow bool) (dir *Inode, name string, n *Inode, err string) {
	return f.walk(cwd, path, uid, follow, 0)
}

func (f *FS) parent(ino int) int {
	for k, n := range f.Inodes {
		if n.Kind == Dir {
			for _, c := range n.Kids {
				if c == ino {
					return k
				}
			}
		}
	}
	return Root
}

func (f *FS) walk(cwd int, path string, uid int, follow bool, depth int) (*Inode, string, *Inode, string) {
	if depth > 20 {
		return nil, "", nil, "ELOOP"
	}
	if path == "" {
		return nil, "", nil, "ENOENT"
	}
	cur := f.Inodes[cwd]
	if path[0] == '/' {
		cur = f.Inodes[Root]
	}
	trail := strings.HasSuffix(path, "/")
	parts := []string{}
	for _, p := range strings.Split(path, "/") {
		if p != "" && p != "." {
			parts = append(parts, p)
		}
	}
	if len(parts) == 0 {
		return cur, ".", cur, ""
	}
	for i, p := range parts {
		last := i == len(parts)-1
		if cur.Kind != Dir {
			return nil, "", nil, "ENOTDIR"
		}
		if !cur.Perm(uid, 1) {
			return nil, "", nil, "EACCES"
		}
		if len(p) > 255 {
			return nil, "", nil, "ENAMETOOLONG"
		}
		var next *Inode
		if p == ".." {
			next = f.Inodes[f.parent(cur.Ino)]
		} else if k, ok := cur.Kids[p]; ok {
			next = f.Inodes[k]
		}
		if next != nil && next.Kind == Link && (!last || follow || trail) {
			rest := next.To
			if !last {
				rest += "/" + strings.Join(parts[i+1:], "/")
			}
			return f.walk(cur.Ino, rest, uid, follow, depth+1)
		}
		if last {
			if next != nil && trail && next.Kind != Dir {
				return nil, "", nil, "ENOTDIR"
			}
			return cur, p, next, ""
		}
		if next == nil {
			return nil, "", nil, "ENOENT"
		}
		cur = next
	}
	panic("unreachable")
}

// Must resolves path as root and returns its inode, or nil.
func (f *FS) Must(path string) *Inode {
	_, _, n, err := f.Walk(Root, path, 0, false)
	if err != "" {
		return nil
	}
	return n
}

// Paths lists every path of the tree, sorted.
func (f *FS) Paths() []string {
	var out []string
	var rec func(ino int, p string)
	rec = func(ino int, p string) {
		n := f.Inodes[ino]
		if n.Kind != Dir {
			return
		}
		for k, c := range n.Kids {
			out = append(out, p+"/"+k)
			rec(c, p+"/"+k)
		}
	}
	rec(Root, "")
	sort.Strings(out)
	return out
}

// Describe gives one entry as a comparable string.
func (n *Inode) Describe() string {
	if n == nil {
		return "absent"
	}
	switch n.Kind {
	case Dir:
		return fmt.Sprintf("dir %04o", n.Mode)
	case Link:
		return "link " + n.To
	case File:
		return fmt.Sprintf("file %04o %q", n.Mode, n.Data)
	}
	return string(n.Kind)
}

// Used is the number of data bytes on the disk.
func (f *FS) Used() int64 {
	var t int64
	for _, n := range f.Inodes {
		if n.Links > 0 {
			t += int64(len(n.Data))
		}
	}
	return t
}
