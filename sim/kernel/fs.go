//go:build go1.27

package kernel

import (
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/rt"
)

type Kind int

const (
	KFile Kind = iota
	KDir
	KLink
)

type Inode struct {
	Ino     int
	Kind    Kind
	Mode    uint32
	Data    []byte
	Target  string
	Entries map[string]*Inode
	Synced  []byte // content that is on disk
	Dirty   bool   // Data may differ from Synced
	NLink   int
	MTime   time.Time
	Stalled bool // reads of it hang
	BadAt   int  // reads beyond this offset fail with EIO; <0: none
	Parent  *Inode
	Version int // identifies content for oracles
}

type metaOp struct {
	kind string // link unlink chmod
	dir  int
	name string
	ino  int
	mode uint32
}

type dnode struct {
	kind   Kind
	mode   uint32
	target string
	ents   map[string]int
}

// FS is an in-memory file system. Metadata operations reach the disk in
// order, at the latest with the next fsync; file data reaches the disk with
// fsync only. A power loss keeps a prefix of the pending metadata operations
// and any, or no, part of unsynchronised data.
type FS struct {
	Root    *Inode
	nodes   map[int]*Inode
	nextIno int
	disk    map[int]*dnode
	pending []metaOp
	lastMod time.Time
}

func NewFS() *FS {
	f := &FS{nodes: map[int]*Inode{}, disk: map[int]*dnode{}, nextIno: 1}
	f.Root = f.newInode(KDir, 0755)
	f.Root.Parent = f.Root
	f.Root.NLink = 1
	f.disk[f.Root.Ino] = &dnode{kind: KDir, mode: 0755, ents: map[string]int{}}
	return f
}

// mtime is the time of a modification; no two of them are the same.
func (f *FS) mtime() time.Time {
	now := time.Now() // of the bubble
	if !now.After(f.lastMod) {
		now = f.lastMod.Add(time.Nanosecond)
	}
	f.lastMod = now
	return now
}

// changed notes that the content of n is being changed.
func (f *FS) changed(n *Inode) {
	n.Dirty = true
	n.MTime = f.mtime()
}

func (f *FS) newInode(k Kind, mode uint32) *Inode {
	n := &Inode{Ino: f.nextIno, Kind: k, Mode: mode, BadAt: -1, MTime: f.mtime()}
	f.nextIno++
	if k == KDir {
		n.Entries = map[string]*Inode{}
	}
	f.nodes[n.Ino] = n
	return n
}

func (f *FS) link(dir *Inode, name string, n *Inode) {
	dir.Entries[name] = n
	n.NLink++
	if n.Kind == KDir {
		n.Parent = dir
	}
	f.pending = append(f.pending, metaOp{"link", dir.Ino, name, n.Ino, n.Mode})
}

func (f *FS) unlink(dir *Inode, name string) {
	n := dir.Entries[name]
	delete(dir.Entries, name)
	n.NLink--
	f.pending = append(f.pending, metaOp{"unlink", dir.Ino, name, n.Ino, 0})
}

func (f *FS) chmod(n *Inode, mode uint32) {
	n.Mode = mode
	f.pending = append(f.pending, metaOp{"chmod", 0, "", n.Ino, mode})
}

func (f *FS) apply(op metaOp) {
	switch op.kind {
	case "link":
		n := f.nodes[op.ino]
		if f.disk[op.ino] == nil {
			d := &dnode{kind: n.Kind, mode: op.mode, target: n.Target}
			if n.Kind == KDir {
				d.ents = map[string]int{}
			}
			f.disk[op.ino] = d
		}
		f.disk[op.dir].ents[op.name] = op.ino
	case "unlink":
		delete(f.disk[op.dir].ents, op.name)
	case "rename": // atomic: remove the source name, install the target name
		delete(f.disk[op.dir].ents, op.name)
	case "chmod":
		if d := f.disk[op.ino]; d != nil {
			d.mode = op.mode
		}
	}
}

func (f *FS) commit() {
	for _, op := range f.pending {
		f.apply(op)
	}
	f.pending = nil
}

// SyncInode makes the data of n and all metadata durable.
func (f *FS) SyncInode(n *Inode) {
	if n.Kind == KFile {
		n.Synced = append([]byte(nil), n.Data...)
		n.Dirty = false
	}
	f.commit()
}

// SyncAll makes everything durable.
func (f *FS) SyncAll() {
	for _, n := range f.nodes {
		if n.Kind == KFile && n.Dirty {
			n.Synced = append([]byte(nil), n.Data...)
			n.Dirty = false
		}
	}
	f.commit()
}

// PowerLoss replaces the state by what the disk may hold after power loss.
func (f *FS) PowerLoss(t *rt.Tape) {
	// 0 is the simplest: everything pending was lost
	k := t.N(len(f.pending) + 1)
	// a rename is two entries that belong together
	for k > 0 && k < len(f.pending) && f.pending[k].kind == "link" && f.pending[k-1].kind == "rename" {
		k++
	}
	for _, op := range f.pending[:k] {
		f.apply(op)
	}
	f.pending = nil
	inos := make([]int, 0, len(f.nodes))
	for i := range f.nodes {
		inos = append(inos, i)
	}
	sort.Ints(inos)
	for _, i := range inos {
		n := f.nodes[i]
		d := f.disk[i]
		if d == nil {
			delete(f.nodes, i)
			continue
		}
		n.Mode, n.Target = d.mode, d.target
		n.NLink = 0
		n.Stalled = false
		if n.Kind == KDir {
			n.Entries = map[string]*Inode{}
		}
		if n.Kind == KFile && n.Dirty {
			switch t.N(4) {
			case 0:
				n.Data = append([]byte(nil), n.Synced...)
			case 1:
				cut := t.N(len(n.Data) + 1)
				n.Data = append([]byte(nil), n.Data[:cut]...)
			case 2:
				cut := t.N(len(n.Data) + 1)
				b := append([]byte(nil), n.Data...)
				for j := cut; j < len(b); j++ {
					b[j] = 0
				}
				n.Data = b
			case 3: // all of it happened to be written back
			}
			n.Synced = append([]byte(nil), n.Data...)
			n.Dirty = false
		}
	}
	for _, i := range inos {
		if n := f.nodes[i]; n != nil && n.Kind == KDir {
			for name, c := range f.disk[i].ents {
				if cn := f.nodes[c]; cn != nil {
					n.Entries[name] = cn
					cn.NLink++
					if cn.Kind == KDir {
						cn.Parent = n
					}
				}
			}
		}
	}
	f.Root.NLink = 1
}

// walk resolves p. If last is false the parent directory and the final name
// are returned too, with n nil when it does not exist.
func (f *FS) walk(p string, follow bool) (dir *Inode, name string, n *Inode, err error) {
	return f.walkDepth(p, follow, 0)
}

func (f *FS) walkDepth(p string, follow bool, depth int) (*Inode, string, *Inode, error) {
	if depth > 40 {
		return nil, "", nil, syscall.ELOOP
	}
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if len(p) > 4095 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	trail := strings.HasSuffix(p, "/")
	parts := []string{}
	for _, s := range strings.Split(p, "/") {
		if s != "" && s != "." {
			parts = append(parts, s)
		}
	}
	cur := f.Root
	if len(parts) == 0 {
		return f.Root, ".", f.Root, nil
	}
	for i, s := range parts {
		last := i == len(parts)-1
		if cur.Kind != KDir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if cur.Mode&0100 == 0 {
			return nil, "", nil, syscall.EACCES
		}
		if len(s) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		if s == ".." {
			if last {
				return cur.Parent, ".", cur.Parent, nil
			}
			cur = cur.Parent
			continue
		}
		n := cur.Entries[s]
		if n == nil {
			if last {
				return cur, s, nil, syscall.ENOENT
			}
			return nil, "", nil, syscall.ENOENT
		}
		if n.Kind == KLink && (!last || follow || trail) {
			t := n.Target
			if !strings.HasPrefix(t, "/") {
				t = f.PathOf(cur) + "/" + t
			}
			rest := strings.Join(parts[i+1:], "/")
			if rest != "" {
				t += "/" + rest
			} else if trail {
				t += "/"
			}
			return f.walkDepth(t, follow, depth+1)
		}
		if last {
			if trail && n.Kind != KDir {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, s, n, nil
		}
		cur = n
	}
	return nil, "", nil, syscall.ENOENT
}

// PathOf is the absolute path of a directory.
func (f *FS) PathOf(d *Inode) string {
	if d == f.Root {
		return ""
	}
	for name, n := range d.Parent.Entries {
		if n == d {
			return f.PathOf(d.Parent) + "/" + name
		}
	}
	return "/deleted"
}

// Lookup finds the inode of an absolute path, following links; nil if absent.
func (f *FS) Lookup(p string) *Inode {
	_, _, n, err := f.walk(p, true)
	if err != nil {
		return nil
	}
	return n
}

func (f *FS) LookupNoFollow(p string) *Inode {
	_, _, n, err := f.walk(p, false)
	if err != nil {
		return nil
	}
	return n
}

// Setup helpers: immediate and durable, used by scenarios only.

func (f *FS) MkdirAll(p string) *Inode {
	cur := f.Root
	for _, s := range strings.Split(p, "/") {
		if s == "" {
			continue
		}
		n := cur.Entries[s]
		if n == nil {
			n = f.newInode(KDir, 0755)
			f.link(cur, s, n)
		}
		cur = n
	}
	f.commit()
	return cur
}

func (f *FS) parent(p string) *Inode {
	if n := f.Lookup(path.Dir(p)); n != nil && n.Kind == KDir {
		return n
	}
	return f.MkdirAll(path.Dir(p))
}

func (f *FS) Put(p string, data string, mode uint32) *Inode {
	d := f.parent(p)
	n := f.newInode(KFile, mode)
	n.Data = []byte(data)
	n.Synced = []byte(data)
	if d.Entries[path.Base(p)] != nil {
		f.unlink(d, path.Base(p))
	}
	f.link(d, path.Base(p), n)
	f.commit()
	return n
}

func (f *FS) Symlink(target, p string) {
	d := f.parent(p)
	n := f.newInode(KLink, 0777)
	n.Target = target
	f.link(d, path.Base(p), n)
	f.commit()
}

func (f *FS) Delete(p string) {
	dir, name, n, err := f.walk(p, false)
	if err == nil && n != nil {
		f.unlink(dir, name)
		f.commit()
	}
}

// Replace atomically puts a new file in place of p (write to a temporary,
// sync, rename), as an editor does.
func (f *FS) Replace(p string, data string) *Inode {
	old := f.Lookup(p)
	mode := uint32(0644)
	if old != nil {
		mode = old.Mode
	}
	return f.Put(p, data, mode)
}

// List returns all paths below dir with a description of each.
func (f *FS) List(dir string) map[string]*Inode {
	out := map[string]*Inode{}
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		for name, c := range n.Entries {
			out[p+"/"+name] = c
			if c.Kind == KDir {
				rec(p+"/"+name, c)
			}
		}
	}
	if d := f.Lookup(dir); d != nil && d.Kind == KDir {
		if dir == "/" {
			dir = ""
		}
		rec(strings.TrimSuffix(dir, "/"), d)
	}
	return out
}

func goMode(n *Inode) fs.FileMode {
	m := fs.FileMode(n.Mode & 0777)
	if n.Mode&syscall.S_ISUID != 0 {
		m |= fs.ModeSetuid
	}
	if n.Mode&syscall.S_ISGID != 0 {
		m |= fs.ModeSetgid
	}
	if n.Mode&syscall.S_ISVTX != 0 {
		m |= fs.ModeSticky
	}
	switch n.Kind {
	case KDir:
		m |= fs.ModeDir
	case KLink:
		m |= fs.ModeSymlink
	}
	return m
}

// Info implements fs.FileInfo.
type Info struct {
	name string
	n    *Inode
	size int64
	mode fs.FileMode
	mt   time.Time
}

func NewInfo(name string, n *Inode) *Info {
	size := int64(len(n.Data))
	if n.Kind == KLink {
		size = int64(len(n.Target))
	} else if n.Kind == KDir {
		size = 4096
	}
	return &Info{name, n, size, goMode(n), n.MTime}
}
func (i *Info) Name() string       { return i.name }
func (i *Info) Size() int64        { return i.size }
func (i *Info) Mode() fs.FileMode  { return i.mode }
func (i *Info) ModTime() time.Time { return i.mt }
func (i *Info) IsDir() bool        { return i.mode.IsDir() }
func (i *Info) Sys() any {
	if i.n == nil {
		return nil
	}
	return &syscall.Stat_t{Ino: uint64(i.n.Ino), Nlink: uint64(i.n.NLink), Mode: i.n.Mode, Size: i.size, Uid: 1000, Gid: 1000}
}
func (i *Info) Inode() *Inode { return i.n }
