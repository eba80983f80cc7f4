//go:build go1.23

package core

import (
	"sort"
	"strings"
	"syscall"
)

const blockSize = 64 // unit in which an unsynced write can be torn

type wlog struct {
	truncate bool
	off      int64 // or the new size
	data     []byte
}

type dirop struct {
	name string
	ino  *Inode // nil: removed
	pair int    // ops of one rename share a number and persist together
}

// Inode is a file or a directory.
type Inode struct {
	Ino     uint64
	Dir     bool
	nlink   int
	data    []byte // what processes see
	durable []byte // what survives a power loss for sure
	wlog    []wlog // what may survive it, in order
	entries map[string]*Inode
	dents   map[string]*Inode // durable entries
	dlog    []dirop
	locks   map[*OpenFile]bool // true: exclusive
	opens   int
	mtime   int64
}

// OpenFile is an open file description.
type OpenFile struct {
	node   *Inode
	parent *Inode
	path   string
	pos    int64
	flags  int
	refs   int
	dirPos int
	proc   *Proc
}

// FS is the simulated file system.
type FS struct {
	Root     *Inode
	nextIno  uint64
	freeInos []uint64
	Limit    int64 // bytes of file data, 0: unlimited
	refused  int   // writes that the limit refused or cut
	used     int64
	now      int64
	pairs    int
	reuseIno bool
}

// NewFS makes an empty file system.
func NewFS() *FS {
	fs := &FS{nextIno: 1000}
	fs.Root = fs.newInode(true)
	fs.Root.nlink = 2
	return fs
}

func (fs *FS) newInode(dir bool) *Inode {
	n := &Inode{Dir: dir, mtime: fs.now}
	if fs.reuseIno && len(fs.freeInos) > 0 {
		n.Ino = fs.freeInos[len(fs.freeInos)-1]
		fs.freeInos = fs.freeInos[:len(fs.freeInos)-1]
	} else {
		fs.nextIno++
		n.Ino = fs.nextIno
	}
	if dir {
		n.entries = map[string]*Inode{}
		n.dents = map[string]*Inode{}
	}
	return n
}

func (fs *FS) maybeFree(n *Inode) {
	if n.nlink <= 0 && n.opens <= 0 && !n.Dir {
		fs.used -= int64(len(n.data))
		fs.freeInos = append(fs.freeInos, n.Ino)
	}
}

func split(path string) []string {
	out := []string{}
	for _, c := range strings.Split(path, "/") {
		if c != "" && c != "." {
			out = append(out, c)
		}
	}
	return out
}

// walk resolves the components from a directory.
func (fs *FS) walk(from *Inode, comps []string) (*Inode, syscall.Errno) {
	stack := []*Inode{from}
	cur := from
	for _, c := range comps {
		if !cur.Dir {
			return nil, syscall.ENOTDIR
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			cur = stack[len(stack)-1]
			continue
		}
		if len(c) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		n, ok := cur.entries[c]
		if !ok {
			return nil, syscall.ENOENT
		}
		cur = n
		stack = append(stack, n)
	}
	return cur, 0
}

// parentOf resolves everything but the last component.
func (fs *FS) parentOf(path string) (*Inode, string, syscall.Errno) {
	comps := split(path)
	if len(comps) == 0 {
		return nil, "", syscall.EBUSY
	}
	last := comps[len(comps)-1]
	if last == ".." {
		return nil, "", syscall.EINVAL
	}
	if len(last) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	p, e := fs.walk(fs.Root, comps[:len(comps)-1])
	if e != 0 {
		return nil, "", e
	}
	if !p.Dir {
		return nil, "", syscall.ENOTDIR
	}
	return p, last, 0
}

func (fs *FS) setEntry(dir *Inode, name string, n *Inode, pair int) {
	if n == nil {
		delete(dir.entries, name)
	} else {
		dir.entries[name] = n
	}
	dir.dlog = append(dir.dlog, dirop{name, n, pair})
	dir.mtime = fs.now
}

func (fs *FS) pair() int { fs.pairs++; return fs.pairs }

func (fs *FS) write(n *Inode, off int64, b []byte) (int, syscall.Errno) {
	end := off + int64(len(b))
	grow := end - int64(len(n.data))
	var errno syscall.Errno
	if grow > 0 && fs.Limit > 0 && fs.used+grow > fs.Limit {
		fs.refused++
		room := fs.Limit - fs.used
		if room < 0 {
			room = 0
		}
		keep := int64(len(n.data)) + room - off
		if keep < 0 {
			keep = 0
		}
		b = b[:keep]
		if len(b) == 0 {
			return 0, syscall.ENOSPC
		}
		end = off + int64(len(b))
		grow = end - int64(len(n.data))
	}
	if grow > 0 {
		fs.used += grow
		n.data = append(n.data, make([]byte, grow)...)
	}
	copy(n.data[off:end], b)
	n.wlog = append(n.wlog, wlog{off: off, data: append([]byte(nil), b...)})
	n.mtime = fs.now
	return len(b), errno
}

func (fs *FS) truncate(n *Inode, size int64) {
	fs.used += size - int64(len(n.data))
	n.data = resize(n.data, size)
	n.wlog = append(n.wlog, wlog{truncate: true, off: size})
	n.mtime = fs.now
}

func resize(b []byte, size int64) []byte {
	if int64(len(b)) >= size {
		return append([]byte(nil), b[:size]...)
	}
	return append(append([]byte(nil), b...), make([]byte, size-int64(len(b)))...)
}

func applyLog(b []byte, l wlog) []byte {
	if l.truncate {
		return resize(b, l.off)
	}
	end := l.off + int64(len(l.data))
	if grow := end - int64(len(b)); grow > 0 {
		b = append(b, make([]byte, grow)...)
	}
	copy(b[l.off:end], l.data)
	return b
}

// sync makes a file or a directory durable.
func (fs *FS) sync(n *Inode) {
	if n.Dir {
		for _, o := range n.dlog {
			applyDir(n.dents, o)
		}
		n.dlog = nil
		return
	}
	for _, l := range n.wlog {
		n.durable = applyLog(n.durable, l)
	}
	n.wlog = nil
}

func applyDir(m map[string]*Inode, o dirop) {
	if o.ino == nil {
		delete(m, o.name)
	} else {
		m[o.name] = o.ino
	}
}

// dropDirty is a sync that failed: the pages become clean, and only some of
// them reached the disk.
func (fs *FS) dropDirty(n *Inode, src *Src) {
	if n.Dir {
		return // the changes stay pending
	}
	n.durable = persistSome(n.durable, n.wlog, src)
	n.wlog = nil
}

// persistSome applies a subset of the log, tearing writes into blocks.
func persistSome(b []byte, log []wlog, src *Src) []byte {
	if len(log) == 0 {
		return b
	}
	b = append([]byte(nil), b...)
	// 0: none 1: a prefix 2: any subset 3: everything 4: torn anywhere
	mode := src.Draw(5)
	switch mode {
	case 0:
		return b
	case 3:
		for _, l := range log {
			b = applyLog(b, l)
		}
		return b
	}
	prefix := len(log)
	if mode == 1 {
		prefix = src.Draw(len(log) + 1)
	}
	for i, l := range log {
		if i >= prefix {
			break
		}
		if mode == 1 {
			b = applyLog(b, l)
			continue
		}
		if mode == 2 {
			if src.Draw(2) == 1 {
				b = applyLog(b, l)
			}
			continue
		}
		// torn: block by block; long writes are cut once
		if l.truncate {
			if src.Draw(2) == 1 {
				b = applyLog(b, l)
			}
			continue
		}
		if len(l.data) > blockSize*16 {
			cut := src.Draw(len(l.data)/blockSize+1) * blockSize
			b = applyLog(b, wlog{off: l.off, data: l.data[:cut]})
			continue
		}
		for at := 0; at < len(l.data); at += blockSize {
			end := at + blockSize
			if end > len(l.data) {
				end = len(l.data)
			}
			if src.Draw(2) == 1 {
				b = applyLog(b, wlog{off: l.off + int64(at), data: l.data[at:end]})
			}
		}
	}
	return b
}

// powerLoss replaces the state by one the disk can hold.
func (fs *FS) powerLoss(src *Src) {
	seen := map[*Inode]*Inode{}
	taken := map[uint64]bool{}
	var rebuild func(n *Inode) *Inode
	rebuild = func(n *Inode) *Inode {
		if m, ok := seen[n]; ok {
			return m
		}
		m := &Inode{Ino: n.Ino, Dir: n.Dir, mtime: n.mtime}
		seen[n] = m
		if taken[m.Ino] {
			// a file that was removed, and is back, and one that got its number
			fs.nextIno++
			m.Ino = fs.nextIno
		}
		taken[m.Ino] = true
		if !n.Dir {
			m.durable = persistSome(n.durable, n.wlog, src)
			m.data = append([]byte(nil), m.durable...)
			return m
		}
		ents := map[string]*Inode{}
		for k, v := range n.dents {
			ents[k] = v
		}
		mode := 0
		if len(n.dlog) > 0 {
			mode = src.Draw(4) // 0 none 1 prefix 2 subset 3 everything
		}
		prefix := len(n.dlog)
		if mode == 1 {
			prefix = src.Draw(len(n.dlog) + 1)
		}
		chosen := map[int]bool{}
		for i, o := range n.dlog {
			if mode == 0 || i >= prefix {
				// a rename is never cut in two
				if o.pair == 0 || !chosen[o.pair] {
					continue
				}
			} else if mode == 2 {
				if o.pair != 0 && i > 0 && n.dlog[i-1].pair == o.pair {
					if !chosen[o.pair] {
						continue
					}
				} else if src.Draw(2) == 0 {
					continue
				}
			}
			if o.pair != 0 {
				chosen[o.pair] = true
			}
			applyDir(ents, o)
		}
		m.entries = map[string]*Inode{}
		m.dents = map[string]*Inode{}
		names := make([]string, 0, len(ents))
		for k := range ents {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			c := rebuild(ents[k])
			c.nlink++
			m.entries[k] = c
			m.dents[k] = c
		}
		return m
	}
	fs.Root = rebuild(fs.Root)
	fs.freeInos = nil
	fs.used = 0
	for _, m := range seen {
		fs.used += int64(len(m.data))
	}
}

// SyncAll makes everything durable.
func (fs *FS) SyncAll() {
	var rec func(n *Inode)
	rec = func(n *Inode) {
		fs.sync(n)
		if n.Dir {
			for _, c := range n.entries {
				rec(c)
			}
		}
	}
	rec(fs.Root)
}

// The following are for the harness: they are not system calls.

// ReuseInodes makes the numbers of removed files available again.
func (fs *FS) ReuseInodes(on bool) { fs.reuseIno = on }

// Lookup returns the node of a path, nil if there is none.
func (fs *FS) Lookup(path string) *Inode {
	n, e := fs.walk(fs.Root, split(path))
	if e != 0 {
		return nil
	}
	return n
}

// MkdirAll makes a durable directory.
func (fs *FS) MkdirAll(path string) {
	cur := fs.Root
	for _, c := range split(path) {
		n, ok := cur.entries[c]
		if !ok {
			n = fs.newInode(true)
			n.nlink = 2
			fs.setEntry(cur, c, n, 0)
			fs.sync(cur)
		}
		cur = n
	}
}

// PutFile makes a durable file.
func (fs *FS) PutFile(path string, data []byte) {
	p, name, e := fs.parentOf(path)
	if e != 0 {
		panic("PutFile: " + e.Error())
	}
	n, ok := p.entries[name]
	if !ok {
		n = fs.newInode(false)
		n.nlink = 1
		fs.setEntry(p, name, n, 0)
	}
	fs.truncate(n, 0)
	fs.used += int64(len(data))
	n.data = append([]byte(nil), data...)
	n.durable = append([]byte(nil), data...)
	n.wlog = nil
	fs.sync(p)
}

// GetFile returns the bytes of a file.
func (fs *FS) GetFile(path string) ([]byte, bool) {
	n := fs.Lookup(path)
	if n == nil || n.Dir {
		return nil, false
	}
	return n.data, true
}

// List returns the sorted names of a directory.
func (fs *FS) List(path string) []string {
	n := fs.Lookup(path)
	if n == nil || !n.Dir {
		return nil
	}
	return sortedNames(n.entries)
}

func sortedNames(m map[string]*Inode) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Digest hashes every file that processes see.
func (fs *FS) Digest() uint64 {
	h := uint64(1469598103934665603)
	var rec func(path string, n *Inode)
	rec = func(path string, n *Inode) {
		for _, c := range []byte(path) {
			h = (h ^ uint64(c)) * 1099511628211
		}
		if !n.Dir {
			h = Mix(h, uint64(len(n.data)))
			for _, c := range n.data {
				h = (h ^ uint64(c)) * 1099511628211
			}
			return
		}
		for _, k := range sortedNames(n.entries) {
			rec(path+"/"+k, n.entries[k])
		}
	}
	rec("", fs.Root)
	return h
}
