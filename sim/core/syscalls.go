//go:build go1.23

package core

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"unsafe"
)

// numbers that package syscall does not name
const (
	sysRenameat2     = 316
	sysCopyFileRange = 326
	sysStatx         = 332
	sysPreadv        = 295
	sysPwritev       = 296
	sysSyncfs        = 306
	sysFaccessat2    = 439
	atFdcwd          = -100
	simDev           = 77
)

type class int

const (
	clNone  class = iota
	clFD          // the first argument is a descriptor
	clPath        // the first argument is a path
	clAt          // a directory descriptor, then a path
	clPath2       // two paths
	clAt2         // two pairs
	clCopy        // two descriptors
)

func classify(trap uintptr) class {
	switch trap {
	case syscall.SYS_READ, syscall.SYS_WRITE, syscall.SYS_CLOSE, syscall.SYS_FSTAT, syscall.SYS_LSEEK, syscall.SYS_PREAD64,
		syscall.SYS_PWRITE64, syscall.SYS_READV, syscall.SYS_WRITEV, syscall.SYS_FCNTL, syscall.SYS_FLOCK, syscall.SYS_FSYNC,
		syscall.SYS_FDATASYNC, syscall.SYS_FTRUNCATE, syscall.SYS_GETDENTS64, syscall.SYS_FCHMOD, syscall.SYS_FCHOWN,
		syscall.SYS_FALLOCATE, syscall.SYS_DUP, syscall.SYS_DUP2, syscall.SYS_DUP3, syscall.SYS_IOCTL, syscall.SYS_FADVISE64,
		syscall.SYS_SYNC_FILE_RANGE, syscall.SYS_FCHDIR, syscall.SYS_FSTATFS, sysPreadv, sysPwritev, sysSyncfs:
		return clFD
	case syscall.SYS_OPEN, syscall.SYS_STAT, syscall.SYS_LSTAT, syscall.SYS_ACCESS, syscall.SYS_TRUNCATE, syscall.SYS_MKDIR, syscall.SYS_RMDIR,
		syscall.SYS_CREAT, syscall.SYS_UNLINK, syscall.SYS_READLINK, syscall.SYS_CHMOD, syscall.SYS_CHDIR, syscall.SYS_STATFS:
		return clPath
	case syscall.SYS_OPENAT, syscall.SYS_MKDIRAT, syscall.SYS_NEWFSTATAT, syscall.SYS_UNLINKAT, syscall.SYS_READLINKAT,
		syscall.SYS_FCHMODAT, syscall.SYS_FACCESSAT, syscall.SYS_UTIMENSAT, syscall.SYS_FCHOWNAT, sysFaccessat2, sysStatx:
		return clAt
	case syscall.SYS_RENAME, syscall.SYS_LINK, syscall.SYS_SYMLINK:
		return clPath2
	case syscall.SYS_RENAMEAT, sysRenameat2, syscall.SYS_LINKAT:
		return clAt2
	case sysCopyFileRange, syscall.SYS_SENDFILE, syscall.SYS_SPLICE:
		return clCopy
	}
	return clNone
}

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	b := (*[1 << 20]byte)(addr(p))
	n := 0
	for n < len(b) && b[n] != 0 {
		n++
	}
	return string(b[:n])
}

// addr turns the argument of a system call into a pointer; the caller keeps
// the memory alive, as it does for the kernel.
func addr(p uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&p)) }

func mem(p uintptr, n int) []byte {
	if n <= 0 || p == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(addr(p)), n)
}

// givesFD tells which calls return a descriptor.
func givesFD(trap uintptr) bool {
	switch trap {
	case syscall.SYS_OPENAT, syscall.SYS_OPEN, syscall.SYS_CREAT, syscall.SYS_FCNTL, syscall.SYS_DUP, syscall.SYS_DUP2, syscall.SYS_DUP3:
		return true
	}
	return false
}

func isSimFD(fd int) bool { return fd >= fdBase && fd < fdBase+100001*fdsPerWld }

func simPath(path string, proc bool) bool {
	if path == simRoot || strings.HasPrefix(path, simRoot+"/") {
		return true
	}
	if !proc {
		return false
	}
	return !strings.HasPrefix(path, "/") || path == "/tmp" || strings.HasPrefix(path, "/tmp/")
}

func hook(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2, errno uintptr, handled bool) {
	w := active.Load()
	c := classify(trap)
	if c == clNone {
		if trap == syscall.SYS_MMAP && isSimFD(int(int32(a5))) && a4&syscall.MAP_ANON == 0 {
			return ^uintptr(0), 0, uintptr(syscall.ENODEV), true
		}
		return 0, 0, 0, false
	}
	fd1 := int(int32(a1))
	ours := false
	if c == clFD {
		if !isSimFD(fd1) {
			if trap == syscall.SYS_CLOSE && fd1 <= 2 && w != nil && w.cur != nil && runtime.SimGoid() == w.cur.goid {
				// the standard input and outputs do not belong to the code
				w.cur.Foreign = append(w.cur.Foreign, fd1)
				return 0, 0, 0, true
			}
			return 0, 0, 0, false
		}
		ours = true
	}
	if w == nil {
		if ours {
			if trap == syscall.SYS_CLOSE {
				return 0, 0, 0, true
			}
			return ^uintptr(0), 0, uintptr(syscall.EBADF), true
		}
		return 0, 0, 0, false
	}
	p := w.cur
	mine := p != nil && runtime.SimGoid() == p.goid
	switch c {
	case clPath:
		ours = simPath(cstr(a1), mine)
	case clAt:
		ours = isSimFD(fd1) || simPath(cstr(a2), mine)
	case clPath2:
		ours = simPath(cstr(a1), mine) || simPath(cstr(a2), mine)
	case clAt2:
		ours = isSimFD(fd1) || isSimFD(int(int32(a3))) || simPath(cstr(a2), mine) || simPath(cstr(a4), mine)
	case clCopy:
		ours = isSimFD(fd1) || (trap == syscall.SYS_SENDFILE && isSimFD(int(int32(a2)))) || (trap != syscall.SYS_SENDFILE && isSimFD(int(int32(a3))))
	}
	if !ours {
		if mine && changes(trap, a2, a3) {
			w.Escapes = append(w.Escapes, fmt.Sprintf("system call %d on %q %q", trap, pathArg(c, 0, a1, a2, a4), pathArg(c, 1, a1, a2, a4)))
			return ^uintptr(0), 0, uintptr(syscall.EACCES), true
		}
		return 0, 0, 0, false
	}
	if c == clFD && (fd1 < w.base || fd1 >= w.base+fdsPerWld) {
		// left over from another run
		if trap == syscall.SYS_CLOSE {
			return 0, 0, 0, true
		}
		return ^uintptr(0), 0, uintptr(syscall.EBADF), true
	}
	owner := p
	if c == clFD {
		i := (fd1 - w.base) / fdsPerProc
		if i >= len(w.Procs) {
			return ^uintptr(0), 0, uintptr(syscall.EBADF), true
		}
		owner = w.Procs[i]
		if owner.Done {
			return 0, 0, 0, true
		}
		if mine && owner != p {
			return ^uintptr(0), 0, uintptr(syscall.EBADF), true
		}
	}
	if owner == nil {
		return ^uintptr(0), 0, uintptr(syscall.EBADF), true
	}
	k := call{w: w, p: owner, trap: trap, a: [6]uintptr{a1, a2, a3, a4, a5, a6}, mine: mine}
	r, e := k.run()
	if e != 0 {
		return ^uintptr(0), 0, uintptr(e), true
	}
	return uintptr(r), 0, 0, true
}

func pathArg(c class, i int, a1, a2, a4 uintptr) string {
	switch c {
	case clPath:
		if i == 0 {
			return cstr(a1)
		}
	case clPath2:
		if i == 0 {
			return cstr(a1)
		}
		return cstr(a2)
	case clAt:
		if i == 0 {
			return cstr(a2)
		}
	case clAt2:
		if i == 0 {
			return cstr(a2)
		}
		return cstr(a4)
	}
	return ""
}

// changes tells whether a system call on a real path may change something.
func changes(trap, a2, a3 uintptr) bool {
	switch trap {
	case syscall.SYS_OPEN:
		return a2&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0
	case syscall.SYS_OPENAT:
		return a3&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0
	case syscall.SYS_TRUNCATE, syscall.SYS_MKDIR, syscall.SYS_RMDIR, syscall.SYS_CREAT, syscall.SYS_UNLINK, syscall.SYS_CHMOD, syscall.SYS_CHDIR,
		syscall.SYS_MKDIRAT, syscall.SYS_UNLINKAT, syscall.SYS_FCHMODAT, syscall.SYS_UTIMENSAT, syscall.SYS_FCHOWNAT,
		syscall.SYS_RENAME, syscall.SYS_LINK, syscall.SYS_SYMLINK, syscall.SYS_RENAMEAT, sysRenameat2, syscall.SYS_LINKAT:
		return true
	}
	return false
}

type call struct {
	w    *World
	p    *Proc
	trap uintptr
	a    [6]uintptr
	mine bool
}

var sysNames = map[uintptr]string{
	syscall.SYS_READ: "read", syscall.SYS_WRITE: "write", syscall.SYS_CLOSE: "close", syscall.SYS_FSTAT: "fstat", syscall.SYS_LSEEK: "lseek",
	syscall.SYS_PREAD64: "pread", syscall.SYS_PWRITE64: "pwrite", syscall.SYS_FLOCK: "flock", syscall.SYS_FSYNC: "fsync", syscall.SYS_FDATASYNC: "fdatasync",
	syscall.SYS_FTRUNCATE: "ftruncate", syscall.SYS_GETDENTS64: "getdents", syscall.SYS_OPEN: "open", syscall.SYS_OPENAT: "openat", syscall.SYS_STAT: "stat",
	syscall.SYS_NEWFSTATAT: "fstatat", syscall.SYS_LSTAT: "lstat", syscall.SYS_MKDIRAT: "mkdirat", syscall.SYS_MKDIR: "mkdir", syscall.SYS_UNLINKAT: "unlinkat",
	syscall.SYS_UNLINK: "unlink", syscall.SYS_RMDIR: "rmdir", syscall.SYS_RENAME: "rename", syscall.SYS_RENAMEAT: "renameat", sysRenameat2: "renameat2",
	syscall.SYS_LINK: "link", syscall.SYS_LINKAT: "linkat", sysCopyFileRange: "copy_file_range", syscall.SYS_SENDFILE: "sendfile", syscall.SYS_TRUNCATE: "truncate",
	syscall.SYS_FCNTL: "fcntl",
}

func (k *call) name() string {
	if n, ok := sysNames[k.trap]; ok {
		return n
	}
	return fmt.Sprintf("syscall%d", k.trap)
}

var (
	faultsOpen    = []int{FEio, FEmfile, FEacces, FEintr}
	faultsOpenDir = []int{FEio, FEmfile, FEintr} // the permissions of a directory do not change
	faultsCreate  = []int{FEio, FEnospc, FEmfile, FEacces, FEintr}
	faultsRead    = []int{FEio, FShort, FEintr}
	faultsWrite   = []int{FEio, FEnospc, FShort, FEintr}
	faultsSync    = []int{FFsyncLost}
	faultsClose   = []int{FCloseEio}
	faultsDir     = []int{FEio, FEnospc, FEacces}
	faultsStat    = []int{FEio, FEacces}
	faultsFlock   = []int{FEnolck, FEintr, FWouldBlock}
	faultsFlockNB = []int{FEnolck, FWouldBlock}
	faultsEio     = []int{FEio}
)

func (k *call) faultKinds() []int {
	switch k.trap {
	case syscall.SYS_OPEN, syscall.SYS_OPENAT, syscall.SYS_CREAT:
		fl := k.a[1]
		if k.trap == syscall.SYS_OPENAT {
			fl = k.a[2]
		}
		if k.trap == syscall.SYS_CREAT || fl&syscall.O_CREAT != 0 {
			return faultsCreate
		}
		if k.opensDir() {
			return faultsOpenDir
		}
		return faultsOpen
	case syscall.SYS_READ, syscall.SYS_PREAD64, syscall.SYS_READV, sysPreadv:
		return faultsRead
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64, syscall.SYS_WRITEV, sysPwritev, sysCopyFileRange, syscall.SYS_SENDFILE:
		return faultsWrite
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, sysSyncfs:
		return faultsSync
	case syscall.SYS_CLOSE:
		return faultsClose
	case syscall.SYS_RENAME, syscall.SYS_RENAMEAT, sysRenameat2, syscall.SYS_UNLINK, syscall.SYS_UNLINKAT, syscall.SYS_MKDIR, syscall.SYS_MKDIRAT,
		syscall.SYS_LINK, syscall.SYS_LINKAT, syscall.SYS_TRUNCATE, syscall.SYS_FTRUNCATE, syscall.SYS_RMDIR:
		return faultsDir
	case syscall.SYS_STAT, syscall.SYS_LSTAT, syscall.SYS_NEWFSTATAT, syscall.SYS_ACCESS, syscall.SYS_FACCESSAT, sysFaccessat2:
		return faultsStat
	case syscall.SYS_FSTAT, syscall.SYS_GETDENTS64, syscall.SYS_LSEEK:
		return faultsEio
	case syscall.SYS_FLOCK:
		if k.a[1]&syscall.LOCK_NB != 0 {
			return faultsFlockNB
		}
		return faultsFlock[:2]
	}
	return nil
}

// opensDir tells whether an open names a directory.
func (k *call) opensDir() bool {
	fd, path := int64(atFdcwd), k.a[0]
	if k.trap == syscall.SYS_OPENAT {
		fd, path = int64(int32(k.a[0])), k.a[1]
	}
	a, e := k.abs(int(fd), cstr(path))
	if e != 0 {
		return false
	}
	n, e := k.w.FS.walk(k.w.FS.Root, split(a))
	return e == 0 && n.Dir
}

func faultErrno(f int) syscall.Errno {
	switch f {
	case FEio, FFsyncLost, FCloseEio:
		return syscall.EIO
	case FEnospc:
		return syscall.ENOSPC
	case FEacces:
		return syscall.EACCES
	case FEmfile:
		return syscall.EMFILE
	case FEintr:
		return syscall.EINTR
	case FEnolck:
		return syscall.ENOLCK
	case FWouldBlock:
		return syscall.EWOULDBLOCK
	}
	return syscall.EIO
}

// alternatives are other numbers that the system reports for a kind of fault.
var alternatives = map[int][]syscall.Errno{
	FEio:       {syscall.EIO, syscall.ESTALE, syscall.ENOMEM, syscall.EBUSY, syscall.ENXIO},
	FFsyncLost: {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EROFS},
	FCloseEio:  {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT},
	FEnospc:    {syscall.ENOSPC, syscall.EDQUOT, syscall.EFBIG},
	FEacces:    {syscall.EACCES, syscall.EPERM, syscall.EROFS, syscall.ELOOP},
	FEmfile:    {syscall.EMFILE, syscall.ENFILE},
	FEnolck:    {syscall.ENOLCK, syscall.EIO, syscall.ENOMEM},
}

// errno is what the system reports for a fault.
func (k *call) errno(f int) syscall.Errno {
	l := alternatives[f]
	if len(l) == 0 {
		return faultErrno(f)
	}
	if n := k.w.Src.Draw(2 * len(l)); n > len(l) {
		return l[n-len(l)]
	}
	return l[0]
}

func (k *call) run() (int64, syscall.Errno) {
	w, p := k.w, k.p
	f := FNone
	if k.mine {
		w.enter(p, k.name())
		f = w.fault(p, k.faultKinds())
	}
	w.foreign.Lock()
	locked := true
	defer func() {
		if locked {
			w.foreign.Unlock()
		}
	}()
	w.FS.now = w.Clock - w.Clock%w.Grain
	refused := w.FS.refused
	if k.mine {
		w.mix(uint64(k.trap)<<8 | uint64(p.Idx))
	} else {
		w.Others++
	}
	desc := ""
	if w.Tracing {
		desc = k.describe()
	}
	var r int64
	var e syscall.Errno
	switch {
	case f == FNone:
		if k.trap == syscall.SYS_FLOCK {
			for {
				var block bool
				r, e, block = k.flock()
				if !block {
					break
				}
				if !k.mine {
					e = syscall.EWOULDBLOCK
					break
				}
				w.Tracef("[%s]   flock %s blocks", p.Name, desc)
				p.blockedOn = p.fds[int(k.a[0])].node
				w.foreign.Unlock()
				locked = false
				w.pauseBlocked(p)
				p.blockedOn = nil
				w.foreign.Lock()
				locked = true
			}
		} else {
			r, e = k.exec()
		}
	case f == FShort:
		k.shorten()
		r, e = k.exec()
	case f == FCloseEio:
		r, e = k.exec()
		if e == 0 {
			e = k.errno(f)
		}
	case f == FFsyncLost:
		if of := p.fds[int(int32(k.a[0]))]; of != nil {
			w.FS.dropDirty(of.node, w.Src)
		}
		e = k.errno(f)
	default:
		e = k.errno(f)
	}
	if f == FNone && w.FS.refused != refused {
		// another operation filled the disk
		p.OpFaults++
	}
	m := r
	if m >= int64(w.base) && givesFD(k.trap) {
		m -= int64(w.base) // the number of a descriptor
	}
	if k.mine {
		w.mix(uint64(m)<<16 | uint64(e)<<4 | uint64(f))
	}
	if w.Tracing {
		note := ""
		if f != FNone {
			note = "   <== injected " + FaultNames[f]
		}
		res := fmt.Sprintf("= %d", r)
		if e != 0 {
			res = "= " + e.Error()
		}
		if !k.mine {
			note += " (from another goroutine)"
		}
		w.Tracef("[%s]   %s(%s) %s%s", p.Name, k.name(), desc, res, note)
	}
	return r, e
}

// pauseBlocked gives the control away until the lock may be free.
func (w *World) pauseBlocked(p *Proc) {
	nx := w.choose(p)
	if nx == p {
		return
	}
	w.nextProc = nx
	p.yield(0)
	if p.kill {
		panic(killed)
	}
}

func (k *call) describe() string {
	fdName := func(a uintptr) string {
		if f := k.p.fds[int(int32(a))]; f != nil {
			return fmt.Sprintf("%d:%s", (int(int32(a))-k.w.base)%fdsPerProc, f.path)
		}
		return fmt.Sprint(int(int32(a)))
	}
	switch classify(k.trap) {
	case clFD:
		s := fdName(k.a[0])
		switch k.trap {
		case syscall.SYS_READ, syscall.SYS_WRITE:
			return fmt.Sprintf("%s, %d bytes", s, k.a[2])
		case syscall.SYS_PREAD64, syscall.SYS_PWRITE64:
			return fmt.Sprintf("%s, %d bytes at %d", s, k.a[2], k.a[3])
		case syscall.SYS_FTRUNCATE, syscall.SYS_FLOCK:
			return fmt.Sprintf("%s, %d", s, k.a[1])
		case syscall.SYS_LSEEK:
			return fmt.Sprintf("%s, %d, %d", s, int64(k.a[1]), k.a[2])
		}
		return s
	case clPath:
		return cstr(k.a[0])
	case clAt:
		if k.trap == syscall.SYS_OPENAT {
			fl := int(k.a[2])
			names := ""
			for _, x := range []struct {
				v int
				n string
			}{{syscall.O_WRONLY, "wronly"}, {syscall.O_RDWR, "rdwr"}, {syscall.O_CREAT, "creat"}, {syscall.O_EXCL, "excl"}, {syscall.O_TRUNC, "trunc"}, {syscall.O_APPEND, "append"}} {
				if fl&x.v != 0 {
					names += "|" + x.n
				}
			}
			return cstr(k.a[1]) + names
		}
		return cstr(k.a[1])
	case clPath2:
		return cstr(k.a[0]) + " -> " + cstr(k.a[1])
	case clAt2:
		return cstr(k.a[1]) + " -> " + cstr(k.a[3])
	case clCopy:
		return fdName(k.a[0]) + " -> " + fdName(k.a[1])
	}
	return ""
}

// shorten makes a transfer shorter.
func (k *call) shorten() {
	cut := func(i int) {
		if n := int(k.a[i]); n > 1 {
			// often the plainest cut, a single byte
			k.a[i] = uintptr(1 + k.w.Src.Draw(n-1))
		}
	}
	switch k.trap {
	case syscall.SYS_READ, syscall.SYS_WRITE, syscall.SYS_PREAD64, syscall.SYS_PWRITE64:
		cut(2)
	case sysCopyFileRange:
		cut(4)
	case syscall.SYS_SENDFILE:
		cut(3)
	}
}

// abs makes a path absolute.
func (k *call) abs(dirfd int, path string) (string, syscall.Errno) {
	if path == "" {
		return "", syscall.ENOENT
	}
	if len(path) >= 4096 {
		return "", syscall.ENAMETOOLONG
	}
	if strings.HasPrefix(path, "/") {
		return path, 0
	}
	if dirfd == atFdcwd {
		return simRoot + "/cwd/" + path, 0
	}
	f := k.p.fds[dirfd]
	if f == nil {
		return "", syscall.EBADF
	}
	if !f.node.Dir {
		return "", syscall.ENOTDIR
	}
	return f.path + "/" + path, 0
}

func (w *World) closeFD(p *Proc, fd int) {
	f := p.fds[fd]
	delete(p.fds, fd)
	f.refs--
	if f.refs > 0 {
		return
	}
	delete(f.node.locks, f)
	f.node.opens--
	w.FS.maybeFree(f.node)
}

func (k *call) addFD(f *OpenFile, min int) (int64, syscall.Errno) {
	for i := min; i < fdsPerProc; i++ {
		fd := k.w.base + k.p.Idx*fdsPerProc + i
		if _, used := k.p.fds[fd]; !used {
			k.p.fds[fd] = f
			return int64(fd), 0
		}
	}
	return 0, syscall.EMFILE
}

func (k *call) open(dirfd int, path string, flags int) (int64, syscall.Errno) {
	fs := k.w.FS
	full, e := k.abs(dirfd, path)
	if e != 0 {
		return 0, e
	}
	if len(k.p.fds) >= fdsPerProc {
		return 0, syscall.EMFILE
	}
	comps := split(full)
	n, e := fs.walk(fs.Root, comps)
	wr := flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	if flags&0x410000 == 0x410000 { // O_TMPFILE
		return 0, syscall.EOPNOTSUPP
	}
	switch {
	case e == 0:
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return 0, syscall.EEXIST
		}
		if n.Dir && (wr || flags&syscall.O_CREAT != 0) {
			return 0, syscall.EISDIR
		}
		if !n.Dir && (flags&syscall.O_DIRECTORY != 0 || strings.HasSuffix(path, "/")) {
			return 0, syscall.ENOTDIR
		}
		if flags&syscall.O_TRUNC != 0 && !n.Dir && wr {
			if len(n.data) > 0 {
				fs.truncate(n, 0)
			}
		}
	case e == syscall.ENOENT && flags&syscall.O_CREAT != 0:
		dir, name, e2 := fs.parentOf(full)
		if e2 != 0 {
			return 0, e2
		}
		if strings.HasSuffix(path, "/") {
			return 0, syscall.EISDIR
		}
		n = fs.newInode(false)
		n.nlink = 1
		fs.setEntry(dir, name, n, 0)
	default:
		return 0, e
	}
	f := &OpenFile{node: n, path: "/" + strings.Join(comps, "/"), flags: flags, refs: 1, proc: k.p}
	r, e := k.addFD(f, 0)
	if e == 0 {
		n.opens++
	}
	return r, e
}

func (k *call) stat(n *Inode, buf uintptr) syscall.Errno {
	st := (*syscall.Stat_t)(addr(buf))
	*st = syscall.Stat_t{Dev: simDev, Ino: n.Ino, Nlink: uint64(n.nlink), Blksize: 4096}
	if n.Dir {
		st.Mode = syscall.S_IFDIR | 0755
		st.Size = 4096
	} else {
		st.Mode = syscall.S_IFREG | 0644
		st.Size = int64(len(n.data))
		st.Blocks = (st.Size + 511) / 512
	}
	st.Mtim = syscall.NsecToTimespec(n.mtime)
	st.Ctim = st.Mtim
	st.Atim = st.Mtim
	return 0
}

func (k *call) read(f *OpenFile, buf []byte, off int64) (int64, syscall.Errno) {
	if f.node.Dir {
		return 0, syscall.EISDIR
	}
	if f.flags&(syscall.O_WRONLY|syscall.O_RDWR) == syscall.O_WRONLY {
		return 0, syscall.EBADF
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	if off >= int64(len(f.node.data)) {
		return 0, 0
	}
	return int64(copy(buf, f.node.data[off:])), 0
}

func (k *call) write(f *OpenFile, buf []byte, off int64) (int64, syscall.Errno) {
	if f.flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return 0, syscall.EBADF
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	if len(buf) == 0 {
		return 0, 0
	}
	if off+int64(len(buf)) > 1<<30 {
		return 0, syscall.EFBIG
	}
	n, e := k.w.FS.write(f.node, off, buf)
	h := uint64(14695981039346656037)
	for _, c := range buf[:n] {
		h = (h ^ uint64(c)) * 1099511628211
	}
	k.w.mix(h)
	return int64(n), e
}

func (k *call) flock() (int64, syscall.Errno, bool) {
	f := k.p.fds[int(int32(k.a[0]))]
	if f == nil {
		return 0, syscall.EBADF, false
	}
	op := int(k.a[1])
	n := f.node
	if op&syscall.LOCK_UN != 0 {
		delete(n.locks, f)
		return 0, 0, false
	}
	ex := op&syscall.LOCK_EX != 0
	for o, x := range n.locks {
		if o != f && (ex || x) {
			if op&syscall.LOCK_NB != 0 {
				return 0, syscall.EWOULDBLOCK, false
			}
			return 0, 0, true
		}
	}
	if n.locks == nil {
		n.locks = map[*OpenFile]bool{}
	}
	n.locks[f] = ex
	return 0, 0, false
}

func (k *call) unlink(dirfd int, path string, rmdir bool) syscall.Errno {
	fs := k.w.FS
	full, e := k.abs(dirfd, path)
	if e != 0 {
		return e
	}
	dir, name, e := fs.parentOf(full)
	if e != 0 {
		return e
	}
	n, ok := dir.entries[name]
	if !ok {
		return syscall.ENOENT
	}
	if rmdir {
		if !n.Dir {
			return syscall.ENOTDIR
		}
		if len(n.entries) > 0 {
			return syscall.ENOTEMPTY
		}
		fs.setEntry(dir, name, nil, 0)
		return 0
	}
	if n.Dir {
		return syscall.EISDIR
	}
	fs.setEntry(dir, name, nil, 0)
	n.nlink--
	fs.maybeFree(n)
	return 0
}

func (k *call) rename(fd1 int, from string, fd2 int, to string, flags int) syscall.Errno {
	fs := k.w.FS
	a, e := k.abs(fd1, from)
	if e != 0 {
		return e
	}
	b, e := k.abs(fd2, to)
	if e != 0 {
		return e
	}
	d1, n1, e := fs.parentOf(a)
	if e != 0 {
		return e
	}
	d2, n2, e := fs.parentOf(b)
	if e != 0 {
		return e
	}
	n, ok := d1.entries[n1]
	if !ok {
		return syscall.ENOENT
	}
	o, exists := d2.entries[n2]
	if flags&^1 != 0 {
		return syscall.EINVAL
	}
	if exists {
		if flags&1 != 0 {
			return syscall.EEXIST
		}
		if o == n {
			return 0
		}
		if o.Dir && !n.Dir {
			return syscall.EISDIR
		}
		if !o.Dir && n.Dir {
			return syscall.ENOTDIR
		}
		if o.Dir && len(o.entries) > 0 {
			return syscall.ENOTEMPTY
		}
	}
	pair := fs.pair()
	fs.setEntry(d1, n1, nil, pair)
	fs.setEntry(d2, n2, n, pair)
	if exists && !o.Dir {
		o.nlink--
		fs.maybeFree(o)
	}
	return 0
}

func (k *call) link(fd1 int, from string, fd2 int, to string) syscall.Errno {
	fs := k.w.FS
	a, e := k.abs(fd1, from)
	if e != 0 {
		return e
	}
	b, e := k.abs(fd2, to)
	if e != 0 {
		return e
	}
	n, e := fs.walk(fs.Root, split(a))
	if e != 0 {
		return e
	}
	if n.Dir {
		return syscall.EPERM
	}
	d, name, e := fs.parentOf(b)
	if e != 0 {
		return e
	}
	if _, ok := d.entries[name]; ok {
		return syscall.EEXIST
	}
	n.nlink++
	fs.setEntry(d, name, n, 0)
	return 0
}

func (k *call) getdents(f *OpenFile, buf []byte) (int64, syscall.Errno) {
	if !f.node.Dir {
		return 0, syscall.ENOTDIR
	}
	names := append([]string{".", ".."}, sortedNames(f.node.entries)...)
	at := 0
	for f.dirPos < len(names) {
		name := names[f.dirPos]
		ino, typ := f.node.Ino, byte(syscall.DT_DIR)
		if c, ok := f.node.entries[name]; ok {
			ino = c.Ino
			if !c.Dir {
				typ = syscall.DT_REG
			}
		}
		size := (19 + len(name) + 1 + 7) &^ 7
		if at+size > len(buf) {
			if at == 0 {
				return 0, syscall.EINVAL
			}
			break
		}
		b := buf[at : at+size]
		for i := range b {
			b[i] = 0
		}
		binary.LittleEndian.PutUint64(b, ino)
		binary.LittleEndian.PutUint64(b[8:], uint64(f.dirPos+1))
		binary.LittleEndian.PutUint16(b[16:], uint16(size))
		b[18] = typ
		copy(b[19:], name)
		at += size
		f.dirPos++
	}
	return int64(at), 0
}

type iovec struct {
	base uintptr
	len  uint64
}

func (k *call) exec() (int64, syscall.Errno) {
	w, p, a := k.w, k.p, k.a
	fs := w.FS
	var f *OpenFile
	if classify(k.trap) == clFD {
		f = p.fds[int(int32(a[0]))]
		if f == nil {
			return 0, syscall.EBADF
		}
	}
	switch k.trap {
	case syscall.SYS_OPEN:
		return k.open(atFdcwd, cstr(a[0]), int(a[1]))
	case syscall.SYS_CREAT:
		return k.open(atFdcwd, cstr(a[0]), syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC)
	case syscall.SYS_OPENAT:
		return k.open(int(int32(a[0])), cstr(a[1]), int(a[2]))
	case syscall.SYS_CLOSE:
		w.closeFD(p, int(int32(a[0])))
		return 0, 0
	case syscall.SYS_READ:
		n, e := k.read(f, mem(a[1], int(a[2])), f.pos)
		f.pos += n
		return n, e
	case syscall.SYS_PREAD64:
		return k.read(f, mem(a[1], int(a[2])), int64(a[3]))
	case syscall.SYS_WRITE:
		if f.flags&syscall.O_APPEND != 0 {
			f.pos = int64(len(f.node.data))
		}
		n, e := k.write(f, mem(a[1], int(a[2])), f.pos)
		f.pos += n
		return n, e
	case syscall.SYS_PWRITE64:
		return k.write(f, mem(a[1], int(a[2])), int64(a[3]))
	case syscall.SYS_READV, syscall.SYS_WRITEV, sysPreadv, sysPwritev:
		total := int64(0)
		for i := 0; i < int(a[2]); i++ {
			v := (*iovec)(addr(a[1] + uintptr(i)*16))
			off := f.pos
			at := k.trap == sysPreadv || k.trap == sysPwritev
			if at {
				off = int64(a[3]) + total
			}
			var n int64
			var e syscall.Errno
			if k.trap == syscall.SYS_READV || k.trap == sysPreadv {
				n, e = k.read(f, mem(v.base, int(v.len)), off)
			} else {
				n, e = k.write(f, mem(v.base, int(v.len)), off)
			}
			if e != 0 {
				if total > 0 {
					break
				}
				return 0, e
			}
			if !at {
				f.pos += n
			}
			total += n
			if n < int64(v.len) {
				break
			}
		}
		return total, 0
	case syscall.SYS_LSEEK:
		off := int64(a[1])
		switch a[2] {
		case 0:
		case 1:
			off += f.pos
		case 2:
			off += int64(len(f.node.data))
		default:
			return 0, syscall.EINVAL
		}
		if off < 0 {
			return 0, syscall.EINVAL
		}
		f.pos = off
		if f.node.Dir {
			f.dirPos = int(off)
		}
		return off, 0
	case syscall.SYS_FSTAT:
		return 0, k.stat(f.node, a[1])
	case syscall.SYS_STAT, syscall.SYS_LSTAT, syscall.SYS_NEWFSTATAT:
		dirfd, path, buf := atFdcwd, a[0], a[1]
		if k.trap == syscall.SYS_NEWFSTATAT {
			dirfd, path, buf = int(int32(a[0])), a[1], a[2]
			if a[3]&0x1000 != 0 && cstr(path) == "" {
				g := p.fds[dirfd]
				if g == nil {
					return 0, syscall.EBADF
				}
				return 0, k.stat(g.node, buf)
			}
		}
		full, e := k.abs(dirfd, cstr(path))
		if e != 0 {
			return 0, e
		}
		n, e := fs.walk(fs.Root, split(full))
		if e != 0 {
			return 0, e
		}
		if strings.HasSuffix(full, "/") && !n.Dir {
			return 0, syscall.ENOTDIR
		}
		return 0, k.stat(n, buf)
	case syscall.SYS_ACCESS, syscall.SYS_FACCESSAT, sysFaccessat2, syscall.SYS_CHMOD, syscall.SYS_FCHMODAT, syscall.SYS_UTIMENSAT, syscall.SYS_FCHOWNAT:
		dirfd, path := atFdcwd, a[0]
		if k.trap != syscall.SYS_ACCESS && k.trap != syscall.SYS_CHMOD {
			dirfd, path = int(int32(a[0])), a[1]
		}
		full, e := k.abs(dirfd, cstr(path))
		if e != 0 {
			return 0, e
		}
		_, e = fs.walk(fs.Root, split(full))
		return 0, e
	case syscall.SYS_READLINK, syscall.SYS_READLINKAT:
		dirfd, path := atFdcwd, a[0]
		if k.trap == syscall.SYS_READLINKAT {
			dirfd, path = int(int32(a[0])), a[1]
		}
		full, e := k.abs(dirfd, cstr(path))
		if e != 0 {
			return 0, e
		}
		if _, e = fs.walk(fs.Root, split(full)); e != 0 {
			return 0, e
		}
		return 0, syscall.EINVAL
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		fs.sync(f.node)
		return 0, 0
	case sysSyncfs:
		fs.SyncAll()
		return 0, 0
	case syscall.SYS_FTRUNCATE, syscall.SYS_TRUNCATE:
		var n *Inode
		if f != nil {
			if f.flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
				return 0, syscall.EINVAL
			}
			n = f.node
		} else {
			full, e := k.abs(atFdcwd, cstr(a[0]))
			if e != 0 {
				return 0, e
			}
			if n, e = fs.walk(fs.Root, split(full)); e != 0 {
				return 0, e
			}
		}
		if n.Dir {
			return 0, syscall.EISDIR
		}
		size := int64(a[1])
		if size < 0 {
			return 0, syscall.EINVAL
		}
		if size > 1<<30 {
			return 0, syscall.EFBIG
		}
		if grow := size - int64(len(n.data)); grow > 0 && fs.Limit > 0 && fs.used+grow > fs.Limit {
			fs.refused++
			return 0, syscall.ENOSPC
		}
		fs.truncate(n, size)
		return 0, 0
	case syscall.SYS_RENAME:
		return 0, k.rename(atFdcwd, cstr(a[0]), atFdcwd, cstr(a[1]), 0)
	case syscall.SYS_RENAMEAT:
		return 0, k.rename(int(int32(a[0])), cstr(a[1]), int(int32(a[2])), cstr(a[3]), 0)
	case sysRenameat2:
		return 0, k.rename(int(int32(a[0])), cstr(a[1]), int(int32(a[2])), cstr(a[3]), int(a[4]))
	case syscall.SYS_LINK:
		return 0, k.link(atFdcwd, cstr(a[0]), atFdcwd, cstr(a[1]))
	case syscall.SYS_LINKAT:
		return 0, k.link(int(int32(a[0])), cstr(a[1]), int(int32(a[2])), cstr(a[3]))
	case syscall.SYS_UNLINK:
		return 0, k.unlink(atFdcwd, cstr(a[0]), false)
	case syscall.SYS_RMDIR:
		return 0, k.unlink(atFdcwd, cstr(a[0]), true)
	case syscall.SYS_UNLINKAT:
		return 0, k.unlink(int(int32(a[0])), cstr(a[1]), a[2]&0x200 != 0)
	case syscall.SYS_MKDIR, syscall.SYS_MKDIRAT:
		dirfd, path := atFdcwd, a[0]
		if k.trap == syscall.SYS_MKDIRAT {
			dirfd, path = int(int32(a[0])), a[1]
		}
		full, e := k.abs(dirfd, cstr(path))
		if e != 0 {
			return 0, e
		}
		dir, name, e := fs.parentOf(full)
		if e != 0 {
			if e == syscall.EBUSY {
				e = syscall.EEXIST
			}
			return 0, e
		}
		if _, ok := dir.entries[name]; ok {
			return 0, syscall.EEXIST
		}
		n := fs.newInode(true)
		n.nlink = 2
		fs.setEntry(dir, name, n, 0)
		return 0, 0
	case syscall.SYS_GETDENTS64:
		return k.getdents(f, mem(a[1], int(a[2])))
	case syscall.SYS_FCNTL:
		switch int(a[1]) {
		case syscall.F_GETFL:
			return int64(f.flags), 0
		case syscall.F_GETFD:
			return 1, 0
		case syscall.F_SETFD:
			return 0, 0
		case syscall.F_SETFL:
			if a[2]&syscall.O_NONBLOCK != 0 {
				return 0, syscall.EINVAL
			}
			return 0, 0
		case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
			f.refs++
			r, e := k.addFD(f, 0)
			if e != 0 {
				f.refs--
			}
			return r, e
		}
		return 0, syscall.EINVAL
	case syscall.SYS_DUP:
		f.refs++
		r, e := k.addFD(f, 0)
		if e != 0 {
			f.refs--
		}
		return r, e
	case syscall.SYS_FCHMOD, syscall.SYS_FCHOWN, syscall.SYS_FADVISE64, syscall.SYS_SYNC_FILE_RANGE:
		return 0, 0
	case syscall.SYS_FALLOCATE:
		return 0, syscall.EOPNOTSUPP
	case syscall.SYS_IOCTL:
		return 0, syscall.ENOTTY
	case sysCopyFileRange, syscall.SYS_SENDFILE:
		// copy_file_range(in, *inOff, out, *outOff, len), sendfile(out, in, *off, len)
		in, out := p.fds[int(int32(a[0]))], p.fds[int(int32(a[2]))]
		n := int(a[4])
		inOff, outOff := a[1], a[3]
		if k.trap == syscall.SYS_SENDFILE {
			in, out = p.fds[int(int32(a[1]))], p.fds[int(int32(a[0]))]
			n = int(a[3])
			inOff, outOff = a[2], 0
		}
		if in == nil || out == nil {
			return 0, syscall.EBADF
		}
		if in.node == out.node {
			return 0, syscall.EINVAL
		}
		if n > 1<<20 {
			n = 1 << 20
		}
		src, dst := &in.pos, &out.pos
		if inOff != 0 {
			src = (*int64)(addr(inOff))
		}
		if outOff != 0 {
			dst = (*int64)(addr(outOff))
		}
		buf := make([]byte, n)
		r, e := k.read(in, buf, *src)
		if e != 0 || r == 0 {
			return 0, e
		}
		r, e = k.write(out, buf[:r], *dst)
		if e != 0 {
			return 0, e
		}
		*src += r
		*dst += r
		return r, 0
	case syscall.SYS_SPLICE:
		return 0, syscall.EINVAL
	case syscall.SYS_CHDIR, syscall.SYS_FCHDIR, syscall.SYS_SYMLINK:
		return 0, syscall.EPERM
	}
	return 0, syscall.ENOSYS
}
