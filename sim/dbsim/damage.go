//go:build go1.23

package dbsim

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/zz_verif/core"
)

var damageProps = []string{"C12"}

// damage returns other bytes for a file: cut is true when it only lost its
// end.
func (r *Run) damageOf(full []byte, other []byte) (out []byte, cut bool, what string) {
	src := r.src
	n := len(full)
	out = append([]byte(nil), full...)
	// places that look like a length: 8 bytes that hold a small number
	fields := func() []int {
		l := []int{}
		for i := 0; i+8 <= n; i++ {
			v := binary.LittleEndian.Uint64(full[i:])
			if v > 0 && v <= uint64(n)+64 {
				l = append(l, i)
			}
		}
		return l
	}
	extreme := func(old uint64) uint64 {
		x := uint64(n)
		l := []uint64{0, 1, old + 1, old - 1, x, x - 8, x + 1, x - 7, 7, 8, 63, 64, 65, 128, old * 2, 1 << 20, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 40, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0), ^uint64(0) - 7, ^uint64(0) - 63, ^uint64(0) - x, ^uint64(0) - old + 1, 1<<61 + old, 1<<58 + 1}
		return l[src.Draw(len(l))]
	}
	put := func(at int, v uint64) {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], v)
		copy(out[at:], b[:])
	}
	mode := src.Draw(12)
	if n == 0 {
		mode = 8
	}
	switch mode {
	case 0, 1: // it lost its end
		at := 0
		switch src.Draw(4) {
		case 0:
			at = src.Draw(n)
		case 1:
			at = n - 1 - src.Draw(min(n, 20))
		case 2:
			at = src.Draw(min(n, 40))
		case 3:
			f := fields()
			if len(f) > 0 {
				at = f[src.Draw(len(f))] + 8*src.Draw(2)
			}
		}
		if at >= n {
			at = n - 1
		}
		return out[:at], at > 0, fmt.Sprintf("cut to %d of %d bytes", at, n)
	case 2, 3: // a length field
		f := fields()
		if len(f) == 0 {
			return out, false, "unchanged"
		}
		k := 1 + src.Draw(2)
		what = "length fields changed:"
		for i := 0; i < k; i++ {
			at := f[src.Draw(len(f))]
			v := extreme(binary.LittleEndian.Uint64(full[at:]))
			put(at, v)
			what += fmt.Sprintf(" %#x at %d", v, at)
		}
		return out, false, what
	case 4: // flipped bits
		k := 1 + src.Draw(4)
		what = "bits flipped at"
		for i := 0; i < k; i++ {
			at := src.Draw(n)
			out[at] ^= 1 << src.Draw(8)
			what += fmt.Sprintf(" %d", at)
		}
		return out, false, what
	case 5: // a range is overwritten
		at := src.Draw(n)
		size := 1 + src.Draw(min(n-at, 300))
		style := src.Draw(4)
		for i := at; i < at+size; i++ {
			switch style {
			case 0:
				out[i] = 0
			case 1:
				out[i] = 0xff
			case 2:
				out[i] = byte(src.Draw(256))
			case 3:
				if len(other) > 0 {
					out[i] = other[i%len(other)]
				}
			}
		}
		return out, false, fmt.Sprintf("%d bytes overwritten at %d (style %d)", size, at, style)
	case 6: // blocks that never reached the disk
		b := []int{64, 512, 4096}[src.Draw(3)]
		at := src.Draw((n+b-1)/b) * b
		for i := at; i < at+b && i < n; i++ {
			out[i] = 0
		}
		return out, false, fmt.Sprintf("block of %d bytes lost at %d", b, at)
	case 7: // a range is gone or there twice
		at := src.Draw(n)
		size := 1 + src.Draw(min(n-at, 200))
		if src.Draw(2) == 0 {
			return append(append([]byte(nil), full[:at]...), full[at+size:]...), false, fmt.Sprintf("%d bytes removed at %d", size, at)
		}
		return append(append(append([]byte(nil), full[:at+size]...), full[at:at+size]...), full[at+size:]...), false, fmt.Sprintf("%d bytes doubled at %d", size, at)
	case 8: // something else altogether
		size := src.Draw(600)
		out = make([]byte, size)
		style := src.Draw(3)
		for i := range out {
			switch style {
			case 0:
				out[i] = byte(src.Draw(256))
			case 1:
				out[i] = 0xff
			case 2:
				out[i] = 0
			}
		}
		if size >= 8 && src.Draw(2) == 1 {
			v := uint64(src.Draw(size))
			if src.Draw(3) == 0 {
				v = extreme(v)
			}
			put(0, v)
			for at := 8; at+8 <= size && at < 200; at += 8 {
				if src.Draw(3) > 0 {
					put(at, []uint64{0, 1, 8, 64, 72, 128, uint64(src.Draw(size)), extreme(9)}[src.Draw(8)])
				}
			}
		}
		return out, false, fmt.Sprintf("replaced by %d bytes (style %d)", size, style)
	case 9: // extended
		size := 1 + src.Draw(300)
		for i := 0; i < size; i++ {
			out = append(out, byte(src.Draw(256)))
		}
		return out, false, fmt.Sprintf("%d bytes appended", size)
	case 10: // the bytes of the other database
		return append([]byte(nil), other...), false, "replaced by the bytes of another database"
	}
	// one byte anywhere in the first part, where the structure is
	at := src.Draw(min(n, 1000))
	out[at] = byte(src.Draw(256))
	return out, false, fmt.Sprintf("byte %d set to %#x", at, out[at])
}

// some returns at most 16 of the hashes, evenly.
func (r *Run) some(known []string) []string {
	var out []string
	for i := 0; i < len(known); i += 1 + len(known)/16 {
		out = append(out, known[i])
	}
	return out
}

// probe uses everything a context of a damaged database shows.
func (r *Run) probe(n *Node, id uint, known []string) (core.Result, bool) {
	app := n.app
	src := r.src
	var bad string
	// pointers of the caller, to anywhere
	var strange []references.Pointer
	for i := src.Draw(3); i > 0; i-- {
		ends := []uint{0, 1, uint(src.Draw(2000)), 1 << 31, 1 << 40, 1 << 63, ^uint(0), ^uint(0) - uint(src.Draw(2000)), 1<<63 - 1}
		p, err := references.NewPointerBuilder().Create().From(ends[src.Draw(len(ends))]).WithLength(ends[src.Draw(len(ends))]).Now()
		if err == nil {
			strange = append(strange, p)
		}
	}
	res, ok := r.do(n, opObserve, "reads everything it shows", func() {
		var pointers []references.Pointer
		for _, p := range strange {
			data, err := app.Read(id, p)
			if err == nil && uint(len(data)) != p.Length() {
				bad = fmt.Sprintf("Read of a pointer of %d bytes returned %d bytes", p.Length(), len(data))
				return
			}
		}
		hashes := []hash.Hash{}
		commits, err := app.Commits(id)
		if err == nil && commits != nil {
			for i, c := range commits.List() {
				if c == nil {
					bad = "a listed commit is nil"
					return
				}
				c.Hash()
				c.CreatedOn()
				if c.HasParent() {
					c.Parent()
				}
				if c.Values() == nil {
					bad = "a listed commit has no hash tree"
					return
				}
				c.Values().Head()
				if i < 50 {
					leavesIn(c.Values())
				}
				app.CommitByHash(id, c.Hash())
			}
		}
		for _, k := range append([]uint{3, 1 << 63}, r.kinds...) {
			keys, err := app.ContentKeysByKind(id, k)
			if err != nil || keys == nil {
				continue
			}
			for _, key := range keys.List() {
				if len(pointers) < 60 {
					pointers = append(pointers, key.Content())
					hashes = append(hashes, key.Hash())
				}
				key.Commit()
			}
		}
		for i, p := range pointers {
			data, err := app.Read(id, p)
			if err == nil && uint(len(data)) != p.Length() {
				bad = fmt.Sprintf("Read of a pointer of %d bytes returned %d bytes", p.Length(), len(data))
				return
			}
			app.ReadByHash(id, hashes[i])
		}
		for _, h := range known {
			app.ReadByHash(id, hash.Hash([]byte(h)))
		}
		if len(pointers) > 0 {
			app.ReadAll(id, pointers)
			app.ReadAllByHashes(id, hashes)
		}
	})
	if ok && bad != "" {
		r.fail("damaged-value", damageProps, "%s: %s", n.label, bad)
	}
	return res, ok
}

// damagePhase damages databases and looks at what the application does.
func (r *Run) damagePhase() {
	w := r.w
	src := r.src
	w.StallN = 0
	r.nodes = nil
	n := &Node{idx: 50, seen: map[uint]bool{}, label: "reader", settling: true}
	r.nodes = []*Node{n}
	paths := []string{}
	for _, name := range r.names {
		paths = append(paths, r.simDir+"/"+name)
	}
	n.proc = w.Spawn("reader", func(p *core.Proc) {
		n.app = r.newApp()
		rounds := 3 + src.Draw(10)
		for i := 0; i < rounds && !r.stop && !n.dead; i++ {
			db := src.Draw(len(r.names))
			full, ok := w.FS.GetFile(paths[db])
			if !ok {
				continue
			}
			full = append([]byte(nil), full...)
			others := map[string][]byte{}
			var other []byte
			for j, q := range paths {
				if j == db {
					continue
				}
				if b, ok := w.FS.GetFile(q); ok {
					others[q] = append([]byte(nil), b...)
					if len(b) > 0 {
						other = b
					}
				}
			}
			// contexts that are open before the damage
			before := src.Draw(3) == 0
			for j := range r.names {
				if j != db && src.Draw(2) == 0 && r.ctxOf(n, j) == nil {
					if _, ok := others[paths[j]]; ok {
						r.opOpen(n, j)
					}
				}
			}
			if before && r.ctxOf(n, db) == nil {
				r.opOpen(n, db)
			}
			if r.stop || n.dead {
				return
			}
			data, cut, what := r.damageOf(full, other)
			same := bytes.Equal(data, full)
			w.Faults[core.FDamage]++
			r.Damages++
			w.Tracef("== the file of %q, of %d bytes, is damaged: %s", r.names[db], len(full), what)
			c := r.ctxOf(n, db)
			during := src.Draw(4) == 0
			if c != nil {
				// an open context of the damaged file
				w.FS.PutFile(paths[db], data)
				r.limited(n, len(data), func() { r.probe(n, c.id, r.some(r.known)) })
				if r.stop || n.dead {
					return
				}
				after, _ := w.FS.GetFile(paths[db])
				if !bytes.Equal(after, data) {
					r.fail("damaged-write", damageProps, "reading a context of the damaged database %q (%s) changed its file", r.names[db], what)
				}
				w.FS.PutFile(paths[db], full)
				w.Tracef("== the file is as before")
				r.verify(n, c, true)
			} else {
				if !during {
					w.FS.PutFile(paths[db], data)
				}
				var id *uint
				var err error
				if during {
					// it happens while Open or the reads run
					left := src.Draw(6)
					p.Each = func() {
						if left == 0 {
							w.Tracef("== now")
							w.FS.PutFile(paths[db], data)
						}
						left--
					}
				}
				if src.Draw(4) == 0 {
					// and the disk fails as well
					p.Rate = 0
					n.settling = false
					r.fmode, r.cfg.FaultP = fmTarget, 300
				}
				size := len(data)
				if during && len(full) > size {
					size = len(full) // it has this size for a while
				}
				res := r.limited(n, size, func() {
					r.do(n, opOpen, fmt.Sprintf("Open(%q)", r.names[db]), func() { id, err = n.app.Open(r.names[db]) })
				})
				r.outcome(n, err)
				if r.stop || n.dead {
					return
				}
				if err == nil && id == nil {
					r.fail("open-nil", damageProps, "Open(%q) returned neither a context nor an error", r.names[db])
				}
				if err == nil && cut && !during {
					r.fail("cut-accepted", damageProps, "Open(%q) succeeded although the file was %s", r.names[db], what)
				}
				if err != nil && same && res.Faults == 0 {
					r.fail("sound-refused", damageProps, "Open(%q) refused an undamaged file: %s", r.names[db], err)
				}
				if err == nil && id != nil && len(data) > 0 && len(full) > 0 {
					var commits references.Commits
					var cerr error
					r.do(n, opObserve, "Commits", func() { commits, cerr = n.app.Commits(*id) })
					if r.stop || n.dead {
						return
					}
					if cerr != nil || commits == nil || len(commits.List()) == 0 {
						r.fail("shown-empty", damageProps, "Open(%q) shows an empty database although the file, which was %s, is not", r.names[db], what)
					}
				}
				if err != nil {
					r.Refused++
				} else {
					r.Accepted++
				}
				if err == nil && id != nil {
					if n.seen[*id] {
						r.fail("reused-id", append([]string{"C12"}, idProps...), "Open(%q) returned the identifier %d, which belonged to another context before", r.names[db], *id)
					}
					n.seen[*id] = true
					r.limited(n, size, func() { r.probe(n, *id, r.some(r.known)) })
					if r.stop || n.dead {
						return
					}
				}
				p.Each = nil
				n.settling = true
				if during {
					w.FS.PutFile(paths[db], data)
				}
				if err == nil && id != nil {
					var cerr error
					r.do(n, opClose, "Close", func() { cerr = n.app.Close(*id) })
					if cerr != nil {
						r.fail("close", damageProps, "Close of a context of the damaged database %q failed: %s", r.names[db], cerr)
					}
				}
				if f := p.FDs(); len(f) > 2*len(n.ctxs) {
					r.fail("descriptors", []string{"C12", "C13"}, "%d descriptors are open after a damaged database was opened although %d contexts are: %v", len(f), len(n.ctxs), p.FDPaths())
				}
				after, ok := w.FS.GetFile(paths[db])
				if !ok || !bytes.Equal(after, data) {
					r.fail("damaged-write", damageProps, "opening and reading the damaged database %q (%s) changed its file", r.names[db], what)
				}
				w.FS.PutFile(paths[db], full)
				w.Tracef("== the file is as before")
				if r.stop || n.dead {
					return
				}
				if src.Draw(2) == 0 {
					// the restored file is not refused
					r.opOpen(n, db)
					if !r.stop && r.ctxOf(n, db) == nil {
						r.fail("sound-refused", damageProps, "Open(%q) refused the restored file", r.names[db])
					}
				}
			}
			if r.stop || n.dead {
				return
			}
			for q, b := range others {
				after, ok := w.FS.GetFile(q)
				if !ok || !bytes.Equal(after, b) {
					r.fail("damaged-other", damageProps, "opening and reading the damaged database %q changed the file %s", r.names[db], q)
				}
			}
			// the other contexts are not affected
			for _, c := range append([]*Ctx(nil), n.ctxs...) {
				r.verify(n, c, true)
				if r.stop || n.dead {
					return
				}
			}
			if src.Draw(3) == 0 {
				for _, c := range append([]*Ctx(nil), n.ctxs...) {
					r.opClose(n, c)
				}
			}
			if r.stop || n.dead {
				return
			}
		}
		for _, c := range append([]*Ctx(nil), n.ctxs...) {
			r.opClose(n, c)
		}
	})
	w.Run()
	if w.Deadlock && !r.stop {
		w.Deadlock = false
		r.fail("deadlock", damageProps, "an operation on a damaged database waits for ever")
	}
}

// limited bounds the work and the memory of an operation on a damaged file.
func (r *Run) limited(n *Node, size int, fn func()) core.Result {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	fn()
	runtime.ReadMemStats(&b)
	used := b.TotalAlloc - a.TotalAlloc
	limit := uint64(64<<20) + 4096*uint64(size)
	if used > limit {
		r.fail("memory", damageProps, "an operation on a damaged file of %d bytes allocated %d bytes of memory", size, used)
	}
	return core.Result{Faults: n.proc.OpFaults}
}
