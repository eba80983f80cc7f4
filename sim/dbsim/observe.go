//go:build go1.23

package dbsim

import (
	"bytes"
	"fmt"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)

// readView returns which commits a context shows.
func (r *Run) readView(n *Node, c *Ctx) ([]int, bool) {
	var hashes []string
	byKind := make([][]references.ContentKey, len(r.kinds))
	_, ok := r.do(n, opObserve, fmt.Sprintf("Commits(ctx%d)", c.serial), func() {
		commits, err := n.app.Commits(c.id)
		if err != nil || commits == nil {
			return
		}
		for _, x := range commits.List() {
			hashes = append(hashes, string(x.Hash()))
		}
		for i, k := range r.kinds {
			keys, err := n.app.ContentKeysByKind(c.id, k)
			if err == nil && keys != nil {
				byKind[i] = keys.List()
			}
		}
	})
	if !ok {
		return nil, false
	}
	// a commit in progress may show before it returns
	for _, o := range r.nodes {
		if e := o.inflight; e != nil && e.kind == evCommit && e.db == c.db {
			r.candidates(e.ctx, o.proc.Reads)
		}
	}
	view := []int{}
	for at, h := range hashes {
		ids := r.byHash[h]
		if len(ids) == 0 {
			r.fail("unknown-commit", dataProps, "%s: ctx%d of %q shows as commit %d the hash %s, which no Commit can have made", n.label, c.serial, r.names[c.db], at, short(h))
			r.stop = true
			return nil, false
		}
		pick := ids[0]
		if len(ids) > 1 {
			for _, id := range ids {
				if r.matches(n, c, r.vcs[id], byKind) {
					pick = id
					break
				}
			}
		}
		view = append(view, pick)
	}
	return view, true
}

// matches tells whether the contents of a commit are those of the model.
func (r *Run) matches(n *Node, c *Ctx, v *VC, byKind [][]references.ContentKey) bool {
	same := true
	r.do(n, opObserve, "reads the contents of a commit", func() {
		for i, k := range r.kinds {
			exp := []Item{}
			for _, it := range v.items {
				if it.Kind == k {
					exp = append(exp, it)
				}
			}
			at := 0
			for _, key := range byKind[i] {
				if string(key.Commit()) != v.hash {
					continue
				}
				if at >= len(exp) || string(key.Hash()) != exp[at].Hash {
					same = false
					return
				}
				data, err := n.app.Read(c.id, key.Content())
				if err != nil || !bytes.Equal(data, exp[at].Data) {
					same = false
					return
				}
				at++
			}
			if at != len(exp) {
				same = false
				return
			}
		}
	})
	return same
}

func leavesIn(t hashtrees.HashTree) (out []string) {
	var rec func(l hashtrees.Leaf, depth int)
	rec = func(l hashtrees.Leaf, depth int) {
		if depth > 30 {
			out = append(out, "too deep")
			return
		}
		if l.HasParent() {
			rec(l.Parent().Left(), depth+1)
			rec(l.Parent().Right(), depth+1)
			return
		}
		out = append(out, string(l.Head()))
	}
	rec(t.Parent().Left(), 0)
	rec(t.Parent().Right(), 0)
	return out
}

type expected struct {
	item   Item
	commit string
}

type got struct {
	data []byte
	err  error
}

// verify reads everything a context shows and compares it with its version.
func (r *Run) verify(n *Node, c *Ctx, scheduled bool) {
	if r.light {
		return
	}
	src := r.src
	view := c.view
	exp := []expected{}
	for _, id := range view {
		for _, it := range r.vcs[id].items {
			exp = append(exp, expected{it, r.vcs[id].hash})
		}
	}
	latest := map[string]int{}
	order := []string{}
	for i, e := range exp {
		if _, ok := latest[e.item.Hash]; !ok {
			order = append(order, e.item.Hash)
		}
		latest[e.item.Hash] = i
	}
	app := n.app

	// what is asked
	var batch []int // positions for ReadAll
	var hashBatch []int
	unknown := sha("unknown")
	unknownCommit := unknown
	if scheduled && src.Chance(1, 2) {
		unknown = r.alike(unknown)
		if len(view) > 0 {
			// a commit of this database, but for one bit, or a content
			x := []byte(r.vcs[view[src.Draw(len(view))]].hash)
			if src.Chance(2, 3) {
				x[src.Draw(len(x))] ^= 1 << uint(src.Draw(8))
			} else {
				x = []byte(order[src.Draw(len(order))])
			}
			unknownCommit = string(x)
		}
	}
	pendingHash := ""
	if scheduled {
		if len(exp) > 0 {
			n := src.Draw(5)
			row := src.Draw(3) == 2 // one behind the other
			for i := 0; i < n; i++ {
				if row && i > 0 {
					if batch[i-1]+1 >= len(exp) {
						break
					}
					batch = append(batch, batch[i-1]+1)
					continue
				}
				batch = append(batch, src.Draw(len(exp)))
			}
			for i := src.Draw(5); i > 0; i-- {
				hashBatch = append(hashBatch, src.Draw(len(order)))
			}
		}
		if len(c.pending) > 0 {
			pendingHash = c.pending[src.Draw(len(c.pending))].Hash
			if _, known := latest[pendingHash]; known {
				pendingHash = ""
			}
		}
	}
	spoil := scheduled && src.Draw(2) == 1

	// what is answered
	var commits references.Commits
	var errCommits error
	keys := make([][]references.ContentKey, len(r.kinds))
	keyErrs := make([]error, len(r.kinds))
	reads := make([][]got, len(r.kinds))
	byHash := make([]got, len(order))
	fetched := make([]references.Commit, len(view))
	fetchErrs := make([]error, len(view))
	var all [][]byte
	var errAll error
	var allHash [][]byte
	var errAllHash error
	var errUnknown, errUnknownCommit, errUnknownKind, errPending, errMixed error
	var pointers []references.Pointer
	askedAll := false
	badFetch := ""
	res, ok := r.do(n, opObserve, fmt.Sprintf("reads everything in ctx%d", c.serial), func() {
		commits, errCommits = app.Commits(c.id)
		flat := map[string][]references.Pointer{}
		for i, k := range r.kinds {
			list, err := app.ContentKeysByKind(c.id, k)
			keyErrs[i] = err
			if err != nil || list == nil {
				continue
			}
			keys[i] = append([]references.ContentKey(nil), list.List()...)
			for j := len(keys[i]) - 1; j >= 0 && j >= len(keys[i])-3; j-- {
				// the last content of this kind under its hash
				key, err := list.Fetch(keys[i][j].Hash())
				later := false
				for _, x := range keys[i][j+1:] {
					later = later || string(x.Hash()) == string(keys[i][j].Hash())
				}
				if !later && (err != nil || key == nil || key.Content().From() != keys[i][j].Content().From()) {
					badFetch = fmt.Sprintf("the last content of kind %d under the hash %s is not the one found by it (%v)", k, short(string(keys[i][j].Hash())), err)
				}
			}
			for _, key := range keys[i] {
				data, err := app.Read(c.id, key.Content())
				reads[i] = append(reads[i], got{append([]byte(nil), data...), err})
				if spoil {
					for j := range data {
						data[j] ^= 0xff
					}
				}
				id := fmt.Sprintf("%d|%s", k, string(key.Commit()))
				flat[id] = append(flat[id], key.Content())
			}
		}
		for i, h := range order {
			data, err := app.ReadByHash(c.id, hash.Hash([]byte(h)))
			byHash[i] = got{append([]byte(nil), data...), err}
			if spoil {
				for j := range data {
					data[j] ^= 0xff
				}
			}
		}
		for i, id := range view {
			fetched[i], fetchErrs[i] = app.CommitByHash(c.id, hash.Hash([]byte(r.vcs[id].hash)))
		}
		_, errUnknown = app.ReadByHash(c.id, hash.Hash([]byte(unknown)))
		_, errUnknownCommit = app.CommitByHash(c.id, hash.Hash([]byte(unknownCommit)))
		_, errUnknownKind = app.ContentKeysByKind(c.id, 123456789)
		if pendingHash != "" {
			_, errPending = app.ReadByHash(c.id, hash.Hash([]byte(pendingHash)))
		}
		if len(batch) > 0 {
			// the pointers of these contents, by their place among those of
			// their kind and commit
			for _, i := range batch {
				place := 0
				for _, e := range exp[:i] {
					if e.item.Kind == exp[i].item.Kind && e.commit == exp[i].commit {
						place++
					}
				}
				l := flat[fmt.Sprintf("%d|%s", exp[i].item.Kind, exp[i].commit)]
				if place < len(l) {
					pointers = append(pointers, l[place])
				}
			}
			if len(pointers) == len(batch) {
				askedAll = true
				all, errAll = app.ReadAll(c.id, pointers)
				if spoil {
					all = own(all)
				}
			}
		}
		if len(hashBatch) > 0 {
			l := []hash.Hash{}
			for _, i := range hashBatch {
				l = append(l, hash.Hash([]byte(order[i])))
			}
			allHash, errAllHash = app.ReadAllByHashes(c.id, l)
			if spoil {
				allHash = own(allHash)
			}
			_, errMixed = app.ReadAllByHashes(c.id, append(l, hash.Hash([]byte(unknown))))
		}
	})
	if !ok {
		return
	}
	faulty := res.Faults > 0
	where := fmt.Sprintf("%s: ctx%d (id %d) of %q, which shows commits %v", n.label, c.serial, c.id, r.names[c.db], view)
	bad := func(kind string, props []string, format string, a ...interface{}) {
		r.fail(kind, props, "%s: %s", where, fmt.Sprintf(format, a...))
	}
	readFailed := func(what string, err error) {
		if !faulty {
			bad("read-error", dataProps, "%s failed: %s", what, err)
		}
	}

	// the commits
	if errCommits != nil || commits == nil {
		if len(view) > 0 && !faulty {
			bad("commits-error", linProps, "Commits failed: %v", errCommits)
			r.stop = true
			return
		}
	} else {
		list := commits.List()
		if len(list) != len(view) {
			bad("snapshot", linProps, "%d commits are listed", len(list))
			r.stop = true
			return
		}
		for i, x := range list {
			r.checkCommit(bad, i, r.vcs[view[i]], x)
		}
		if last := commits.Latest(); len(list) > 0 && (last == nil || string(last.Hash()) != r.vcs[view[len(view)-1]].hash) {
			bad("commit-latest", linProps, "the latest commit is not the last one of the list")
		}
	}
	for i, id := range view {
		if fetchErrs[i] != nil {
			readFailed("CommitByHash", fetchErrs[i])
			continue
		}
		if fetched[i] == nil {
			bad("commit-nil", dataProps, "CommitByHash returned nothing for commit %d", i)
			continue
		}
		r.checkCommit(bad, i, r.vcs[id], fetched[i])
	}

	// the contents of each kind
	for i, k := range r.kinds {
		want := []expected{}
		for _, e := range exp {
			if e.item.Kind == k {
				want = append(want, e)
			}
		}
		if keyErrs[i] != nil {
			if len(want) > 0 {
				readFailed(fmt.Sprintf("ContentKeysByKind(%d)", k), keyErrs[i])
			}
			continue
		}
		if len(keys[i]) != len(want) {
			bad("contents", dataProps, "%d contents of kind %d are listed, expected %d", len(keys[i]), k, len(want))
			continue
		}
		for j, key := range keys[i] {
			w := want[j]
			if string(key.Hash()) != w.item.Hash || key.Kind() != k {
				bad("content-order", dataProps, "content %d of kind %d has hash %s and kind %d, expected hash %s", j, k, short(string(key.Hash())), key.Kind(), short(w.item.Hash))
				continue
			}
			if string(key.Commit()) != w.commit {
				bad("content-commit", []string{"C10", "C03"}, "content %d of kind %d names the commit %s, expected %s", j, k, short(string(key.Commit())), short(w.commit))
			}
			if key.Content().Length() != uint(len(w.item.Data)) {
				bad("content-length", dataProps, "content %d of kind %d has %d bytes, expected %d", j, k, key.Content().Length(), len(w.item.Data))
			}
			g := reads[i][j]
			if g.err != nil {
				readFailed("Read", g.err)
			} else if !bytes.Equal(g.data, w.item.Data) {
				bad("content-bytes", dataProps, "Read of content %d of kind %d (hash %s): %s", j, k, short(w.item.Hash), diff(g.data, w.item.Data))
			}
		}
	}
	for i, h := range order {
		g := byHash[i]
		w := exp[latest[h]].item.Data
		if g.err != nil {
			readFailed("ReadByHash", g.err)
		} else if !bytes.Equal(g.data, w) {
			bad("hash-bytes", dataProps, "ReadByHash(%s): %s", short(h), diff(g.data, w))
		}
	}
	if askedAll {
		if errAll != nil {
			readFailed("ReadAll", errAll)
		} else if len(all) != len(batch) {
			bad("read-all", []string{"C03", "C04", "C07"}, "ReadAll returned %d contents, expected %d", len(all), len(batch))
		} else {
			for j, i := range batch {
				if !bytes.Equal(all[j], exp[i].item.Data) {
					bad("read-all", []string{"C03", "C04", "C07"}, "ReadAll, content %d of %d: %s", j, len(batch), diff(all[j], exp[i].item.Data))
				}
			}
		}
	}
	if len(hashBatch) > 0 {
		if errAllHash != nil {
			readFailed("ReadAllByHashes", errAllHash)
		} else if len(allHash) != len(hashBatch) {
			bad("read-all", []string{"C03", "C04", "C07"}, "ReadAllByHashes returned %d contents, expected %d", len(allHash), len(hashBatch))
		} else {
			for j, i := range hashBatch {
				w := exp[latest[order[i]]].item.Data
				if !bytes.Equal(allHash[j], w) {
					bad("read-all", []string{"C03", "C04", "C07"}, "ReadAllByHashes, content %d of %d: %s", j, len(hashBatch), diff(allHash[j], w))
				}
			}
		}
		if errMixed == nil {
			bad("unknown", []string{"C03"}, "ReadAllByHashes with an unknown hash succeeded")
		}
	}
	if badFetch != "" {
		bad("content-fetch", []string{"C03"}, "%s", badFetch)
	}
	if errUnknown == nil {
		bad("unknown", []string{"C03"}, "ReadByHash of an unknown hash succeeded")
	}
	if errUnknownCommit == nil {
		bad("unknown", []string{"C03"}, "CommitByHash of an unknown hash succeeded")
	}
	if errUnknownKind == nil {
		bad("unknown", []string{"C03"}, "ContentKeysByKind of an unknown kind succeeded")
	}
	if pendingHash != "" && errPending == nil {
		bad("pending-visible", []string{"C11", "C07", "C03"}, "the pending content %s can be read before Commit", short(pendingHash))
	}
}

func (r *Run) checkCommit(bad func(kind string, props []string, format string, a ...interface{}), i int, v *VC, x references.Commit) {
	if string(x.Hash()) != v.hash {
		bad("commit-list", linProps, "commit %d has hash %s, expected %s", i, short(string(x.Hash())), short(v.hash))
		return
	}
	parent := ""
	if x.HasParent() {
		if x.Parent() == nil {
			bad("chain", chainProps, "commit %d has a parent but does not give it", i)
			return
		}
		parent = string(*x.Parent())
	}
	if parent != v.parent {
		bad("chain", chainProps, "commit %d has parent %s, expected %s", i, short(parent), short(v.parent))
	}
	if x.CreatedOn().UnixNano() != v.at {
		bad("time", chainProps, "commit %d was created at %d, expected %d", i, x.CreatedOn().UnixNano(), v.at)
	}
	leaves := leavesOf(v.items)
	if string(x.Values().Head()) != merkle(leaves) {
		bad("tree", chainProps, "the hash tree of commit %d has head %s, expected %s", i, short(string(x.Values().Head())), short(merkle(leaves)))
	}
	gotLeaves := leavesIn(x.Values())
	same := len(gotLeaves) == len(leaves)
	for j := 0; same && j < len(leaves); j++ {
		same = gotLeaves[j] == leaves[j]
	}
	if !same {
		bad("tree", chainProps, "the hash tree of commit %d does not have the written hashes as leaves", i)
	}
	if x.HasMine() {
		bad("mine", chainProps, "commit %d has a proof of work although none was given", i)
	}
}

func diff(a, b []byte) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d bytes were returned, expected %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("byte %d of %d is %#x, expected %#x", i, len(a), a[i], b[i])
		}
	}
	return "equal"
}

// own does what the owner of results may do: it extends each of them, which
// does not change the other ones, and writes over them once they were copied.
func own(list [][]byte) [][]byte {
	for _, data := range list {
		n := cap(data) - len(data)
		if n > 64 {
			n = 64
		}
		for i := 0; i < n; i++ {
			data = append(data, 0xee)
		}
	}
	out := make([][]byte, len(list))
	for i, data := range list {
		out[i] = append([]byte(nil), data...)
	}
	for _, data := range list {
		for i := range data {
			data[i] ^= 0xff
		}
	}
	return out
}
