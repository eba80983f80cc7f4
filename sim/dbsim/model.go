//go:build go1.23

// Package dbsim runs the database engine on simulated machines and compares
// what it does with a small reference model.
package dbsim

import (
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Item is a content.
type Item struct {
	Hash string // 64 bytes
	Data []byte
	Kind uint
}

// VC is a commit of the model: what the database must show when it is there.
type VC struct {
	id     int
	hash   string
	parent string
	at     int64
	items  []Item
}

// Violation is a broken property.
type Violation struct {
	Props []string
	Kind  string
	Text  string
}

// Has tells whether the violation is one of a property.
func (v Violation) Has(prop string) bool {
	for _, p := range v.Props {
		if p == prop {
			return true
		}
	}
	return false
}

func sha(parts ...string) string {
	h := sha512.New()
	for _, p := range parts {
		h.Write([]byte(p))
	}
	return string(h.Sum(nil))
}

// leavesOf returns the leaves of the hash tree of the items.
func leavesOf(items []Item) []string {
	out := []string{}
	for _, it := range items {
		out = append(out, it.Hash)
	}
	for len(out) < 2 || len(out)&(len(out)-1) != 0 {
		out = append(out, sha(""))
	}
	return out
}

func merkle(leaves []string) string {
	for len(leaves) > 1 {
		up := make([]string, 0, len(leaves)/2)
		for i := 0; i+1 < len(leaves); i += 2 {
			up = append(up, sha(leaves[i], leaves[i+1]))
		}
		leaves = up
	}
	return leaves[0]
}

func commitHash(items []Item, at int64, parent string) string {
	return sha(merkle(leavesOf(items)), strconv.FormatInt(at, 10), parent)
}

func short(h string) string {
	x := hex.EncodeToString([]byte(h))
	if len(x) > 8 {
		x = x[:8]
	}
	return x
}

func sameView(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Event kinds.
const (
	evNew = iota
	evNewFail
	evDelete
	evDeleteFail
	evExists
	evAbsent
	evOpen
	evOpenFail
	evCommit
	evCommitFail
	evTried   = -1 // it changed nothing but may have been in the way
	evNothing = -2
)

var evNames = []string{"New", "New refused", "Delete", "Delete refused", "Exists true", "Exists false", "Open", "Open refused", "Commit", "Commit refused"}

const forever = 1 << 60

// Event is an operation on a database, as the history keeps it.
type Event struct {
	id       int
	db       int
	kind     int
	start    int
	end      int
	optional bool // it may have had its effect or none
	unacked  bool // it was not reported as done
	ctx      *Ctx
	cands    []int // commits that it may have added
	base     []int
	view     []int // what Open showed
	node     string
	touched  bool // a fault was injected into it, or it was cut
}

func (e *Event) name() string {
	if e.kind < 0 {
		return "attempt"
	}
	return evNames[e.kind]
}

func (e *Event) String() string {
	end := strconv.Itoa(e.end)
	if e.end == forever {
		end = "-"
	}
	s := fmt.Sprintf("[%d,%s] %s %s", e.start, end, e.node, e.name())
	switch e.kind {
	case evOpen:
		s += fmt.Sprintf(" ctx%d shows %v", e.ctx.serial, e.view)
	case evCommit:
		s += fmt.Sprintf(" ctx%d %v + one of %v", e.ctx.serial, e.base, e.cands)
	}
	if e.optional {
		s += " (failed or cut: optional)"
	}
	return s
}

// dbState is a state of the model of one database.
type dbState struct {
	present bool
	inc     int // which New made it
	list    []int
	ctxs    []ctxInc // incarnation that each open context belongs to
}

type ctxInc struct{ ctx, inc int }

func (s *dbState) key() string {
	var b strings.Builder
	if !s.present {
		b.WriteString("absent")
	} else {
		fmt.Fprintf(&b, "i%d%v", s.inc, s.list)
	}
	for _, c := range s.ctxs {
		fmt.Fprintf(&b, ";%d:%d", c.ctx, c.inc)
	}
	return b.String()
}

func (s *dbState) describe() string {
	if !s.present {
		return "absent"
	}
	return fmt.Sprintf("commits %v", s.list)
}

func (s *dbState) incOf(ctx int) int {
	for _, c := range s.ctxs {
		if c.ctx == ctx {
			return c.inc
		}
	}
	return -2
}

// apply returns the state after the event, or false if it is impossible here.
// A commit with several candidates returns several states.
func (e *Event) apply(s *dbState) []*dbState {
	switch e.kind {
	case evNew:
		if s.present {
			return nil
		}
		return []*dbState{{present: true, inc: e.id, ctxs: s.ctxs}}
	case evNewFail, evExists:
		if s.present {
			return []*dbState{s}
		}
	case evAbsent, evOpenFail, evDeleteFail:
		if !s.present {
			return []*dbState{s}
		}
	case evDelete:
		if s.present {
			return []*dbState{{ctxs: s.ctxs}}
		}
	case evOpen:
		if s.present && sameView(s.list, e.view) {
			if e.ctx == nil || e.ctx.commits == 0 {
				return []*dbState{s}
			}
			n := *s
			n.ctxs = append(append([]ctxInc(nil), s.ctxs...), ctxInc{e.ctx.serial, s.inc})
			return []*dbState{&n}
		}
	case evCommit:
		if s.present && sameView(s.list, e.base) && s.incOf(e.ctx.serial) == s.inc {
			out := []*dbState{}
			for _, c := range e.cands {
				n := *s
				n.list = append(append([]int(nil), s.list...), c)
				out = append(out, &n)
			}
			return out
		}
	}
	return nil
}

// linearize returns every state in which the events can end when each of them
// takes effect at one instant of its interval, and whether the search was cut.
func linearize(initial []*dbState, events []*Event) (finals []*dbState, cut bool) {
	evs := append([]*Event(nil), events...)
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].start < evs[j].start })
	n := len(evs)
	words := (n + 63) / 64
	seenFinal := map[string]bool{}
	memo := map[string]bool{}
	budget := 400000
	var rec func(done []uint64, first int, s *dbState)
	rec = func(done []uint64, first int, s *dbState) {
		for first < n && done[first/64]&(1<<(first%64)) != 0 {
			first++
		}
		if first >= n {
			k := s.key()
			if !seenFinal[k] {
				seenFinal[k] = true
				finals = append(finals, s)
			}
			return
		}
		if budget <= 0 {
			cut = true
			return
		}
		var kb strings.Builder
		for _, d := range done {
			kb.WriteString(strconv.FormatUint(d, 36))
			kb.WriteByte(',')
		}
		kb.WriteString(s.key())
		key := kb.String()
		if memo[key] {
			return
		}
		memo[key] = true
		budget--
		minEnd := forever
		for i := first; i < n && evs[i].start < minEnd; i++ {
			if done[i/64]&(1<<(i%64)) == 0 && evs[i].end < minEnd {
				minEnd = evs[i].end
			}
		}
		for i := first; i < n && evs[i].start <= minEnd; i++ {
			if done[i/64]&(1<<(i%64)) != 0 {
				continue
			}
			next := append([]uint64(nil), done...)
			next[i/64] |= 1 << (i % 64)
			for _, t := range evs[i].apply(s) {
				rec(next, first, t)
			}
			if evs[i].optional {
				rec(next, first, s)
			}
		}
	}
	for _, s := range initial {
		rec(make([]uint64, words), 0, s)
	}
	return finals, cut
}
