//go:build go1.23

package dbsim

import (
	"fmt"
	"sort"
	"strings"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
	"github.com/steve-care-software/rodkina/zz_verif/core"
)

// Ctx is an open context.
type Ctx struct {
	serial  int
	node    *Node
	db      int
	id      uint
	view    []int
	base    int // when the view was established
	pending []Item
	commits int // commit attempts
	retry   bool
	stale   bool
}

// Node is a process with an application.
type Node struct {
	idx      int
	inc      int
	proc     *core.Proc
	app      applications.Application
	ctxs     []*Ctx
	closed   []uint
	seen     map[uint]bool
	inflight *Event
	pool     []string // hashes it used
	dead     bool
	label    string
	settling bool // no more faults
}

// Config says what a run looks like.
type Config struct {
	Prop    string
	Nodes   [2]int
	DBs     [2]int
	Ops     [2]int
	Epochs  [2]int
	Weights [nOps]int
	Fault   []int // fault modes to pick from: see fm*
	FaultP  int   // targeted operations out of 1000
	CrashP  int   // operations cut by a crash out of 1000
	PowerP  int   // same for a power loss
	Clock   []int // clock policies to pick from
	Sizes   []int // size profiles to pick from
	Reserve bool  // names that look like the files of a commit
	CommitF bool  // faults and crashes hit commits mostly
	Damage  bool  // the files are damaged afterwards
}

// Extremes: what a run does first, without faults, so that it goes on with an
// unusual database.
const (
	exNone   = iota
	exLong   // more than 255 commits
	exWide   // a commit of more than 255 contents
	exHuge   // contents of megabytes
	exKinds  // more kinds than a byte can number
	exCycles // more contexts than a byte can number
	exNames  // many databases open at once
	nExtreme
)

// Fault modes.
const (
	fmNone = iota
	fmTarget
	fmBackground
	fmFull
)

// Operations.
const (
	opNew = iota
	opDelete
	opExists
	opOpen
	opClose
	opWrite
	opCancel
	opCommit
	opObserve
	opBad
	opDupOpen
	nOps
)

// Run is one simulated execution.
type Run struct {
	cfg        Config
	src        *core.Src
	w          *core.World
	dir        string
	simDir     string
	dst, bck   string
	mining     byte
	chunk      uint
	names      []string
	reserved   []bool
	folder     string // a directory among the databases
	vcs        []*VC
	vcIndex    map[string]int
	byHash     map[string][]int
	events     []*Event
	epochFirst int
	powerFirst int
	diskStates [][]*dbState // possible states per database after the last power loss
	states     [][]*dbState // possible states per database at the start of the epoch
	unknown    []bool
	nodes      []*Node
	known      []string // the hashes contents were written under
	kinds      []uint
	serial     int
	items      int
	fmode      int
	est        [nOps]int
	Violations []Violation
	Ops        int
	OpKinds    [nOps]int
	Commits    int
	FailedOps  int
	Cut        int
	Observed   int
	Crashes    int
	MaxList    int
	stop       bool
	crashed    bool
	budget     int
	bytes      int
	maxBytes   int
	sizeMode   int
	extreme    int
	light      bool
	old        []Item // some of the contents made
	Warmed     [nExtreme]int
	Damages    int
	Refused    int // damaged files that Open refused
	Accepted   int // and those it accepted
}

func (r *Run) fail(kind string, props []string, format string, a ...interface{}) {
	v := Violation{Props: props, Kind: kind, Text: fmt.Sprintf(format, a...)}
	r.w.Tracef("!! VIOLATION (%s) %s", kind, v.Text)
	r.Violations = append(r.Violations, v)
	if v.Has(r.cfg.Prop) || len(r.Violations) > 20 {
		r.stop = true
	}
}

var (
	allDB      = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"}
	linProps   = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"}
	dataProps  = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12"}
	chainProps = []string{"C10"}
	retryProps = []string{"C01", "C04", "C05", "C06", "C09", "C11"}
	leakProps  = []string{"C13"}
	lockProps  = []string{"C13", "C05"}
	idProps    = []string{"C09"}
)

// Execute makes and runs an execution.
func Execute(cfg Config, src *core.Src, tracing bool) *Run {
	w := core.NewWorld(src)
	w.Tracing = tracing
	r := &Run{cfg: cfg, src: src, w: w, vcIndex: map[string]int{}, byHash: map[string][]int{}}
	r.setup()
	w.Activate()
	defer w.Deactivate()
	epochs := src.Range(cfg.Epochs[0], cfg.Epochs[1])
	if r.extreme != exNone {
		r.warmUp()
	}
	for e := 0; e < epochs && !r.stop; e++ {
		r.epoch()
	}
	if cfg.Damage && !r.stop {
		r.damagePhase()
	}
	if !r.stop {
		r.settle()
	}
	return r
}

// World returns the machine of the run.
func (r *Run) World() *core.World { return r.w }

func (r *Run) setup() {
	src, w := r.src, r.w
	dirs := []string{"/simfs/data", "/simfs/data/", "/simfs/new", "/simfs/new/sub/dir", "data"}
	d := src.Draw(len(dirs))
	r.dir = dirs[d]
	r.simDir = strings.TrimSuffix(dirs[d], "/")
	if d == 4 {
		r.simDir = "/simfs/cwd/data"
	}
	if d < 2 {
		w.FS.MkdirAll(r.simDir)
	} else {
		w.FS.MkdirAll("/simfs")
	}
	if d < 2 && src.Chance(1, 4) {
		r.folder = "folder"
		w.FS.MkdirAll(r.simDir + "/" + r.folder)
	}
	ext := [][2]string{{"destination", "backup"}, {"dst", "bck"}, {"tmp", "old"}}[src.Draw(3)]
	r.dst, r.bck = ext[0], ext[1]
	r.mining = byte(src.Draw(4))
	chunks := []uint{1000000, 1, 2, 3, 5, 7, 8, 16, 31, 64, 100, 1000, 4096, 0}
	r.chunk = chunks[src.Draw(len(chunks))]
	n := src.Range(r.cfg.DBs[0], r.cfg.DBs[1])
	pool := []string{"db", "DB", "db.1", "other", "db ", "x", "db.1.x", ".hidden", "My db", "données", "other.backup.x", "Db"}
	at, stride := src.Draw(len(pool)), []int{1, 5, 7, 11}[src.Draw(4)]
	for i := 0; i < n; i++ {
		r.names = append(r.names, pool[(at+i*stride)%len(pool)])
		r.reserved = append(r.reserved, false)
	}
	if r.cfg.Reserve && src.Chance(1, 4) {
		x := []string{r.dst, r.bck, "lock"}[src.Draw(3)]
		r.names = append(r.names, r.names[0]+"."+x)
		r.reserved = append(r.reserved, true)
	}
	for range r.names {
		r.states = append(r.states, []*dbState{{}})
		r.diskStates = append(r.diskStates, []*dbState{{}})
		r.unknown = append(r.unknown, false)
	}
	r.kinds = []uint{0, 1, 2, 7, 1 << 40, ^uint(0)}
	r.sizeMode = r.cfg.Sizes[src.Draw(len(r.cfg.Sizes))]
	r.fmode = r.cfg.Fault[src.Draw(len(r.cfg.Fault))]
	w.ClockPol = r.cfg.Clock[src.Draw(len(r.cfg.Clock))]
	if w.ClockPol == 1 {
		w.Faults[core.FClockFrozen]++
	}
	w.SwitchN, w.SwitchD = 1, []int{8, 2, 3, 20, 60}[src.Draw(5)]
	if src.Chance(1, 3) {
		w.StallN = src.Range(1, 60)
	}
	w.Grain = []int64{1, 4_000_000, 1_000_000_000, 2_000_000_000}[src.Draw(4)]
	w.FS.ReuseInodes(src.Chance(1, 2))
	r.est = [nOps]int{opNew: 5, opDelete: 6, opExists: 1, opOpen: 5, opClose: 1, opCommit: 24, opObserve: 12}
	// the copies of a commit take 3 calls per chunk: bound them
	r.maxBytes = int(r.chunk) * 250
	if r.maxBytes > 60000 || r.chunk == 0 {
		r.maxBytes = 60000
	}
	if r.sizeMode == 3 {
		r.maxBytes = 400000
		if r.chunk < 1000 && r.chunk > 0 {
			r.chunk = 1000
		}
	}
	switch src.Draw(30) {
	case 1:
		w.Clock = int64(src.Draw(2000)) * 1_000_000 // the clock was never set
	case 2:
		w.Clock = 1<<31*1_000_000_000 - 2_000_000
	case 3:
		w.Clock = 9_000_000_000_000_000_000
	}
	if src.Chance(1, 60) {
		r.extreme = []int{exLong, exWide, exHuge, exKinds, exCycles, exNames, exWide, exHuge}[src.Draw(8)]
		if r.extreme != exHuge && r.chunk < 1000 {
			r.chunk = 4096
		}
		switch r.extreme {
		case exHuge:
			r.chunk = []uint{1000000, 1 << 16, 1 << 18, 99991}[src.Draw(4)]
		case exNames:
			for i := 0; i < 20; i++ {
				r.names = append(r.names, fmt.Sprintf("many%d", i))
				r.reserved = append(r.reserved, false)
				r.states = append(r.states, []*dbState{{}})
				r.diskStates = append(r.diskStates, []*dbState{{}})
				r.unknown = append(r.unknown, false)
			}
		}
	}
	w.Tracef("== machine: directory %q, extensions %q %q, read chunk size %d, mining value %d, databases %q, clock policy %d, fault mode %d, switch 1/%d, stalls %d/4000",
		r.dir, r.dst, r.bck, r.chunk, r.mining, r.names, w.ClockPol, r.fmode, w.SwitchD, w.StallN)
}

func (r *Run) newApp() applications.Application {
	return files.NewApplication(r.mining, r.dir, r.dst, r.bck, r.chunk)
}

func (r *Run) spawn(n *Node) {
	n.inc++
	n.app = nil
	n.ctxs = nil
	n.closed = nil
	n.seen = map[uint]bool{}
	n.inflight = nil
	n.settling = false
	n.label = fmt.Sprintf("node%d.%d", n.idx, n.inc)
	n.proc = r.w.Spawn(n.label, func(p *core.Proc) {
		n.app = r.newApp()
		for r.budget > 0 && !r.stop && !n.dead {
			r.budget--
			p.Boundary()
			r.step(n)
		}
		if !r.stop && !n.dead {
			r.nodeSettle(n)
		}
	})
}

// warmUp makes the unusual database.
func (r *Run) warmUp() {
	src := r.src
	r.Warmed[r.extreme]++
	r.epochFirst = len(r.events)
	r.crashed = false
	n := &Node{idx: 98, seen: map[uint]bool{}, label: "warm-up", settling: true}
	r.nodes = []*Node{n}
	stall := r.w.StallN
	r.w.StallN = 0
	n.proc = r.w.Spawn("warm-up", func(p *core.Proc) {
		n.app = r.newApp()
		gone := func() bool { return r.stop || n.dead }
		put := func(c *Ctx, it Item) {
			if !gone() {
				r.write(n, c, it)
			}
		}
		commit := func(c *Ctx) {
			if !gone() {
				r.opCommit(n, c)
			}
		}
		small := func() Item {
			mode := r.sizeMode
			r.sizeMode = 0
			it := r.makeItem(n, nil)
			r.sizeMode = mode
			return it
		}
		for db := range r.names {
			if r.reserved[db] {
				continue
			}
			r.opNew(n, db)
			if gone() {
				return
			}
			r.opOpen(n, db)
			if gone() {
				return
			}
			c := r.ctxOf(n, db)
			if c == nil {
				return // the history says so
			}
			switch r.extreme {
			case exLong:
				count := 250 + src.Draw(40)
				for i := 0; i < count && !gone(); i++ {
					r.light = i%50 != 49
					put(c, small())
					commit(c)
				}
				r.light = false
			case exWide:
				count := []int{127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 700}[src.Draw(11)]
				for i := 0; i < count; i++ {
					put(c, small())
				}
				commit(c)
				put(c, small())
				commit(c)
			case exKinds:
				kinds := r.kinds
				for i := 0; i < 300; i++ {
					r.kinds = append(r.kinds, uint(1000+i))
				}
				for i := 0; i < 300; i++ {
					it := small()
					it.Kind = uint(1000 + (i*7)%300)
					put(c, it)
					if i%100 == 99 {
						commit(c)
					}
				}
				commit(c)
				// ask for the new ones only from time to time
				if !gone() {
					r.verify(n, c, false)
				}
				r.kinds = append(kinds, 1000, 1000+255, 1000+256, 1299)
			case exHuge:
				for i := 1 + src.Draw(3); i > 0; i-- {
					size := []int{1 << 20, 1<<20 + 1, 1<<20 - 1, 1<<21 + 7, 3000001}[src.Draw(5)]
					if i == 1 && src.Chance(1, 6) {
						size = 1<<24 + src.Draw(3) - 1
					}
					it := r.makeItem(n, nil)
					it.Data = make([]byte, size)
					x := uint64(src.Draw(1 << 30))
					for j := range it.Data {
						if j%8 == 0 {
							x = x*6364136223846793005 + 1442695040888963407
						}
						it.Data[j] = byte(x >> (8 * (uint(j)%4 + 3)))
					}
					put(c, it)
					if src.Chance(1, 2) {
						put(c, small())
					}
					if src.Chance(1, 2) {
						commit(c)
					}
				}
				commit(c)
			case exCycles:
				for i := 0; i < 270 && !gone(); i++ {
					r.light = i%90 != 89
					r.opClose(n, c)
					if gone() {
						return
					}
					r.opOpen(n, db)
					if c = r.ctxOf(n, db); c == nil {
						return
					}
					if i%20 == 0 {
						put(c, small())
						commit(c)
					}
				}
				r.light = false
			case exNames:
				for i := src.Draw(3); i >= 0; i-- {
					put(c, small())
					commit(c)
				}
			}
			if gone() {
				return
			}
			if r.extreme != exNames && src.Chance(2, 3) {
				break
			}
		}
		for i := 0; i < 40 && !gone() && (r.extreme == exNames || r.extreme == exCycles); i++ {
			p.Boundary()
			r.step(n)
		}
		if !gone() {
			r.nodeSettle(n)
		}
	})
	r.w.Run()
	r.w.StallN = stall
	r.afterRun()
	r.bytes = 0
	if r.extreme == exLong || r.extreme == exCycles {
		r.est[opCommit] += 10
	}
}

func (r *Run) epoch() {
	w := r.w
	r.epochFirst = len(r.events)
	r.crashed = false
	count := r.src.Range(r.cfg.Nodes[0], r.cfg.Nodes[1])
	r.budget = r.src.Range(r.cfg.Ops[0], r.cfg.Ops[1])
	if r.extreme == exHuge && r.budget > 16 {
		r.budget = 16
	}
	r.nodes = nil
	for i := 0; i < count; i++ {
		n := &Node{idx: i}
		r.nodes = append(r.nodes, n)
		r.spawn(n)
	}
	w.OnDeath = func(p *core.Proc) {
		for _, n := range r.nodes {
			if n.proc != p || !p.Dead {
				continue
			}
			r.Crashes++
			r.crashed = true
			r.endInflight(n)
			n.ctxs = nil
			if !w.PowerOut && !w.Deadlock && r.budget > 0 && len(w.Procs) < 60 && !r.stop {
				r.spawn(n)
			}
		}
	}
	w.Run()
	w.OnDeath = nil
	r.afterRun()
}

func (r *Run) afterRun() {
	w := r.w
	if w.Deadlock && !r.stop {
		w.Deadlock = false
		r.fail("deadlock", allDB, "every process waits for a lock that nobody releases")
	}
	if r.stop {
		return
	}
	power := w.PowerOut
	r.linEpoch(power)
	if power && !r.stop {
		w.PowerLoss()
	}
}

// endInflight closes the operation that a crash cut.
func (r *Run) endInflight(n *Node) {
	e := n.inflight
	n.inflight = nil
	if e == nil {
		return
	}
	e.end = r.w.Step
	e.optional = true
	e.unacked = true
	e.touched = true
	if e.kind == evCommit {
		e.cands = r.candidates(e.ctx, n.proc.Reads)
	}
	if e.kind == evOpen {
		e.kind = evNothing
	}
}

func (r *Run) begin(n *Node, kind, db int, c *Ctx) *Event {
	r.w.Step++
	e := &Event{id: len(r.events), db: db, kind: kind, start: r.w.Step, end: forever, ctx: c, node: n.label}
	if c != nil {
		e.base = c.view
	}
	r.events = append(r.events, e)
	n.inflight = e
	return e
}

func (r *Run) done(n *Node, e *Event) {
	r.w.Step++
	e.end = r.w.Step
	n.inflight = nil
}

// intern returns the commit of the model for the items, the time and the
// parent.
func (r *Run) intern(items []Item, at int64, parent string) int {
	h := commitHash(items, at, parent)
	var b strings.Builder
	b.WriteString(h)
	for _, it := range items {
		fmt.Fprintf(&b, "|%s|%d|%x", it.Hash, it.Kind, it.Data)
	}
	k := sha(b.String())
	if id, ok := r.vcIndex[k]; ok {
		return id
	}
	v := &VC{id: len(r.vcs), hash: h, parent: parent, at: at, items: append([]Item(nil), items...)}
	r.vcs = append(r.vcs, v)
	r.vcIndex[k] = v.id
	r.byHash[h] = append(r.byHash[h], v.id)
	return v.id
}

func (r *Run) candidates(c *Ctx, clocks []int64) []int {
	parent := ""
	if len(c.view) > 0 {
		parent = r.vcs[c.view[len(c.view)-1]].hash
	}
	out := []int{}
	for i, t := range clocks {
		dup := false
		for _, u := range clocks[:i] {
			if u == t {
				dup = true
			}
		}
		if !dup {
			out = append(out, r.intern(c.pending, t, parent))
		}
	}
	return out
}

// arm prepares the faults and the crash of an operation.
func (r *Run) arm(n *Node, op int) {
	p := n.proc
	p.Plan, p.Ends, p.KillAt, p.PowerAt, p.Rate = nil, nil, -1, -1, 0
	if n.settling {
		return
	}
	src := r.src
	weight := 1
	if r.cfg.CommitF {
		switch op {
		case opCommit:
			weight = 4
		case opObserve, opBad, opExists:
			weight = 0
		}
	}
	pos := func() int {
		est := r.est[op] + 2
		if est > 40 && src.Draw(3) > 0 {
			// the interesting calls are at both ends
			if src.Draw(3) == 0 {
				return src.Draw(14)
			}
			return est - 1 - src.Draw(24)
		}
		return src.Draw(est)
	}
	class := func() (int, int) {
		c := 1 + src.Draw(core.NClasses-1)
		if src.Draw(2) == 0 {
			return c, src.Draw(2)
		}
		return c, src.Draw(8)
	}
	if r.cfg.CrashP > 0 && src.Chance(r.cfg.CrashP*weight, 1000) {
		p.KillAt = pos()
		if src.Draw(3) == 2 {
			p.KillAt = -1
			class, at := class()
			p.Ends = &core.EndPlan{Class: class, At: at, After: src.Draw(2) == 1}
		}
	}
	if r.cfg.PowerP > 0 && src.Chance(r.cfg.PowerP*weight, 1000) {
		p.PowerAt = pos()
		if src.Draw(3) == 2 {
			p.PowerAt = -1
			class, at := class()
			p.Ends = &core.EndPlan{Class: class, At: at, After: src.Draw(2) == 1, Power: true}
		}
	}
	switch r.fmode {
	case fmTarget:
		if src.Chance(r.cfg.FaultP*weight, 1000) {
			plan := &core.FaultPlan{At: pos(), Count: 1}
			if src.Draw(3) == 2 {
				plan.Class, plan.At = class()
			}
			switch src.Draw(6) {
			case 4:
				plan.Count = 2 + src.Draw(4)
			case 5:
				plan.Count = -1
			}
			p.Plan = plan
			if r.cfg.CrashP+r.cfg.PowerP > 0 && src.Draw(3) == 2 {
				// and what is done about the fault is cut short
				end := &core.EndPlan{Fault: true, At: src.Draw(16)}
				end.Power = src.Draw(r.cfg.CrashP+r.cfg.PowerP) >= r.cfg.CrashP
				p.Ends, p.KillAt, p.PowerAt = end, -1, -1
			}
		}
	case fmBackground:
		p.Rate = r.cfg.FaultP / 4
	case fmFull:
		if (op == opCommit || op == opNew) && src.Chance(r.cfg.FaultP*weight, 1000) {
			p.Plan = &core.FaultPlan{At: pos(), Full: true}
		}
	}
}

// do runs an operation of the application and the checks that hold for all.
// It returns false when the process cannot go on.
func (r *Run) do(n *Node, op int, label string, fn func()) (core.Result, bool) {
	r.arm(n, op)
	p := n.proc
	res := p.Op(label, fn)
	p.Plan, p.Ends, p.KillAt, p.PowerAt, p.Rate = nil, nil, -1, -1, 0
	r.Ops++
	r.OpKinds[op]++
	if res.Calls > 0 && !p.Exclude && res.Faults == 0 {
		r.est[op] = res.Calls
	}
	if res.Faults > 0 {
		r.FailedOps++
	}
	if res.Panic != "" {
		r.fail("panic", allDB, "%s: %s panicked: %s", n.label, label, firstLines(res.Panic, 12))
		n.dead = true
		r.stop = true
		return res, false
	}
	if res.Hang {
		r.fail("hang", allDB, "%s: %s did not end after %d system calls", n.label, label, res.Calls)
		n.dead = true
		r.stop = true
		return res, false
	}
	r.w.Tracef("[%s] done: %d system calls, %d faults", n.label, res.Calls, res.Faults)
	return res, true
}

// leaks is checked after each operation, once the list of contexts is up to
// date.
func (r *Run) leaks(n *Node, label string) {
	p := n.proc
	if l := p.Locks(); l > 0 {
		r.fail("lock", lockProps, "%s: %d locks are still held after %s", n.label, l, label)
	}
	if len(p.Foreign) > 0 {
		r.fail("descriptors", leakProps, "%s: %s closed the descriptor %d, which it never opened", n.label, label, p.Foreign[0])
	}
	if f := p.FDs(); len(f) > 2*len(n.ctxs) {
		r.fail("descriptors", leakProps, "%s: %d descriptors are open after %s although %d contexts are: %v", n.label, len(f), label, len(n.ctxs), p.FDPaths())
	}
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// quiet runs something without faults and without other processes.
func (r *Run) quiet(n *Node, fn func()) {
	p := n.proc
	was, s := p.Exclude, n.settling
	p.Exclude, n.settling = true, true
	fn()
	p.Exclude, n.settling = was, s
}

func (r *Run) ctxOf(n *Node, db int) *Ctx {
	for _, c := range n.ctxs {
		if c.db == db {
			return c
		}
	}
	return nil
}

func (r *Run) step(n *Node) {
	src := r.src
	src.Mark()
	w := r.cfg.Weights
	if len(n.ctxs) == 0 {
		w[opClose], w[opWrite], w[opCancel], w[opCommit], w[opObserve], w[opDupOpen] = 0, 0, 0, 0, 0, 0
		w[opOpen] *= 3
	}
	op := src.Pick(w[:])
	db := src.Draw(len(r.names))
	var c *Ctx
	if len(n.ctxs) > 0 {
		c = n.ctxs[src.Draw(len(n.ctxs))]
	}
	switch op {
	case opNew:
		r.opNew(n, db)
	case opDelete:
		r.opDelete(n, db)
	case opExists:
		r.opExists(n, db)
	case opOpen:
		r.opOpen(n, db)
	case opClose:
		r.opClose(n, c)
	case opWrite:
		count := 1 + src.Draw(3)
		if src.Chance(1, 12) {
			count = src.Range(4, 12)
		}
		for i := 0; i < count && !r.stop; i++ {
			r.opWrite(n, c)
		}
	case opCancel:
		r.opCancel(n, c)
	case opCommit:
		if len(c.pending) == 0 && !src.Chance(1, 10) {
			r.opWrite(n, c)
		}
		if !r.stop {
			r.opCommit(n, c)
		}
	case opObserve:
		r.opObserve(n, c)
	case opBad:
		r.opBad(n)
	case opDupOpen:
		r.opOpen(n, c.db)
	}
	if src.Chance(1, 400) && r.cfg.CrashP > 0 && !r.stop {
		n.proc.Die()
	}
	power := 1
	if n.proc.OpFaults > 0 {
		power = 60
	}
	if src.Chance(power, 400) && r.cfg.PowerP > 0 && !r.stop {
		n.proc.PowerOff()
	}
}

func (r *Run) opNew(n *Node, db int) {
	e := r.begin(n, evNew, db, nil)
	var err error
	res, ok := r.do(n, opNew, fmt.Sprintf("New(%q)", r.names[db]), func() { err = n.app.New(r.names[db]) })
	r.done(n, e)
	r.outcome(n, err)
	if !ok {
		return
	}
	e.touched = res.Faults > 0
	if err != nil {
		if res.Faults > 0 {
			e.optional, e.unacked = true, true
		} else if r.reserved[db] {
			e.kind = evNothing
		} else {
			e.kind = evNewFail
		}
	}
	r.leaks(n, "New")
}

func (r *Run) outcome(n *Node, err error) {
	if r.w.Tracing {
		if err != nil {
			r.w.Tracef("[%s] -> error: %s", n.label, err.Error())
		} else {
			r.w.Tracef("[%s] -> ok", n.label)
		}
	}
}

func (r *Run) opDelete(n *Node, db int) {
	e := r.begin(n, evDelete, db, nil)
	var err error
	res, ok := r.do(n, opDelete, fmt.Sprintf("Delete(%q)", r.names[db]), func() { err = n.app.Delete(r.names[db]) })
	r.done(n, e)
	r.outcome(n, err)
	if !ok {
		return
	}
	e.touched = res.Faults > 0
	if err != nil {
		if res.Faults > 0 {
			e.optional, e.unacked = true, true
		} else {
			e.kind = evDeleteFail
			// a commit or another delete in progress may refuse it
			if r.overlaps(e, evCommit, evDelete) {
				e.kind = evTried
			}
		}
	}
	r.leaks(n, "Delete")
}

// overlaps tells whether an operation of these kinds ran at the same time.
func (r *Run) overlaps(e *Event, kinds ...int) bool {
	for _, o := range r.events[r.epochFirst:] {
		if o == e || o.db != e.db || o.end < e.start || o.start > e.end {
			continue
		}
		for _, k := range kinds {
			if o.kind == k || o.kind == evCommitFail && k == evCommit || o.kind == evDeleteFail && k == evDelete {
				return true
			}
			if o.kind == evTried && o.end >= e.start {
				return true
			}
		}
	}
	return false
}

func (r *Run) opExists(n *Node, db int) {
	e := r.begin(n, evNothing, db, nil)
	var err error
	var yes bool
	res, ok := r.do(n, opExists, fmt.Sprintf("Exists(%q)", r.names[db]), func() { yes, err = n.app.Exists(r.names[db]) })
	r.done(n, e)
	r.outcome(n, err)
	if !ok {
		return
	}
	r.w.Tracef("[%s] exists: %v", n.label, yes)
	switch {
	case err != nil && res.Faults == 0:
		r.fail("exists-error", []string{"C04", "C05", "C08"}, "%s: Exists(%q) failed although nothing was wrong: %s", n.label, r.names[db], err)
	case err != nil:
	case yes:
		e.kind = evExists
	default:
		e.kind = evAbsent
	}
	r.leaks(n, "Exists")
}

func (r *Run) opOpen(n *Node, db int) {
	dup := r.ctxOf(n, db)
	e := r.begin(n, evOpen, db, nil)
	var err error
	var pID *uint
	op := opOpen
	if dup != nil {
		op = opDupOpen
	}
	res, ok := r.do(n, op, fmt.Sprintf("Open(%q)", r.names[db]), func() { pID, err = n.app.Open(r.names[db]) })
	r.done(n, e)
	r.outcome(n, err)
	if !ok {
		return
	}
	if dup != nil {
		e.kind = evNothing
		if err == nil {
			r.fail("dup-open", idProps, "%s: Open(%q) succeeded although the name is already open as context %d", n.label, r.names[db], dup.id)
			r.stop = true
			return
		}
		r.leaks(n, "a refused Open")
		return
	}
	if err != nil {
		e.kind = evOpenFail
		if res.Faults > 0 {
			e.kind = evNothing
		} else if r.reserved[db] {
			e.kind = evNothing
		}
		r.leaks(n, "a failed Open")
		return
	}
	if pID == nil {
		r.fail("open-nil", idProps, "%s: Open(%q) returned neither a context nor an error", n.label, r.names[db])
		r.stop = true
		return
	}
	if n.seen[*pID] {
		r.fail("reused-id", idProps, "%s: Open(%q) returned the identifier %d, which belonged to another context before", n.label, r.names[db], *pID)
	}
	n.seen[*pID] = true
	r.serial++
	c := &Ctx{serial: r.serial, node: n, db: db, id: *pID, base: e.start}
	n.ctxs = append(n.ctxs, c)
	e.ctx = c
	r.quiet(n, func() {
		view, ok := r.readView(n, c)
		if !ok {
			e.kind = evNothing
			return
		}
		c.view = view
		e.view = view
		r.verify(n, c, false)
	})
	r.w.Tracef("[%s] ctx%d (id %d) of %q shows commits %v", n.label, c.serial, c.id, r.names[db], c.view)
	r.leaks(n, "Open")
}

func (r *Run) dropCtx(n *Node, c *Ctx) {
	out := []*Ctx{}
	for _, o := range n.ctxs {
		if o != c {
			out = append(out, o)
		}
	}
	n.ctxs = out
	n.closed = append(n.closed, c.id)
}

func (r *Run) opClose(n *Node, c *Ctx) {
	var err error
	res, ok := r.do(n, opClose, fmt.Sprintf("Close(ctx%d)", c.serial), func() { err = n.app.Close(c.id) })
	r.outcome(n, err)
	if !ok {
		return
	}
	if err != nil {
		if res.Faults == 0 {
			r.fail("close", []string{"C05", "C09", "C13"}, "%s: Close of the open context %d failed although nothing was wrong: %s", n.label, c.id, err)
		} else {
			// it may still be open: then it can be closed now
			r.quiet(n, func() {
				r.do(n, opClose, fmt.Sprintf("Close(ctx%d) again", c.serial), func() { n.app.Close(c.id) })
			})
		}
	}
	r.dropCtx(n, c)
	r.leaks(n, "Close")
	if len(n.ctxs) == 0 && len(n.proc.FDs()) > 0 {
		r.fail("descriptors", leakProps, "%s: every context is closed but %v is still open", n.label, n.proc.FDPaths())
	}
}

func (r *Run) makeItem(n *Node, c *Ctx) Item {
	src := r.src
	r.items++
	it := Item{Kind: r.kinds[src.Draw(len(r.kinds))]}
	room := r.maxBytes - r.bytes
	if room < 8 {
		room = 8
	}
	size := 0
	chunk := int(r.chunk)
	switch r.sizeMode {
	case 0:
		size = 1 + src.Draw(40)
	case 1:
		if chunk > 4096 {
			chunk = 64
		}
		size = chunk*src.Draw(4) + src.Draw(3) - 1
	case 2:
		size = 1 + src.Draw(600)
	case 3:
		size = []int{30, 1000, 4096, 32768, 32769, 65536, 100000}[src.Draw(7)] + src.Draw(2)
	}
	if size < 1 {
		size = 1
	}
	if size > room {
		size = 1 + src.Draw(room)
	}
	reuse := len(n.pool) > 0 && src.Chance(1, 5)
	if reuse && size < 6 {
		size += 6
	}
	if len(r.old) > 0 && src.Chance(1, 12) {
		// what was written before is written again
		o := r.old[src.Draw(len(r.old))]
		it.Data = append([]byte(nil), o.Data...)
		it.Hash = o.Hash
		switch src.Draw(3) {
		case 0:
			it.Kind = o.Kind
		case 1:
			it.Hash = sha(fmt.Sprintf("hash %d", r.items))
			n.pool = append(n.pool, it.Hash)
			r.known = append(r.known, it.Hash)
		}
		r.bytes += len(it.Data)
		return it
	}
	seed := uint64(src.Draw(1<<30)) | uint64(r.items)<<32
	if reuse {
		it.Hash = n.pool[src.Draw(len(n.pool))]
	} else {
		it.Hash = sha(fmt.Sprintf("hash %d %d", r.items, seed))
		if src.Chance(1, 6) {
			it.Hash = r.alike(it.Hash)
		}
		n.pool = append(n.pool, it.Hash)
		r.known = append(r.known, it.Hash)
	}
	it.Data = make([]byte, size)
	x := seed
	style := src.Draw(8)
	for i := range it.Data {
		if i%8 == 0 {
			x = core.Mix(x, uint64(i))
		}
		it.Data[i] = byte(x >> (8 * (uint(i) % 8)))
	}
	if style == 1 {
		for i := range it.Data[:size*3/4] {
			it.Data[i] = 0
		}
	}
	r.bytes += size
	if len(r.old) < 8 && size <= 5000 {
		r.old = append(r.old, it)
	}
	return it
}

// alike returns a hash that is not h, but hard to tell from one that is used
// or from nothing; it is h if there is none.
func (r *Run) alike(h string) string {
	src := r.src
	out := []byte(h)
	if len(r.known) > 0 && src.Chance(3, 4) {
		// one byte, or one half, differs from another hash
		out = []byte(r.known[src.Draw(len(r.known))])
		switch src.Draw(4) {
		case 0:
			copy(out[32:], h[32:])
		case 1:
			copy(out[:32], h[:32])
		default:
			at := []int{0, 1, 7, 8, 15, 16, 31, 32, 47, 62, 63}[src.Draw(11)]
			out[at] ^= 1 << uint(src.Draw(8))
		}
	} else {
		// mostly zeros, or bytes which are no text
		fill := []byte{0, 0xff, 0xc0, ' ', 'a'}[src.Draw(5)]
		for i := range out {
			out[i] = fill
		}
		out[63*src.Draw(2)] = byte(src.Draw(256))
	}
	for _, k := range r.known {
		if k == string(out) {
			return h
		}
	}
	return string(out)
}

func (r *Run) opWrite(n *Node, c *Ctx) {
	src := r.src
	if src.Chance(1, 40) {
		r.badWrite(n, c)
		return
	}
	r.writeItem(n, c)
}

func (r *Run) writeItem(n *Node, c *Ctx) {
	r.write(n, c, r.makeItem(n, c))
}

func (r *Run) write(n *Node, c *Ctx, it Item) {
	src := r.src
	h := hash.Hash([]byte(it.Hash))
	data := append([]byte(nil), it.Data...)
	var err error
	_, ok := r.do(n, opWrite, fmt.Sprintf("Write(ctx%d, %s, %d bytes, kind %d)", c.serial, short(it.Hash), len(data), it.Kind), func() { err = n.app.Write(c.id, h, data, it.Kind) })
	r.outcome(n, err)
	if !ok {
		return
	}
	if err != nil {
		r.fail("write", []string{"C03", "C09", "C11"}, "%s: Write of %d bytes on the open context %d failed: %s", n.label, len(data), c.id, err)
		return
	}
	c.pending = append(c.pending, it)
	if src.Chance(1, 2) {
		// the caller uses its buffers again
		for i := range data {
			data[i] ^= 0xa5
		}
		for i := range h {
			h[i] ^= 0x5a
		}
	}
}

// badWrite writes what cannot be written.
func (r *Run) badWrite(n *Node, c *Ctx) {
	var err error
	h := hash.Hash([]byte(sha("x")))
	data := []byte("some data")
	what := "no data"
	switch r.src.Draw(3) {
	case 0:
		data = nil
	case 1:
		data = []byte{}
	case 2:
		h = h[:r.src.Draw(64)]
		what = "a hash of the wrong size"
	}
	_, ok := r.do(n, opWrite, fmt.Sprintf("Write(ctx%d) with %s", c.serial, what), func() { err = n.app.Write(c.id, h, data, 1) })
	r.outcome(n, err)
	if ok && err == nil {
		r.fail("bad-write", []string{"C03", "C11"}, "%s: Write with %s succeeded", n.label, what)
	}
}

func (r *Run) opCancel(n *Node, c *Ctx) {
	var err error
	_, ok := r.do(n, opCancel, fmt.Sprintf("Cancel(ctx%d)", c.serial), func() { err = n.app.Cancel(c.id) })
	r.outcome(n, err)
	if !ok {
		return
	}
	if err != nil {
		r.fail("cancel", []string{"C09", "C11"}, "%s: Cancel of the open context %d failed: %s", n.label, c.id, err)
		return
	}
	c.pending = nil
	c.retry = false
}

// excuse tells whether another operation justifies that a commit was refused.
func (r *Run) excuse(e *Event) *Event {
	for _, o := range r.events[r.epochFirst:] {
		if o == e || o.db != e.db || o.end < e.ctx.base || (o.ctx == e.ctx && o.kind != evOpen) {
			continue
		}
		overlap := o.end >= e.start
		switch o.kind {
		case evNew, evDelete, evCommit:
			return o
		case evNewFail, evDeleteFail, evCommitFail, evTried:
			if overlap {
				return o
			}
		}
	}
	return nil
}

func (r *Run) opCommit(n *Node, c *Ctx) {
	if len(c.pending) == 0 {
		r.emptyCommit(n, c)
		return
	}
	c.commits++
	r.Commits++
	e := r.begin(n, evCommit, c.db, c)
	before := r.copies(c.db)
	var err error
	res, ok := r.do(n, opCommit, fmt.Sprintf("Commit(ctx%d) of %d contents on %v", c.serial, len(c.pending), c.view), func() { err = n.app.Commit(c.id) })
	r.done(n, e)
	r.outcome(n, err)
	if !ok {
		e.kind = evNothing
		return
	}
	e.touched = res.Faults > 0
	e.cands = r.candidates(c, res.Clocks)
	old := c.view
	if err == nil {
		if len(e.cands) == 0 {
			e.kind = evNothing
			r.fail("no-clock", chainProps, "%s: Commit did not ask for the time", n.label)
			r.stop = true
			return
		}
		r.quiet(n, func() {
			view, ok := r.readView(n, c)
			if !ok {
				e.kind = evNothing
				return
			}
			if len(view) != len(old)+1 || !sameView(view[:len(old)], old) || !contains(e.cands, view[len(old)]) {
				r.fail("commit-view", linProps, "%s: after Commit the context shows commits %v, expected %v and one of %v", n.label, view, old, e.cands)
				r.stop = true
				return
			}
			e.cands = []int{view[len(old)]}
			c.view = view
			c.base = e.start
			c.pending = nil
			c.retry = false
			r.verify(n, c, false)
		})
		if r.stop {
			return
		}
		if len(c.view) > r.MaxList {
			r.MaxList = len(c.view)
		}
		r.leaks(n, "Commit")
		r.leftovers(n, e, res, nil)
		return
	}

	// it failed: the context shows what it showed, or that and the commit
	var applied bool
	r.quiet(n, func() {
		view, ok := r.readView(n, c)
		if !ok {
			return
		}
		switch {
		case sameView(view, old):
		case res.Faults > 0 && len(view) == len(old)+1 && sameView(view[:len(old)], old) && contains(e.cands, view[len(old)]):
			applied = true
			e.cands = []int{view[len(old)]}
			c.view = view
			c.base = e.start
			c.pending = nil
			c.retry = false
		default:
			r.fail("commit-view", linProps, "%s: after the failed Commit the context shows commits %v, expected %v", n.label, view, old)
			r.stop = true
			return
		}
		r.verify(n, c, false)
	})
	if r.stop {
		return
	}
	r.leaks(n, "a failed Commit")
	r.leftovers(n, e, res, before)
	if res.Faults > 0 {
		e.optional, e.unacked = true, true
		if applied {
			return
		}
		c.retry = true
		if r.src.Chance(1, 2) {
			// the faults stop: the same commit must be possible
			n.settling = true
			r.opCommit(n, c)
			n.settling = false
		}
		return
	}
	e.kind = evCommitFail
	if o := r.excuse(e); o == nil {
		kind := "commit-refused"
		r.fail(kind, retryProps, "%s: Commit failed (%s) although nothing was wrong and no other process changed %q since the context was opened", n.label, err, r.names[c.db])
	} else {
		r.w.Tracef("[%s] the commit may be refused because of: %s", n.label, o)
		c.stale = true
	}
}

func contains(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (r *Run) emptyCommit(n *Node, c *Ctx) {
	var err error
	_, ok := r.do(n, opCommit, fmt.Sprintf("Commit(ctx%d) of nothing", c.serial), func() { err = n.app.Commit(c.id) })
	r.outcome(n, err)
	if !ok {
		return
	}
	r.quiet(n, func() {
		view, ok := r.readView(n, c)
		if ok && !sameView(view, c.view) {
			r.fail("empty-commit", []string{"C09", "C11"}, "%s: Commit without pending content changed what the context shows from %v to %v", n.label, c.view, view)
			r.stop = true
		}
	})
	r.leaks(n, "an empty Commit")
}

// copies lists the files of a database, without itself, that have bytes.
func (r *Run) copies(db int) map[string]int {
	out := map[string]int{}
	for _, f := range r.w.FS.List(r.simDir) {
		if r.owner(f) != db || f == r.names[db] {
			continue
		}
		if data, ok := r.w.FS.GetFile(r.simDir + "/" + f); ok && len(data) > 0 {
			out[f] = len(data)
		}
	}
	return out
}

// leftovers looks for copies of the data after a commit: none remains when it
// succeeded, no new one when it failed, unless it could not remove them.
func (r *Run) leftovers(n *Node, e *Event, res core.Result, before map[string]int) {
	what := "successful"
	if before != nil {
		what = "failed"
	} else if e.touched {
		return
	}
	if res.NoRemove > 0 {
		return
	}
	for _, o := range r.events[r.epochFirst:] {
		if o != e && o.db == e.db && o.end >= e.start && o.kind != evExists && o.kind != evOpen {
			return
		}
	}
	left := r.copies(e.db)
	for _, f := range r.w.FS.List(r.simDir) {
		if left[f] > 0 && before[f] == 0 {
			r.fail("leftover", leakProps, "%s: after a %s Commit on %q the file %q remains, with %d bytes", n.label, what, r.names[e.db], f, left[f])
			return
		}
	}
}

// owner returns the database to which a file belongs, by its name.
func (r *Run) owner(file string) int {
	best, size := -1, -1
	for i, name := range r.names {
		if (file == name || strings.HasPrefix(file, name+".")) && len(name) > size && !r.reserved[i] {
			best, size = i, len(name)
		}
	}
	return best
}

func (r *Run) opObserve(n *Node, c *Ctx) {
	r.Observed++
	r.verify(n, c, true)
	r.leaks(n, "reading")
}

// opFolder uses the name of a directory: it is not a database.
func (r *Run) opFolder(n *Node) {
	which := r.src.Draw(4)
	names := []string{"Delete", "Exists", "New", "Open"}
	var err error
	yes := true
	_, ok := r.do(n, opBad, fmt.Sprintf("%s(%q), which is a directory", names[which], r.folder), func() {
		switch which {
		case 0:
			err = n.app.Delete(r.folder)
		case 1:
			yes, err = n.app.Exists(r.folder)
		case 2:
			err = n.app.New(r.folder)
		case 3:
			_, err = n.app.Open(r.folder)
		}
	})
	r.outcome(n, err)
	if !ok {
		return
	}
	if err == nil && yes {
		r.fail("directory", []string{"C08"}, "%s: %s took the directory %q for a database", n.label, names[which], r.folder)
	}
	if node := r.w.FS.Lookup(r.simDir + "/" + r.folder); node == nil || !node.Dir {
		r.fail("directory", []string{"C08"}, "%s: %s removed the directory %q", n.label, names[which], r.folder)
	}
	r.leaks(n, "a refused operation")
}

// opBad uses identifiers that are not open: everything must be refused.
func (r *Run) opBad(n *Node) {
	src := r.src
	if r.folder != "" && src.Chance(1, 3) {
		r.opFolder(n)
		return
	}
	var id uint
	if len(n.closed) > 0 && src.Chance(2, 3) {
		id = n.closed[src.Draw(len(n.closed))]
	} else {
		id = uint(len(n.seen)) + []uint{0, 1, 5, 1 << 40, ^uint(0) - uint(len(n.seen))}[src.Draw(5)]
	}
	for _, c := range n.ctxs {
		if c.id == id {
			return
		}
	}
	which := src.Draw(10)
	h := hash.Hash([]byte(sha("nothing")))
	ptr, _ := references.NewPointerBuilder().Create().From(0).WithLength(1).Now()
	var err error
	names := []string{"Commit", "Cancel", "Close", "Write", "Commits", "ContentKeysByKind", "CommitByHash", "Read", "ReadByHash", "ReadAll"}
	_, ok := r.do(n, opBad, fmt.Sprintf("%s on identifier %d, which is not open", names[which], id), func() {
		switch which {
		case 0:
			err = n.app.Commit(id)
		case 1:
			err = n.app.Cancel(id)
		case 2:
			err = n.app.Close(id)
		case 3:
			err = n.app.Write(id, h, []byte("data"), 1)
		case 4:
			_, err = n.app.Commits(id)
		case 5:
			_, err = n.app.ContentKeysByKind(id, 1)
		case 6:
			_, err = n.app.CommitByHash(id, h)
		case 7:
			_, err = n.app.Read(id, ptr)
		case 8:
			_, err = n.app.ReadByHash(id, h)
		case 9:
			_, err = n.app.ReadAll(id, []references.Pointer{ptr})
		}
	})
	r.outcome(n, err)
	if !ok {
		return
	}
	if err == nil {
		r.fail("bad-id", idProps, "%s: %s on the identifier %d, which is not open, succeeded", n.label, names[which], id)
	}
	r.leaks(n, "a refused operation")
}

// nodeSettle ends a process properly, without faults.
func (r *Run) nodeSettle(n *Node) {
	p := n.proc
	n.settling = true
	for _, c := range append([]*Ctx(nil), n.ctxs...) {
		p.Boundary()
		r.verify(n, c, true)
		if r.stop {
			break
		}
		if len(c.pending) > 0 && (c.retry || r.src.Chance(1, 2)) {
			r.opCommit(n, c)
		}
		if r.stop {
			break
		}
		r.opClose(n, c)
		if r.stop {
			break
		}
	}
}

// settle ends the run: with the faults stopped, everything works.
func (r *Run) settle() {
	w := r.w
	r.epochFirst = len(r.events)
	r.crashed = false
	n := &Node{idx: 99, seen: map[uint]bool{}, label: "settle", settling: true}
	r.nodes = []*Node{n}
	w.StallN = 0
	n.proc = w.Spawn("settle", func(p *core.Proc) {
		n.app = r.newApp()
		for db := range r.names {
			r.opExists(n, db)
			if r.stop || n.dead {
				return
			}
			if r.reserved[db] {
				continue
			}
			exists := r.events[len(r.events)-1].kind == evExists
			if !exists {
				r.opNew(n, db)
				if r.stop || n.dead {
					return
				}
			}
			r.opOpen(n, db)
			if r.stop || n.dead {
				return
			}
			c := r.ctxOf(n, db)
			if c == nil {
				continue // the history says so
			}
			r.writeItem(n, c)
			if r.stop || n.dead {
				return
			}
			r.opCommit(n, c)
			if r.stop || n.dead {
				return
			}
			r.verify(n, c, true)
			if r.stop || n.dead {
				return
			}
		}
		for _, c := range append([]*Ctx(nil), n.ctxs...) {
			r.opClose(n, c)
		}
		if r.stop || n.dead {
			return
		}
		if len(p.FDs()) > 0 {
			r.fail("descriptors", leakProps, "every context is closed but %v is still open", p.FDPaths())
		}
	})
	w.Run()
	r.afterRun()
	if r.stop {
		return
	}
	for _, dir := range []string{r.simDir, "/simfs", "/simfs/cwd", "/tmp"} {
		names := append([]string(nil), w.FS.List(dir)...)
		sort.Strings(names)
		for _, f := range names {
			isDB := false
			for _, name := range r.names {
				if dir == r.simDir && f == name {
					isDB = true
				}
			}
			if data, ok := w.FS.GetFile(dir + "/" + f); ok && len(data) > 0 && !isDB {
				r.fail("leftover", leakProps, "after every database was committed the file %s/%s remains, with %d bytes", dir, f, len(data))
			}
		}
	}
}

// linEpoch checks the history of each database and computes the states in
// which the next epoch can start.
func (r *Run) linEpoch(power bool) {
	evs := r.events[r.epochFirst:]
	var old []*Event
	if power {
		old = r.events[r.powerFirst:r.epochFirst]
		r.powerFirst = len(r.events)
	}
	for db := range r.names {
		list := []*Event{}
		durable := []*Event{}
		keep := func(e *Event) {
			if e.kind == evNew || e.kind == evDelete || e.kind == evCommit || (e.kind == evOpen && e.ctx.commits > 0) {
				d := *e
				// what was only seen may be lost
				d.optional = e.optional || e.unacked || e.kind == evOpen
				durable = append(durable, &d)
			}
		}
		for _, e := range old {
			if e.db == db && (e.kind != evCommit || len(e.cands) > 0) {
				keep(e)
			}
		}
		for _, e := range evs {
			if e.db != db || e.kind < 0 || e.kind == evCommitFail {
				continue
			}
			if e.kind == evCommit && len(e.cands) == 0 {
				continue
			}
			list = append(list, e)
			keep(e)
		}
		if r.unknown[db] {
			continue
		}
		finals, cut := linearize(r.states[db], list)
		if cut {
			r.Cut++
			r.unknown[db] = true
			continue
		}
		if len(finals) == 0 {
			lines := []string{}
			for _, s := range r.states[db] {
				lines = append(lines, "  may start as: "+s.describe())
			}
			for _, e := range list {
				lines = append(lines, "  "+e.String())
			}
			r.fail("history", linProps, "no order of the operations on %q explains their results:\n%s", r.names[db], strings.Join(lines, "\n"))
			r.unknown[db] = true
			continue
		}
		if power {
			finals, cut = linearize(r.diskStates[db], durable)
			if cut || len(finals) == 0 {
				r.Cut++
				r.unknown[db] = true
				continue
			}
		}
		seen := map[string]bool{}
		out := []*dbState{}
		for _, s := range finals {
			c := &dbState{present: s.present, inc: -1, list: s.list}
			if !seen[c.key()] {
				seen[c.key()] = true
				out = append(out, c)
			}
		}
		r.states[db] = out
		if power {
			r.diskStates[db] = out
		}
		for _, s := range out {
			r.w.Tracef("== %q may now be: %s", r.names[db], s.describe())
		}
	}
}
