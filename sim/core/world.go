//go:build go1.23

package core

import (
	"fmt"
	"iter"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	fdBase     = 1 << 20
	fdsPerProc = 128
	maxProcs   = 128
	fdsPerWld  = fdsPerProc * maxProcs
	simRoot    = "/simfs"
)

// FaultPlan says which system call of an operation fails.
type FaultPlan struct {
	Class int  // 0: At counts all system calls, otherwise those of this class
	At    int  // index of the system call inside the operation
	Count int  // for how many calls, -1: until the operation ends
	Full  bool // the disk is full after some bytes
}

// EndPlan ends a process, or the machine, at a system call of a class, or
// some calls after the first fault.
type EndPlan struct {
	Fault bool
	Class int
	At    int  // which of the class
	After bool // after the call instead of before it
	Power bool
}

// Classes of system calls, in the order in which they are drawn.
var classNames = [][]string{nil,
	{"fsync", "fdatasync"},
	{"rename", "renameat", "renameat2", "link", "linkat", "unlink", "unlinkat", "rmdir", "mkdir", "mkdirat"},
	{"open", "openat"},
	{"write", "pwrite", "copy_file_range", "sendfile", "ftruncate", "truncate"},
	{"read", "pread"},
	{"flock"},
	{"close"},
	{"stat", "fstat", "lstat", "fstatat", "lseek", "getdents"},
}

// NClasses is the number of classes of system calls, with the one of all.
const NClasses = 9

var classOf = func() map[string]int {
	out := map[string]int{}
	for i, l := range classNames {
		for _, n := range l {
			out[n] = i
		}
	}
	return out
}()

// Fault kinds, for the statistics.
var FaultNames = []string{"none", "eio", "enospc", "eacces", "emfile", "eintr", "short", "fsync_lost", "enolck", "ewouldblock", "close_eio", "disk_full", "process_crash", "power_loss", "clock_jump", "clock_frozen", "stall", "callback_error", "callback_panic", "callback_reentry", "file_damage"}

const (
	FNone = iota
	FEio
	FEnospc
	FEacces
	FEmfile
	FEintr
	FShort
	FFsyncLost
	FEnolck
	FWouldBlock
	FCloseEio
	FDiskFull
	FCrash
	FPower
	FClockJump
	FClockFrozen
	FStall
	FCbError
	FCbPanic
	FCbReentry
	FDamage
	NFaults
)

// Proc is a simulated process.
type Proc struct {
	W         *World
	Idx       int
	Name      string
	Foreign   []int // descriptors it closed although others opened them
	fds       map[int]*OpenFile
	next      func() (int, bool)
	stop      func()
	yield     func(int) bool
	goid      uint64
	Done      bool
	Dead      bool // killed
	kill      bool
	blockedOn *Inode
	stalled   int

	InOp     bool
	opCalls  int
	OpFaults int
	NoRemove int        // faults of the current operation in calls that look for files and remove them
	Plan     *FaultPlan // targeted fault of this operation
	KillAt   int        // index of the system call at which this process is killed, -1 never
	PowerAt  int        // same for a power loss, -1 never
	Ends     *EndPlan   // both, by the class of the system call
	class    int
	counts   [NClasses]int
	left     int
	lastKind int
	Rate     int // background faults per 10000 calls
	fullSet  bool
	MaxCalls int
	Reads    []int64 // clock values read during the operation
	Exclude  bool    // runs alone and without faults
	Each     func()  // called before each system call
}

type sentinel struct{ why string }

var killed = &sentinel{"killed"}
var hung = &sentinel{"too many system calls"}

// World is one simulated machine.
type World struct {
	Src      *Src
	FS       *FS
	Procs    []*Proc
	cur      *Proc
	nextProc *Proc
	base     int
	SwitchN  int // context switches: SwitchN out of SwitchD calls
	SwitchD  int
	StallN   int // stalls per 4000 calls
	Step     int
	Clock    int64
	ClockPol int   // 0 steady 1 frozen 2 jumps 3 backwards
	Grain    int64 // of the times of files
	SimTime  int64
	PowerOut bool
	OnDeath  func(p *Proc)
	Tracing  bool
	TraceLog []string
	Hash     uint64
	OutHash  uint64 // digest of everything written to the disk, without schedule
	Faults   [NFaults]int
	Switches int
	Escapes  []string
	MaxSteps int
	Deadlock bool
	foreign  sync.Mutex
	Others   int // system calls of goroutines that the code started itself
	nFull    int
}

var active atomic.Pointer[World]
var worlds int

// NewWorld makes a machine with an empty disk.
func NewWorld(src *Src) *World {
	worlds++
	w := &World{Src: src, FS: NewFS(), SwitchN: 1, SwitchD: 8, Clock: 1_700_000_000_000_000_000, MaxSteps: 2_000_000, Grain: 1}
	w.base = fdBase + (worlds%100000)*fdsPerWld
	w.FS.MkdirAll("/tmp")
	w.FS.MkdirAll(simRoot + "/cwd")
	return w
}

// Activate makes the machine the one that answers system calls.
func (w *World) Activate() { active.Store(w) }

// Deactivate ends it.
func (w *World) Deactivate() { active.Store(nil) }

// Tracef adds a line to the trace.
func (w *World) Tracef(format string, a ...interface{}) {
	if w.Tracing {
		w.TraceLog = append(w.TraceLog, fmt.Sprintf(format, a...))
	}
}

func (w *World) mix(v uint64) { w.Hash = Mix(w.Hash, v) }

// Spawn adds a process that runs body.
func (w *World) Spawn(name string, body func(p *Proc)) *Proc {
	p := &Proc{W: w, Idx: len(w.Procs), Name: name, fds: map[int]*OpenFile{}, KillAt: -1, PowerAt: -1, MaxCalls: 60000}
	if p.Idx >= maxProcs {
		panic("too many simulated processes")
	}
	w.Procs = append(w.Procs, p)
	p.next, p.stop = iter.Pull(func(yield func(int) bool) {
		p.yield = yield
		p.goid = runtime.SimGoid()
		defer func() {
			if r := recover(); r != nil {
				if r != killed {
					panic(fmt.Sprintf("simulator: panic outside of an operation: %v\n%s", r, debug.Stack()))
				}
			}
		}()
		body(p)
	})
	return p
}

func (w *World) runnable(p *Proc) bool {
	if p.Done {
		return false
	}
	if p.kill {
		return true
	}
	if p.blockedOn != nil && w.wouldBlock(p.blockedOn) {
		return false
	}
	return true
}

func (w *World) wouldBlock(n *Inode) bool { return len(n.locks) > 0 }

// choose picks the process that runs next.
func (w *World) choose(cur *Proc) *Proc {
	if cur != nil && cur.Exclude && w.runnable(cur) {
		return cur
	}
	var list []*Proc
	curOK := false
	for _, p := range w.Procs {
		if !w.runnable(p) {
			continue
		}
		if p.Exclude {
			return p
		}
		if p == cur {
			curOK = true
			continue
		}
		list = append(list, p)
	}
	if curOK && cur.stalled > 0 && len(list) > 0 {
		cur.stalled--
		return list[w.Src.Draw(len(list))]
	}
	if curOK && (len(list) == 0 || !w.Src.Chance(w.SwitchN, w.SwitchD)) {
		return cur
	}
	if len(list) == 0 {
		return nil
	}
	pick := list[0]
	if len(list) > 1 {
		awake := list[:0:0]
		for _, p := range list {
			if p.stalled > 0 {
				p.stalled--
				continue
			}
			awake = append(awake, p)
		}
		if len(awake) == 0 {
			awake = list
		}
		pick = awake[w.Src.Draw(len(awake))]
	}
	if pick != cur {
		w.Switches++
	}
	return pick
}

// Run runs the processes until all ended or the power went out.
func (w *World) Run() {
	var p *Proc
	for {
		if w.nextProc != nil {
			p = w.nextProc
			w.nextProc = nil
		} else {
			p = w.choose(nil)
		}
		if p == nil {
			left := false
			for _, q := range w.Procs {
				if !q.Done {
					left = true
				}
			}
			if !left {
				return
			}
			w.Deadlock = true
			for _, q := range w.Procs {
				if !q.Done {
					q.kill = true
				}
			}
			continue
		}
		w.resume(p)
		if w.PowerOut {
			for _, q := range w.Procs {
				if !q.Done {
					q.kill = true
					w.resume(q)
				}
			}
			w.nextProc = nil
			return
		}
	}
}

func (w *World) resume(p *Proc) {
	w.cur = p
	_, more := p.next()
	w.cur = nil
	if !more {
		p.Done = true
		w.release(p)
		if w.nextProc == p {
			w.nextProc = nil
		}
		if p.kill {
			p.Dead = true
		}
		if w.OnDeath != nil {
			w.OnDeath(p)
		}
	}
}

// release closes what a process left open.
func (w *World) release(p *Proc) {
	for _, fd := range p.FDs() {
		w.closeFD(p, fd)
	}
}

// PowerLoss turns the machine off and on again.
func (w *World) PowerLoss() {
	w.FS.powerLoss(w.Src)
	w.PowerOut = false
	w.Faults[FPower]++
	w.Tracef("== power loss: the machine restarts with what the disk holds")
	for _, p := range w.Procs {
		p.fds = map[int]*OpenFile{}
	}
}

// FDs returns the sorted descriptors of the process.
func (p *Proc) FDs() []int {
	out := []int{}
	for i := 0; i < fdsPerProc; i++ {
		fd := p.W.base + p.Idx*fdsPerProc + i
		if _, ok := p.fds[fd]; ok {
			out = append(out, fd)
		}
		if len(out) == len(p.fds) {
			break
		}
	}
	return out
}

// FDPaths describes the open descriptors.
func (p *Proc) FDPaths() []string {
	out := []string{}
	for _, fd := range p.FDs() {
		out = append(out, p.fds[fd].path)
	}
	return out
}

// Locks returns how many locks the process holds.
func (p *Proc) Locks() int {
	n := 0
	for _, f := range p.fds {
		if _, ok := f.node.locks[f]; ok {
			n++
		}
	}
	return n
}

// Now returns the simulated time without moving it.
func (w *World) Now() int64 { return w.Clock }

func (w *World) tick() {
	switch w.ClockPol {
	case 0:
		d := int64(1+w.Src.Draw(64)) * 1777
		w.Clock += d
		w.SimTime += d
	case 1:
	case 2, 3:
		if w.Src.Chance(1, 12) {
			w.Faults[FClockJump]++
			d := []int64{1, 1000, 1e6, 999999999, 1e9, 3600e9, 86400e9 * 400}[w.Src.Draw(7)]
			if w.Src.Draw(2) == 1 || w.ClockPol == 3 {
				d = -d
			}
			w.Clock += d
			if w.Clock < 1e15 {
				w.Clock = 1_700_000_000_000_000_000
			}
			if d < 0 {
				d = -d
			}
			w.SimTime += d
		} else {
			w.Clock += 977
			w.SimTime += 977
		}
	}
}

// Result of an operation.
type Result struct {
	Panic    string
	Hang     bool
	Faults   int
	NoRemove int // faults among the calls that look for files and remove them
	Calls    int
	Start    int
	End      int
	Clocks   []int64
	Crashed  bool
}

// Op runs an operation of the code under test in the process.
func (p *Proc) Op(label string, fn func()) (res Result) {
	w := p.W
	p.InOp = true
	p.opCalls = 0
	p.OpFaults = 0
	p.NoRemove = 0
	p.left = 0
	p.counts = [NClasses]int{}
	w.Step++
	res.Start = w.Step
	p.Reads = nil
	w.Tracef("[%s] %s", p.Name, label)
	defer func() {
		p.InOp = false
		p.Plan = nil
		p.Ends = nil
		if p.fullSet {
			p.fullSet = false
			w.nFull--
			if w.nFull == 0 {
				w.FS.Limit = 0
			}
		}
		res.Faults = p.OpFaults
		res.NoRemove = p.NoRemove
		res.Calls = p.opCalls
		w.Step++
		res.End = w.Step
		res.Clocks = p.Reads
		if r := recover(); r != nil {
			if r == killed || p.kill {
				panic(killed)
			}
			if r == hung {
				res.Hang = true
				return
			}
			res.Panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	fn()
	return
}

// Boundary lets the scheduler act between two operations.
func (p *Proc) Boundary() {
	w := p.W
	w.pause(p)
}

func (w *World) pause(p *Proc) {
	nx := w.choose(p)
	if nx != p {
		w.nextProc = nx
		p.yield(0)
	}
	if p.kill {
		panic(killed)
	}
}

// Die ends the process as a crash between two operations.
func (p *Proc) Die() {
	p.W.Faults[FCrash]++
	p.W.Tracef("[%s] == process killed", p.Name)
	p.kill = true
	panic(killed)
}

// PowerOff turns the machine off between two operations.
func (p *Proc) PowerOff() {
	p.W.Tracef("[%s] == power goes out", p.Name)
	p.W.PowerOut = true
	p.kill = true
	panic(killed)
}

// enter is called before each system call of a simulated process.
func (w *World) enter(p *Proc, what string) {
	if p.kill {
		panic(killed)
	}
	w.Step++
	n := p.opCalls
	p.opCalls++
	if p.opCalls > p.MaxCalls || w.Step > w.MaxSteps {
		panic(hung)
	}
	if p.Each != nil {
		p.Each()
	}
	p.class = classOf[what]
	p.counts[p.class]++
	if !p.Exclude {
		due := false
		if e := p.Ends; e != nil && p.InOp {
			due = e.Class == p.class && p.counts[p.class] == e.At+1
			if e.Fault {
				due = p.OpFaults > 0
			}
		}
		if due {
			e := p.Ends
			p.Ends = nil
			at := n
			if e.After {
				at++
			}
			if e.Fault {
				at = n + e.At
			}
			if e.Power {
				p.PowerAt = at
			} else {
				p.KillAt = at
			}
		}
		if p.KillAt >= 0 && p.InOp && n >= p.KillAt {
			p.KillAt = -1
			w.Faults[FCrash]++
			w.Tracef("[%s]   == process killed before %s", p.Name, what)
			p.kill = true
			panic(killed)
		}
		if p.PowerAt >= 0 && p.InOp && n >= p.PowerAt {
			p.PowerAt = -1
			w.Tracef("[%s]   == power goes out before %s", p.Name, what)
			w.PowerOut = true
			p.kill = true
			panic(killed)
		}
		if w.StallN > 0 && w.Src.Chance(w.StallN, 4000) {
			p.stalled = 10 + w.Src.Draw(300)
			w.Faults[FStall]++
			w.Tracef("[%s]   == stalls", p.Name)
		}
		w.pause(p)
	}
}

// fault decides whether a system call fails; kinds are those that apply.
func (w *World) fault(p *Proc, kinds []int) int {
	if p.Exclude || !p.InOp || len(kinds) == 0 {
		return FNone
	}
	n := p.opCalls - 1
	hit := false
	if p.Plan != nil && p.Plan.Class != 0 {
		n = -1
		if p.class == p.Plan.Class {
			n = p.counts[p.class] - 1
		}
	}
	if p.Plan != nil && n >= p.Plan.At {
		if p.Plan.Full {
			if !p.fullSet {
				p.fullSet = true
				w.nFull++
				room := int64(w.Src.Draw(400))
				w.FS.Limit = w.FS.used + room
				if w.FS.Limit <= 0 {
					w.FS.Limit = 1
				}
				w.Faults[FDiskFull]++
				p.OpFaults++
				w.Tracef("[%s]   == the disk is full after %d more bytes", p.Name, room)
			}
		} else if p.Plan.Count < 0 || p.left < p.Plan.Count {
			p.left++
			hit = true
		}
	}
	if !hit && p.Rate > 0 && w.Src.Chance(p.Rate, 10000) {
		hit = true
	}
	if !hit {
		return FNone
	}
	k := kinds[w.Src.Draw(len(kinds))]
	if k == FEintr && p.Plan != nil && p.Plan.Count < 0 && p.left > 4 {
		k = kinds[0] // an interruption does not repeat forever
	}
	w.Faults[k]++
	p.OpFaults++
	if p.class == 2 || p.class == 8 {
		p.NoRemove++
	}
	p.lastKind = k
	return k
}

// InstallHooks connects the simulator to the standard library.
func InstallHooks() {
	syscall.SimHook = hook
	time.SimNow = func() (int64, bool) {
		w := active.Load()
		if w == nil {
			return 0, false
		}
		p := w.cur
		if p == nil || runtime.SimGoid() != p.goid {
			return 0, false
		}
		w.tick()
		p.Reads = append(p.Reads, w.Clock)
		return w.Clock, true
	}
	time.SimSleep = func(d time.Duration) bool {
		w := active.Load()
		if w == nil {
			return false
		}
		p := w.cur
		if p == nil || runtime.SimGoid() != p.goid {
			return false
		}
		if d > 0 {
			w.Clock += int64(d)
			w.SimTime += int64(d)
		}
		if n := int64(d) / 50_000; n > 0 && !p.Exclude {
			// the others go on meanwhile
			if n > 150 {
				n = 150
			}
			p.stalled += w.Src.Draw(int(n) + 1)
		}
		w.enter(p, "sleep")
		return true
	}
}
