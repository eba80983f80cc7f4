//go:build go1.23

// Package scen says, for each property, which simulated executions decide it.
package scen

import (
	"fmt"
	"runtime"

	"github.com/steve-care-software/rodkina/zz_verif/core"
	"github.com/steve-care-software/rodkina/zz_verif/dbsim"
	"github.com/steve-care-software/rodkina/zz_verif/engsim"
)

// Result is what one simulated execution showed.
type Result struct {
	Violations []dbsim.Violation
	Hash       uint64 // of the whole execution
	Digest     uint64 // of its results, without the schedule
	NonTrivial bool
	SimTime    int64
	Steps      int
	Faults     [core.NFaults]int
	Counters   map[string]int
	Trace      []string
	Sample     string
}

// Scenario runs one execution.
type Scenario struct {
	Rule   string
	Real   []string
	Stub   []string
	Run    func(src *core.Src, tracing bool) *Result
	Assume []string
	Race   bool // some workers follow memory accesses
	Engine bool // no processes: repeating an execution must give its results again
}

var clockSteady = []int{0}
var clockAny = []int{0, 0, 1, 2, 3}
var sizesAll = []int{0, 1, 1, 2, 3}

// New Del Exi Open Close Write Cancel Commit Observe Bad Dup
var (
	wAll    = [11]int{6, 3, 3, 10, 5, 14, 2, 20, 8, 3, 2}
	wCommit = [11]int{4, 1, 1, 8, 4, 10, 1, 30, 6, 1, 1}
	wNames  = [11]int{16, 14, 12, 12, 8, 4, 1, 10, 4, 1, 1}
	wRead   = [11]int{5, 3, 1, 14, 6, 8, 1, 20, 20, 1, 1}
	wCtx    = [11]int{8, 2, 1, 14, 10, 14, 5, 14, 10, 14, 8}
	wPend   = [11]int{4, 1, 1, 9, 6, 24, 8, 24, 10, 1, 1}
	wLong   = [11]int{2, 0, 1, 8, 4, 14, 1, 26, 8, 1, 1}
)

// DBConfigs are the workloads of the properties of the database engine.
var DBConfigs = map[string][]dbsim.Config{
	"C01": {
		{Nodes: [2]int{1, 2}, DBs: [2]int{1, 2}, Ops: [2]int{6, 30}, Epochs: [2]int{1, 3}, Weights: wCommit, Fault: []int{0}, CrashP: 60, PowerP: 0, CommitF: true, Clock: clockSteady, Sizes: sizesAll},
		{Nodes: [2]int{1, 2}, DBs: [2]int{1, 2}, Ops: [2]int{6, 30}, Epochs: [2]int{1, 4}, Weights: wCommit, Fault: []int{0}, CrashP: 20, PowerP: 40, CommitF: true, Clock: clockAny, Sizes: sizesAll},
		{Nodes: [2]int{1, 3}, DBs: [2]int{1, 3}, Ops: [2]int{6, 40}, Epochs: [2]int{1, 4}, Weights: wAll, Fault: []int{0, 1, 2}, FaultP: 60, CrashP: 30, PowerP: 15, Clock: clockAny, Sizes: sizesAll},
		{Nodes: [2]int{1, 2}, DBs: [2]int{1, 2}, Ops: [2]int{6, 30}, Epochs: [2]int{1, 3}, Weights: wCommit, Fault: []int{1}, FaultP: 150, CrashP: 8, PowerP: 8, CommitF: true, Clock: clockSteady, Sizes: sizesAll},
	},
	"C02": {
		{Nodes: [2]int{1, 2}, DBs: [2]int{1, 2}, Ops: [2]int{4, 20}, Epochs: [2]int{2, 5}, Weights: wCommit, Fault: []int{0}, PowerP: 70, Clock: clockSteady, Sizes: sizesAll},
		{Nodes: [2]int{1, 2}, DBs: [2]int{1, 3}, Ops: [2]int{3, 16}, Epochs: [2]int{2, 5}, Weights: wNames, Fault: []int{0}, PowerP: 90, Clock: clockSteady, Sizes: sizesAll, Reserve: true},
		{Nodes: [2]int{1, 2}, DBs: [2]int{1, 2}, Ops: [2]int{4, 24}, Epochs: [2]int{2, 4}, Weights: wAll, Fault: []int{1, 2}, FaultP: 120, CrashP: 15, PowerP: 50, CommitF: true, Clock: clockAny, Sizes: sizesAll},
	},
	"C03": {
		{Nodes: [2]int{1, 1}, DBs: [2]int{1, 2}, Ops: [2]int{5, 60}, Epochs: [2]int{1, 2}, Weights: wLong, Fault: []int{0}, Clock: clockSteady, Sizes: sizesAll},
		{Nodes: [2]int{1, 1}, DBs: [2]int{1, 1}, Ops: [2]int{60, 160}, Epochs: [2]int{1, 1}, Weights: wLong, Fault: []int{0}, Clock: clockSteady, Sizes: []int{0, 1, 2}},
		{Nodes: [2]int{1, 2}, DBs: [2]int{1, 2}, Ops: [2]int{10, 40}, Epochs: [2]int{1, 2}, Weights: wAll, Fault: []int{0, 0, 1}, FaultP: 40, CrashP: 8, PowerP: 4, Clock: clockAny, Sizes: sizesAll},
	},
	"C04": {
		{Nodes: [2]int{1, 1}, DBs: [2]int{1, 2}, Ops: [2]int{8, 40}, Epochs: [2]int{1, 1}, Weights: wAll, Fault: []int{1, 1, 2, 3}, FaultP: 250, Clock: clockSteady, Sizes: sizesAll},
		{Nodes: [2]int{1, 1}, DBs: [2]int{1, 2}, Ops: [2]int{8, 40}, Epochs: [2]int{1, 1}, Weights: wCommit, Fault: []int{1, 1, 3}, FaultP: 200, CommitF: true, Clock: clockSteady, Sizes: sizesAll},
		{Nodes: [2]int{1, 3}, DBs: [2]int{1, 2}, Ops: [2]int{8, 40}, Epochs: [2]int{1, 2}, Weights: wAll, Fault: []int{1, 2, 3}, FaultP: 150, Clock: clockAny, Sizes: sizesAll},
		{Nodes: [2]int{1, 2}, DBs: [2]int{1, 2}, Ops: [2]int{4, 24}, Epochs: [2]int{2, 4}, Weights: wCommit, Fault: []int{1, 2, 3}, FaultP: 200, PowerP: 50, CommitF: true, Clock: clockSteady, Sizes: sizesAll},
	},
	"C05": {
		{Nodes: [2]int{1, 2}, DBs: [2]int{1, 2}, Ops: [2]int{8, 40}, Epochs: [2]int{1, 2}, Weights: wAll, Fault: []int{1, 2, 3}, FaultP: 200, CrashP: 15, Clock: clockSteady, Sizes: sizesAll},
		{Nodes: [2]int{1, 1}, DBs: [2]int{1, 2}, Ops: [2]int{8, 40}, Epochs: [2]int{1, 1}, Weights: wCommit, Fault: []int{1, 1, 3}, FaultP: 200, CommitF: true, Clock: clockSteady, Sizes: sizesAll},
		{Nodes: [2]int{2, 3}, DBs: [2]int{1, 2}, Ops: [2]int{10, 50}, Epochs: [2]int{1, 3}, Weights: wAll, Fault: []int{0, 1}, FaultP: 80, CrashP: 50, PowerP: 10, Clock: clockAny, Sizes: sizesAll},
	},
	"C06": {
		{Nodes: [2]int{2, 4}, DBs: [2]int{1, 1}, Ops: [2]int{10, 50}, Epochs: [2]int{1, 1}, Weights: wCommit, Fault: []int{0}, Clock: clockSteady, Sizes: []int{0, 0, 1, 2}},
		{Nodes: [2]int{2, 4}, DBs: [2]int{1, 2}, Ops: [2]int{10, 50}, Epochs: [2]int{1, 2}, Weights: wAll, Fault: []int{0}, Clock: clockAny, Sizes: sizesAll},
		{Nodes: [2]int{2, 4}, DBs: [2]int{1, 2}, Ops: [2]int{10, 50}, Epochs: [2]int{1, 2}, Weights: wCommit, Fault: []int{0, 1, 2}, FaultP: 60, CrashP: 20, Clock: clockAny, Sizes: sizesAll},
	},
	"C07": {
		{Nodes: [2]int{2, 4}, DBs: [2]int{1, 1}, Ops: [2]int{10, 50}, Epochs: [2]int{1, 1}, Weights: wRead, Fault: []int{0}, Clock: clockSteady, Sizes: []int{0, 1, 1, 2, 3}},
		{Nodes: [2]int{2, 4}, DBs: [2]int{1, 2}, Ops: [2]int{10, 60}, Epochs: [2]int{1, 2}, Weights: wRead, Fault: []int{0, 0, 1}, FaultP: 50, CrashP: 10, Clock: clockAny, Sizes: sizesAll},
	},
	"C08": {
		{Nodes: [2]int{2, 4}, DBs: [2]int{1, 1}, Ops: [2]int{10, 50}, Epochs: [2]int{1, 1}, Weights: wNames, Fault: []int{0}, Clock: clockSteady, Sizes: []int{0, 1}},
		{Nodes: [2]int{1, 4}, DBs: [2]int{1, 3}, Ops: [2]int{10, 50}, Epochs: [2]int{1, 2}, Weights: wNames, Fault: []int{0, 0, 1}, FaultP: 50, CrashP: 15, Clock: clockSteady, Sizes: []int{0, 1, 2}, Reserve: true},
	},
	"C09": {
		{Nodes: [2]int{1, 1}, DBs: [2]int{2, 5}, Ops: [2]int{10, 80}, Epochs: [2]int{1, 1}, Weights: wCtx, Fault: []int{0}, Clock: clockSteady, Sizes: []int{0, 1}},
		{Nodes: [2]int{1, 2}, DBs: [2]int{2, 4}, Ops: [2]int{10, 60}, Epochs: [2]int{1, 2}, Weights: wCtx, Fault: []int{0, 1, 2}, FaultP: 120, CrashP: 5, Clock: clockAny, Sizes: []int{0, 1}},
	},
	"C10": {
		{Nodes: [2]int{1, 2}, DBs: [2]int{1, 2}, Ops: [2]int{8, 60}, Epochs: [2]int{1, 2}, Weights: wLong, Fault: []int{0}, Clock: []int{0, 1, 2, 3}, Sizes: []int{0, 1}},
		{Nodes: [2]int{1, 3}, DBs: [2]int{1, 2}, Ops: [2]int{8, 50}, Epochs: [2]int{1, 3}, Weights: wCommit, Fault: []int{0, 1, 2}, FaultP: 80, CrashP: 15, PowerP: 10, Clock: []int{0, 1, 2, 3}, Sizes: []int{0, 1, 2}},
	},
	"C11": {
		{Nodes: [2]int{1, 2}, DBs: [2]int{1, 2}, Ops: [2]int{8, 50}, Epochs: [2]int{1, 2}, Weights: wPend, Fault: []int{0, 1, 3}, FaultP: 150, CommitF: true, Clock: clockSteady, Sizes: sizesAll},
		{Nodes: [2]int{1, 3}, DBs: [2]int{1, 2}, Ops: [2]int{8, 50}, Epochs: [2]int{1, 3}, Weights: wPend, Fault: []int{0, 1}, FaultP: 60, CrashP: 25, PowerP: 5, Clock: clockAny, Sizes: []int{0, 1, 2}},
	},
	"C12": {
		{Nodes: [2]int{1, 1}, DBs: [2]int{1, 3}, Ops: [2]int{4, 30}, Epochs: [2]int{1, 1}, Weights: wCommit, Fault: []int{0}, Clock: clockSteady, Sizes: []int{0, 0, 1, 2}, Damage: true},
		{Nodes: [2]int{1, 1}, DBs: [2]int{1, 3}, Ops: [2]int{20, 60}, Epochs: [2]int{1, 1}, Weights: wLong, Fault: []int{0}, Clock: clockSteady, Sizes: []int{0, 1, 2, 3}, Damage: true},
	},
	"C13": {
		{Nodes: [2]int{1, 2}, DBs: [2]int{1, 2}, Ops: [2]int{8, 40}, Epochs: [2]int{1, 2}, Weights: wAll, Fault: []int{0, 1, 2, 3}, FaultP: 200, CrashP: 15, Clock: clockSteady, Sizes: sizesAll},
		{Nodes: [2]int{1, 1}, DBs: [2]int{1, 3}, Ops: [2]int{8, 40}, Epochs: [2]int{1, 1}, Weights: wCommit, Fault: []int{1, 1, 3}, FaultP: 200, CommitF: true, Clock: clockSteady, Sizes: sizesAll},
		{Nodes: [2]int{2, 4}, DBs: [2]int{1, 2}, Ops: [2]int{10, 50}, Epochs: [2]int{1, 3}, Weights: wAll, Fault: []int{0, 1}, FaultP: 60, CrashP: 40, PowerP: 8, Clock: clockAny, Sizes: sizesAll},
	},
}

func runDB(prop string, src *core.Src, tracing bool) *Result {
	configs := DBConfigs[prop]
	cfg := configs[src.Draw(len(configs))]
	cfg.Prop = prop
	runtime.SimSetRand(uint64(src.Draw(1<<30)) + 1)
	defer runtime.SimSetRand(0)
	r := dbsim.Execute(cfg, src, tracing)
	return dbResult(r)
}

func dbResult(r *dbsim.Run) *Result {
	w := r.World()
	res := &Result{
		Violations: r.Violations,
		Hash:       w.Hash,
		Digest:     w.FS.Digest(),
		SimTime:    w.SimTime,
		Steps:      w.Step,
		Faults:     w.Faults,
		Trace:      w.TraceLog,
		NonTrivial: r.Commits > 0 && r.Ops > 4,
	}
	res.Counters = map[string]int{
		"operations":                     r.Ops,
		"commits_attempted":              r.Commits,
		"started_with_over_255_commits":  r.Warmed[1],
		"started_with_a_wide_commit":     r.Warmed[2],
		"started_with_megabytes":         r.Warmed[3],
		"started_with_300_kinds":         r.Warmed[4],
		"started_with_over_255_contexts": r.Warmed[5],
		"started_with_20_databases":      r.Warmed[6],
		"operations_hit_by_faults":       r.FailedOps,
		"process_switches":               w.Switches,
		"process_deaths":                 r.Crashes,
		"histories_too_long_to_order":    r.Cut,
		"runs_with_3_or_more_commits":    b2i(r.MaxList >= 3),
		"system_calls":                   w.Step,
		"refused_escapes":                len(w.Escapes),
		"calls_of_own_goroutines":        w.Others,
		"damaged_files":                  r.Damages,
		"damaged_files_refused":          r.Refused,
		"damaged_files_accepted":         r.Accepted,
	}
	res.Sample = fmt.Sprintf("%d operations in %d system calls, %d commit attempts, %d switches, faults %s", r.Ops, w.Step, r.Commits, w.Switches, FaultString(w.Faults))
	return res
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// FaultString lists the faults that were injected.
func FaultString(f [core.NFaults]int) string {
	s := ""
	for i, n := range f {
		if n > 0 && i > 0 {
			s += fmt.Sprintf("%s:%d ", core.FaultNames[i], n)
		}
	}
	if s == "" {
		return "none"
	}
	return s[:len(s)-1]
}

var dbReal = []string{"libs/databases (files application, references, contents)", "libs/cryptography (hash, hash trees)", "vendor/github.com/juju/fslock", "Go os, io, path/filepath"}
var dbStub = []string{"kernel file system and page cache (simulated, volatile and durable state)", "flock", "wall clock", "process scheduler", "the Go runtime's map seeds"}

var dbAssume = []string{
	"a failed system call has no effect, except that a failed fsync loses an arbitrary part of the unsynced pages",
	"a directory entry that fsync made durable stays so; unsynced writes and entries may persist in any subset, torn at 64 bytes",
}

var engStub = []string{"the functions that the engines call back", "the scheduler of the callers (coroutines that are switched between two statements of the engines)", "the Go runtime's map seeds"}

type engine struct {
	run    func(src *core.Src, tracing bool) *engsim.Outcome
	rule   string
	real   []string
	assume []string
}

var engines = map[string]engine{
	"C14": {engsim.C14,
		"one seed draws 1 to 3 programs (modules, applications, parameters, assignments, attachments, executions, nested programs), the executions on one interpreter, and for every call of a module whether it returns, fails, panics, executes or compiles a program itself; a run is non-trivial when modules were called more than once, and distinct by the hash of the programs, the calls, their arguments and the results",
		[]string{"libs/interpreters"}, []string{"the meaning of a program is that of the reference model: an attached application is executed each time a call needs its value"}},
	"C15": {engsim.C15,
		"one seed draws 1 to 3 trees (built, or parsed by the grammar engine), 1 to 4 queries, the executions on one engine, and for every call of a function whether it returns values (none, one or several, valid or not), fails, panics, or executes a query itself; a run is non-trivial when functions were called more than once, and distinct by the hash of the trees, the queries, the calls and the results",
		[]string{"libs/queries", "libs/asts"}, []string{"a function for several contents that is called with none of them answers with no value"}},
	"C16": {engsim.C16,
		"one seed draws grammars, data, programs, trees, queries and blocks, 1 to 4 callers with 1 to 3 calls each on shared engines and shared inputs, at which statements the callers are switched, and which functions use the engines again; each result is compared with that of the same call alone on fresh engines with inputs of other names; a run is non-trivial when callers were switched in the middle of calls or functions called the engines, and distinct by the hash of the inputs, switches and results",
		[]string{"libs/asts", "libs/interpreters", "libs/queries", "libs/cryptography"}, []string{"callers are switched between statements, not inside of one, and see the writes of each other in order; what that cannot show is looked for in the executions whose memory accesses are followed"}},
	"C17": {engsim.C17,
		"one seed draws work (calls of all engines on drawn grammars, data, programs, trees, queries and blocks; operations on databases with a clock that depends on nothing else; tokens of the shipped grammar; suites) and 2 or 3 seeds of the runtime's random source, which decides the order of all maps; the work is done once under each, and all results and bytes on disk are compared; distinct by the hash of the results",
		[]string{"libs/asts", "libs/interpreters", "libs/queries", "libs/cryptography", "libs/databases", "instances/grammars", "the Go runtime's maps"}, []string{"the texts of errors are not compared, only that there is one"}},
}

func runEngine(e engine, src *core.Src, tracing bool) *Result {
	runtime.SimSetRand(uint64(src.Draw(1<<30)) + 1)
	defer runtime.SimSetRand(0)
	o := e.run(src, tracing)
	return &Result{Violations: o.Violations, Hash: o.Hash, Digest: o.Digest, NonTrivial: o.NonTrivial, Steps: o.Steps, Faults: o.Faults, Counters: o.Counters, Trace: o.Trace, Sample: o.Sample}
}

// For returns the scenario of a property.
func For(prop string) *Scenario {
	if _, ok := DBConfigs[prop]; ok {
		return &Scenario{
			Rule: "one seed draws a machine (directory, chunk size, databases, clock, scheduler), 1 to 4 processes and their operations, and every interleaving, fault, crash and power loss; a run is non-trivial when it attempted a commit among more than 4 operations, and distinct by the hash of its whole sequence of system calls, results and faults",
			Real: dbReal, Stub: dbStub, Assume: dbAssume,
			Run: func(src *core.Src, tracing bool) *Result { return runDB(prop, src, tracing) },
		}
	}
	if e, ok := engines[prop]; ok {
		return &Scenario{
			Rule: e.rule, Real: e.real, Stub: engStub, Assume: e.assume, Engine: true, Race: prop == "C16",
			Run: func(src *core.Src, tracing bool) *Result { return runEngine(e, src, tracing) },
		}
	}
	return nil
}
