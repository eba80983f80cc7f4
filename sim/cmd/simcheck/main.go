//go:build go1.23

// Command simcheck searches simulated executions for one that breaks a
// property.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/steve-care-software/rodkina/zz_verif/core"
	"github.com/steve-care-software/rodkina/zz_verif/dbsim"
	"github.com/steve-care-software/rodkina/zz_verif/engsim"
	"github.com/steve-care-software/rodkina/zz_verif/scen"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	o := &options{}
	fs.StringVar(&o.prop, "property", "", "property")
	fs.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	fs.Uint64Var(&o.seed, "seed", 1, "seed")
	fs.StringVar(&o.verif, "verif", "/verif", "where the framework is")
	fs.Float64Var(&o.seconds, "seconds", 0, "how long to search")
	fs.IntVar(&o.workers, "workers", 0, "worker processes")
	fs.IntVar(&o.index, "index", 0, "worker index")
	fs.IntVar(&o.from, "from", 0, "first run")
	fs.IntVar(&o.to, "to", 0, "last run")
	fs.StringVar(&o.in, "in", "", "input file")
	fs.StringVar(&o.out, "out", "", "output file")
	fs.BoolVar(&o.trace, "trace", false, "print the trace")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "check":
		os.Exit(check(o))
	case "worker":
		worker(o)
	case "replay":
		if o.in == "" && fs.NArg() > 0 {
			o.in = fs.Arg(0)
		}
		os.Exit(replay(o))
	case "shrink":
		shrink(o)
	case "digest":
		digest(o)
	case "run":
		runOne(o)
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: simcheck check|worker|replay|shrink|digest|run ...")
	os.Exit(2)
}

type options struct {
	prop, tier, verif, in, out string
	seed                       uint64
	seconds                    float64
	workers, index, from, to   int
	trace                      bool
}

// Replay is the file from which an execution is repeated.
type Replay struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"`
	Text     string   `json:"violation"`
	Seed     uint64   `json:"verif_seed"`
	Run      int      `json:"run"`
	RunSeed  uint64   `json:"run_seed"`
	BySeed   bool     `json:"by_seed"`               // the choices are those of the seed
	Before   []uint64 `json:"runs_before,omitempty"` // executions of the same process that come first
	Repeat   bool     `json:"repeat,omitempty"`      // the execution is done twice, and differs
	Race     bool     `json:"race,omitempty"`        // memory accesses are followed
	Choices  []uint32 `json:"choices"`
	Original int      `json:"choices_before_minimising"`
	Trace    []string `json:"trace"`
}

func runSeed(o *options, run int) uint64 {
	h := uint64(1469598103934665603)
	for _, c := range []byte(o.prop) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return core.Mix(core.Mix(h, o.seed), uint64(run))
}

func prepare() {
	core.InstallHooks()
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2 << 30)
	debug.SetMaxStack(128 << 20)
	if engsim.RaceBuild {
		// following the memory accesses needs memory and addresses
		debug.SetMemoryLimit(400 << 20)
		debug.SetTraceback("single")
		return
	}
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 10 << 30, Max: 10 << 30})
	debug.SetTraceback("single")
}

var started atomic.Int64

// watchdog ends the process when one execution computes for too long.
func watchdog() {
	go func() {
		for {
			time.Sleep(time.Second)
			at := started.Load()
			if at != 0 && cpu()-at > int64(watchdogSeconds)*1e9 {
				fmt.Fprintf(os.Stderr, "watchdog: one simulated execution used %d s of processor time\n", watchdogSeconds)
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				os.Stderr.Write(buf[:n])
				os.Exit(exitHang)
			}
		}
	}()
}

const watchdogSeconds = 45
const exitHang = 77
const exitHarness = 78

func cpu() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// executions counts, and those that could not be prepared.
var executions, unprepared int

func execute(s *scen.Scenario, src *core.Src, tracing bool) (res *scen.Result) {
	started.Store(cpu())
	defer started.Store(0)
	executions++
	defer func() {
		if v := recover(); v != nil {
			// what a call needs could not be built: that is another property's
			// matter as long as it does not happen all the time
			unprepared++
			if s.Engine && (executions < 20 || unprepared*5 < executions) && engsim.Idle() {
				res = &scen.Result{Counters: map[string]int{"executions_not_prepared": 1}}
				return
			}
			fmt.Fprintf(os.Stderr, "the harness panicked: %v\n%s\n", v, debug.Stack())
			os.Exit(exitHarness)
		}
	}()
	return s.Run(src, tracing)
}

func heap() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// Stats is what a worker reports.
type Stats struct {
	Runs       int            `json:"runs"`
	NonTrivial int            `json:"nontrivial"`
	SimTime    float64        `json:"sim_seconds"`
	Steps      int            `json:"steps"`
	Faults     map[string]int `json:"faults"`
	RunsWith   map[string]int `json:"runs_with"`
	Counters   map[string]int `json:"counters"`
	Hashes     string         `json:"hashes"`
	Samples    []string       `json:"samples"`
	Known      map[string]int `json:"known"`
	Repeated   int            `json:"repeated"`
	Diverged   []int          `json:"diverged"`
}

type message struct {
	Stats  *Stats  `json:"stats,omitempty"`
	Replay *Replay `json:"replay,omitempty"`
}

type finding struct {
	prop, kind, contains, what string
}

// knownFindings reads the findings that are recorded instead of repaired.
func knownFindings(verif string) []finding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	out := []finding{}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=C01 kind=history contains="..." what
		f := finding{}
		rest := strings.TrimPrefix(l, "finding: ")
		fmt.Sscanf(rest, "property=%s kind=%s contains=%q", &f.prop, &f.kind, &f.contains)
		if i := strings.LastIndex(rest, "\" "); i >= 0 {
			f.what = rest[i+2:]
		}
		out = append(out, f)
	}
	return out
}

func (f finding) matches(prop string, v dbsim.Violation) bool {
	return f.prop == prop && f.kind == v.Kind && f.contains != "" && strings.Contains(v.Text, f.contains)
}

func pick(prop string, vs []dbsim.Violation, known []finding) (*dbsim.Violation, []string) {
	hits := []string{}
	for i := range vs {
		if !vs[i].Has(prop) {
			continue
		}
		skip := false
		for _, f := range known {
			if f.matches(prop, vs[i]) {
				skip = true
				hits = append(hits, f.what)
			}
		}
		if !skip {
			return &vs[i], hits
		}
	}
	return nil, hits
}

func worker(o *options) {
	prepare()
	s := scen.For(o.prop)
	known := knownFindings(o.verif)
	watchdog()
	var stop atomic.Bool
	go func() {
		b := make([]byte, 1)
		os.Stdin.Read(b)
		stop.Store(true)
	}()
	enc := json.NewEncoder(os.Stdout)
	progress, err := os.OpenFile(o.out, os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	st := &Stats{Faults: map[string]int{}, RunsWith: map[string]int{}, Counters: map[string]int{}, Known: map[string]int{}}
	seen := map[uint64]bool{}
	begin := time.Now()
	finish := func() {
		b := make([]byte, 0, 8*len(seen))
		for h := range seen {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		st.Hashes = base64.StdEncoding.EncodeToString(b)
		enc.Encode(message{Stats: st})
	}
	for run := o.index; ; run += o.workers {
		if stop.Load() || (o.to > 0 && run >= o.to) || (o.to == 0 && time.Since(begin).Seconds() > o.seconds) {
			break
		}
		seed := runSeed(o, run)
		progress.WriteAt([]byte(fmt.Sprintf("%20d %20d\n", run, seed)), 0)
		src := core.NewSeed(seed)
		res := execute(s, src, false)
		st.Runs++
		st.SimTime += float64(res.SimTime) / 1e9
		st.Steps += res.Steps
		for i, n := range res.Faults {
			if n > 0 && i > 0 {
				st.Faults[core.FaultNames[i]] += n
				st.RunsWith[core.FaultNames[i]]++
			}
		}
		for k, v := range res.Counters {
			st.Counters[k] += v
		}
		if res.NonTrivial {
			st.NonTrivial++
			seen[res.Hash] = true
			if len(st.Samples) < 2 {
				st.Samples = append(st.Samples, fmt.Sprintf("run %d (seed %d): %s", run, seed, res.Sample))
			}
		}
		v, hits := pick(o.prop, res.Violations, known)
		for _, h := range hits {
			st.Known[h]++
		}
		if v != nil {
			enc.Encode(message{Replay: &Replay{Property: o.prop, Kind: v.Kind, Text: v.Text, Seed: o.seed, Run: run, RunSeed: seed, Race: engsim.RaceBuild, Choices: src.Rec}})
			break
		}
		if (run/o.workers)%100 == 7 {
			// the same seed must give the same execution
			again := execute(s, core.NewSeed(seed), false)
			st.Repeated++
			if again.Digest != res.Digest && s.Engine {
				enc.Encode(message{Replay: &Replay{Property: o.prop, Kind: "repeat", Repeat: true, Text: repeatText, Seed: o.seed, Run: run, RunSeed: seed, Race: engsim.RaceBuild, Choices: src.Rec}})
				break
			}
			// goroutines that the code starts itself are ordered by Go
			loose := res.Counters["calls_of_own_goroutines"]+again.Counters["calls_of_own_goroutines"] > 0
			if (again.Digest != res.Digest || again.Hash != res.Hash && !s.Engine) && !loose {
				st.Diverged = append(st.Diverged, run)
			}
		}
		if heap() > 256<<20 {
			runtime.GC()
		}
		if engsim.RaceBuild && (run/o.workers)%100 == 99 && resident() > 6<<30 {
			break
		}
	}
	finish()
}

// resident is the memory that the process holds.
func resident() int {
	b, _ := os.ReadFile("/proc/self/statm")
	size, pages := 0, 0
	fmt.Sscan(string(b), &size, &pages)
	return pages * os.Getpagesize()
}

const repeatText = "the same calls gave other results when they were made again in the same process"

// history lists the executions that a worker made before a run.
func history(o *options, run int) []uint64 {
	out := []uint64{}
	for r := run % o.workers; r < run; r += o.workers {
		out = append(out, runSeed(o, r))
		if (r/o.workers)%100 == 7 {
			out = append(out, runSeed(o, r))
		}
	}
	return out
}

// confirm replays a violation in a process of its own.
func confirm(o *options, path string) (bool, string) {
	rp := command(o, load(path).Race, "replay", "-in", path, "-verif", o.verif)
	out, _ := rp.CombinedOutput()
	return rp.ProcessState != nil && rp.ProcessState.ExitCode() == 1, string(out)
}

// withHistory looks for the fewest earlier executions with which a violation
// shows again.
func withHistory(o *options, path string, r *Replay) bool {
	all := history(o, r.Run)
	begin := time.Now()
	good := false
	try := func(l []uint64) bool {
		r.Before = l
		write(path, r)
		ok, _ := confirm(o, path)
		return ok
	}
	for n := 1; !good && len(all) > 0; n *= 4 {
		if n > len(all) {
			n = len(all)
		}
		good = try(all[len(all)-n:])
		if n == len(all) {
			break
		}
	}
	if !good {
		return false
	}
	best := r.Before
	for size := (len(best) + 1) / 2; size >= 1 && time.Since(begin).Seconds() < 120; size /= 2 {
		for at := 0; at+size <= len(best) && time.Since(begin).Seconds() < 120; {
			l := append(append([]uint64{}, best[:at]...), best[at+size:]...)
			if try(l) {
				best = l
			} else {
				at += size
			}
		}
	}
	r.Before = best
	write(path, r)
	return true
}

type workerState struct {
	cmd    *exec.Cmd
	stdin  interface{ Close() error }
	stderr *tail
	prog   string
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) < 1<<16 {
		t.buf = append(t.buf, p...)
	}
	return len(p), nil
}

func self() string {
	exe, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return exe
}

// raceExe is the simulator that follows memory accesses, if there is one.
func raceExe(o *options) string {
	path := filepath.Join(o.verif, ".build", "simcheck-race")
	if _, err := os.Stat(path); err != nil {
		return ""
	}
	return path
}

// command starts the simulator, the one that follows memory accesses if asked.
func command(o *options, race bool, args ...string) *exec.Cmd {
	exe := self()
	if race {
		exe = raceExe(o)
	}
	c := exec.Command(exe, args...)
	c.Env = os.Environ()
	if race {
		dir := filepath.Join(o.verif, ".build", "work")
		os.MkdirAll(dir, 0755)
		c.Env = append(c.Env, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3 log_path="+filepath.Join(dir, fmt.Sprintf("race-%d-%d", os.Getpid(), raceLogs.Add(1))))
	}
	return c
}

var raceLogs atomic.Int64

// removeRaceLogs removes what the processes of this one reported.
func removeRaceLogs(o *options) {
	l, _ := filepath.Glob(filepath.Join(o.verif, ".build", "work", fmt.Sprintf("race-%d-*", os.Getpid())))
	for _, f := range l {
		os.Remove(f)
	}
}

func check(o *options) int {
	s := scen.For(o.prop)
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown property", o.prop)
		return 2
	}
	begin := time.Now()
	if o.seconds == 0 {
		o.seconds = 80
		if o.tier == "thorough" {
			o.seconds = 700
		}
	}
	if o.workers == 0 {
		o.workers = runtime.NumCPU()
		if o.workers > 8 {
			o.workers = 8
		}
	}
	scratch := filepath.Join(o.verif, ".build", "work")
	os.MkdirAll(scratch, 0755)
	replays := filepath.Join(o.verif, "replays")
	os.MkdirAll(replays, 0755)
	var mu sync.Mutex
	total := &Stats{Faults: map[string]int{}, RunsWith: map[string]int{}, Counters: map[string]int{}, Known: map[string]int{}}
	distinct := map[uint64]bool{}
	var found []*Replay
	var errs []string
	states := make([]*workerState, o.workers)
	stopAll := func() {
		for _, w := range states {
			if w != nil {
				w.stdin.Close()
			}
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < o.workers; i++ {
		w := &workerState{stderr: &tail{}, prog: filepath.Join(scratch, fmt.Sprintf("%s-%d-%d.progress", o.prop, os.Getpid(), i))}
		race := s.Race && i >= o.workers*3/4 && raceExe(o) != ""
		w.cmd = command(o, race, "worker", "-property", o.prop, "-seed", fmt.Sprint(o.seed), "-verif", o.verif, "-seconds", fmt.Sprint(o.seconds),
			"-workers", fmt.Sprint(o.workers), "-index", fmt.Sprint(i), "-out", w.prog, "-to", fmt.Sprint(o.to))
		w.cmd.Env = append(w.cmd.Env, "GOMAXPROCS=2")
		w.cmd.Stderr = w.stderr
		in, err := w.cmd.StdinPipe()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		w.stdin = in
		out, err := w.cmd.StdoutPipe()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if err := w.cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		mu.Lock()
		states[i] = w
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sc := bufio.NewScanner(out)
			sc.Buffer(make([]byte, 1<<20), 1<<30)
			finished := false
			for sc.Scan() {
				var m message
				if err := json.Unmarshal(sc.Bytes(), &m); err != nil {
					continue
				}
				mu.Lock()
				if m.Replay != nil {
					found = append(found, m.Replay)
					stopAll()
				}
				if m.Stats != nil {
					finished = true
					merge(total, distinct, m.Stats)
				}
				mu.Unlock()
			}
			err := w.cmd.Wait()
			if finished {
				return
			}
			if w.cmd.ProcessState != nil && w.cmd.ProcessState.ExitCode() == exitHarness {
				mu.Lock()
				errs = append(errs, firstLines(string(w.stderr.buf), 40))
				stopAll()
				mu.Unlock()
				return
			}
			// the code under test ended the process
			b, _ := os.ReadFile(w.prog)
			r := &Replay{Property: o.prop, Kind: "process-fatal", Seed: o.seed, BySeed: true, Race: race}
			if n, _ := fmt.Sscan(string(b), &r.Run, &r.RunSeed); n != 2 {
				mu.Lock()
				errs = append(errs, fmt.Sprintf("a worker ended before its first run: %v: %s", err, w.stderr.buf))
				stopAll()
				mu.Unlock()
				return
			}
			if w.cmd.ProcessState != nil && w.cmd.ProcessState.ExitCode() == exitHang {
				r.Kind = "process-endless"
			}
			r.Text = fmt.Sprintf("the process of the simulated machine ended (%v): %s", err, firstLines(string(w.stderr.buf), 30))
			mu.Lock()
			found = append(found, r)
			stopAll()
			mu.Unlock()
		}()
	}
	wg.Wait()
	for _, w := range states {
		os.Remove(w.prog)
	}
	defer removeRaceLogs(o)
	code := 0
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, e)
		}
		return 2
	}
	for _, f := range knownFindings(o.verif) {
		if f.prop == o.prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, f.what)
		}
	}
	violations := 0
	searchWall := time.Since(begin).Seconds()
	if len(found) > 0 {
		sort.Slice(found, func(i, j int) bool { return found[i].Run < found[j].Run })
		r := found[0]
		path := filepath.Join(replays, fmt.Sprintf("%s-seed%d-run%d.json", o.prop, o.seed, r.Run))
		r.Original = len(r.Choices)
		write(path, r)
		if !r.BySeed && !r.Repeat {
			sh := command(o, r.Race, "shrink", "-property", o.prop, "-in", path, "-out", path, "-seconds", minimiseSeconds(), "-verif", o.verif)
			sh.Stderr = os.Stderr
			sh.Run()
		}
		ok, text := confirm(o, path)
		if !ok {
			// what was executed before may matter
			write(path, r)
			if ok, text = confirm(o, path); !ok && withHistory(o, path, r) {
				ok = true
			}
		}
		for i := 0; i < 20 && !ok && total.Counters["calls_of_own_goroutines"] > 0; i++ {
			ok, text = confirm(o, path)
		}
		if !ok {
			fmt.Fprintf(os.Stderr, "run %d (seed %d) reported a violation that its replay does not show: %s\n%s\n", r.Run, r.RunSeed, r.Text, firstLines(text, 40))
			return 2
		}
		b, _ := os.ReadFile(path)
		json.Unmarshal(b, r)
		violations = 1
		fmt.Printf("violation of %s (%s): %s\n", o.prop, r.Kind, r.Text)
		fmt.Printf("run %d of VERIF_SEED=%d, %d choices, %d after minimising; repeat it with: /verif/replay.sh %s\n", r.Run, o.seed, r.Original, len(r.Choices), path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
		code = 1
	}
	if len(total.Diverged) > 0 && code == 0 {
		fmt.Fprintf(os.Stderr, "the simulation is not deterministic: runs %v gave another execution the second time\n", total.Diverged)
		code = 2
	}
	if total.Runs == 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "nothing was executed")
		code = 2
	}
	evidence(o, s, total, len(distinct), searchWall, time.Since(begin).Seconds(), violations)
	if code == 0 {
		fmt.Printf("%s: held on %d simulated executions (%d distinct and non-trivial) in %.0f s\n", o.prop, total.Runs, len(distinct), searchWall)
	}
	return code
}

func merge(t *Stats, distinct map[uint64]bool, s *Stats) {
	t.Runs += s.Runs
	t.NonTrivial += s.NonTrivial
	t.SimTime += s.SimTime
	t.Steps += s.Steps
	for k, v := range s.Faults {
		t.Faults[k] += v
	}
	for k, v := range s.RunsWith {
		t.RunsWith[k] += v
	}
	for k, v := range s.Counters {
		t.Counters[k] += v
	}
	for k, v := range s.Known {
		t.Known[k] += v
	}
	t.Repeated += s.Repeated
	t.Diverged = append(t.Diverged, s.Diverged...)
	if len(t.Samples) < 6 {
		t.Samples = append(t.Samples, s.Samples...)
	}
	b, _ := base64.StdEncoding.DecodeString(s.Hashes)
	for len(b) >= 8 {
		distinct[binary.LittleEndian.Uint64(b)] = true
		b = b[8:]
	}
}

func write(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, append(b, '\n'), 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func evidence(o *options, s *scen.Scenario, t *Stats, distinct int, search, wall float64, violations int) {
	perHour := 0
	if search > 0 {
		perHour = int(float64(t.Runs) / search * 3600)
	}
	samples := t.Samples
	if samples == nil {
		samples = []string{}
	}
	unfired := []string{}
	for i, n := range core.FaultNames {
		if i > 0 && t.Faults[n] == 0 {
			unfired = append(unfired, n)
		}
	}
	ev := map[string]interface{}{
		"property": o.prop,
		"tier":     o.tier,
		"seed":     o.seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":                 t.Runs,
			"distinct_nontrivial":         distinct,
			"rule":                        s.Rule,
			"samples":                     samples,
			"seeds_per_hour":              perHour,
			"simulated_seconds":           t.SimTime,
			"simulated_steps":             t.Steps,
			"faults_injected":             t.Faults,
			"runs_with_fault":             t.RunsWith,
			"fault_kinds_not_in_this":     unfired,
			"counters":                    t.Counters,
			"executions_repeated":         t.Repeated,
			"repeated_that_differed":      len(t.Diverged),
			"known_findings_met":          t.Known,
			"components_running_for_real": s.Real,
			"components_simulated":        s.Stub,
		},
		"assumptions": append([]string{"clean runs are evidence, not proof: executions are sampled"}, s.Assume...),
		"wall_s":      wall,
		"violations":  violations,
	}
	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0755)
	write(filepath.Join(o.verif, "evidence", o.prop+".json"), ev)
}

func load(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return r
}

func (r *Replay) src() *core.Src {
	if r.BySeed {
		return core.NewSeed(r.RunSeed)
	}
	return core.NewReplay(r.Choices)
}

// replay repeats an execution: 1 when it shows the violation again.
func replay(o *options) int {
	r := load(o.in)
	if r.Kind == "process-fatal" || r.Kind == "process-endless" {
		if os.Getenv("SIMCHECK_CHILD") == "" {
			// in a process of its own, which it ends
			c := command(o, r.Race, "replay", "-in", o.in, "-verif", o.verif)
			c.Env = append(c.Env, "SIMCHECK_CHILD=1")
			out, err := c.CombinedOutput()
			fmt.Println(firstLines(string(out), 60))
			if err != nil && c.ProcessState.ExitCode() != 0 && c.ProcessState.ExitCode() != 3 {
				fmt.Printf("the violation is there again: %v\n", err)
				return 1
			}
			fmt.Println("the execution does not end the process")
			return 0
		}
	}
	if r.Race && !engsim.RaceBuild {
		if raceExe(o) == "" {
			fmt.Fprintln(os.Stderr, "the simulator that follows memory accesses is not there")
			return 2
		}
		c := command(o, true, "replay", "-in", o.in, "-verif", o.verif)
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		c.Run()
		removeRaceLogs(o)
		return c.ProcessState.ExitCode()
	}
	prepare()
	watchdog()
	s := scen.For(r.Property)
	for _, seed := range r.Before {
		execute(s, core.NewSeed(seed), false)
		if heap() > 256<<20 {
			runtime.GC()
		}
	}
	res := execute(s, r.src(), true)
	if r.Repeat {
		again := execute(s, r.src(), true)
		if again.Digest != res.Digest {
			for i, l := range res.Trace {
				if i >= len(again.Trace) || again.Trace[i] != l {
					fmt.Println("the first time: ", l)
					if i < len(again.Trace) {
						fmt.Println("the second time:", again.Trace[i])
					}
					break
				}
			}
			fmt.Printf("violation of %s (%s): %s\n", r.Property, r.Kind, r.Text)
			return 1
		}
		fmt.Println("no violation")
		return 0
	}
	for _, l := range res.Trace {
		fmt.Println(l)
	}
	v, _ := pick(r.Property, res.Violations, knownFindings(o.verif))
	if os.Getenv("SIMCHECK_CHILD") != "" {
		return 3
	}
	if v == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("violation of %s (%s): %s\n", r.Property, v.Kind, v.Text)
	return 1
}

// minimiseSeconds is how long the minimiser may take.
func minimiseSeconds() string {
	if s := os.Getenv("SECONDS_TO_MINIMISE"); s != "" {
		return s
	}
	return "60"
}

// shrink makes the choices of a violation fewer and plainer.
func shrink(o *options) {
	prepare()
	watchdog()
	r := load(o.in)
	s := scen.For(r.Property)
	known := knownFindings(o.verif)
	begin := time.Now()
	tries := 0
	best := append([]uint32(nil), r.Choices...)
	var marks []int
	attempt := func(c []uint32) bool {
		if time.Since(begin).Seconds() > o.seconds {
			return false
		}
		tries++
		if heap() > 256<<20 {
			runtime.GC()
		}
		src := core.NewReplay(c)
		res := execute(s, src, false)
		v, _ := pick(r.Property, res.Violations, known)
		if v == nil || v.Kind != r.Kind {
			return false
		}
		used := src.Rec
		// trailing zeros are the default
		for len(used) > 0 && used[len(used)-1] == 0 {
			used = used[:len(used)-1]
		}
		best = append([]uint32(nil), used...)
		marks = append([]int(nil), src.Marks...)
		return true
	}
	if !attempt(best) {
		return
	}
	// whole operations first
	for n := len(marks) / 2; n >= 1; n /= 2 {
		for i := len(marks) - n; i >= 0; i -= n {
			if i+n > len(marks) {
				continue
			}
			from, to := marks[i], len(best)
			if i+n < len(marks) {
				to = marks[i+n]
			}
			if from >= to || to > len(best) {
				continue
			}
			attempt(append(append([]uint32(nil), best[:from]...), best[to:]...))
		}
	}
	for round := 0; round < 6; round++ {
		before := fmt.Sprint(best)
		for size := len(best) / 2; size >= 1; size /= 2 {
			for at := len(best) - size; at >= 0; {
				if at+size > len(best) {
					at = len(best) - size
					if at < 0 {
						break
					}
				}
				c := append(append([]uint32(nil), best[:at]...), best[at+size:]...)
				if !attempt(c) {
					z := append([]uint32(nil), best...)
					changed := false
					for i := at; i < at+size; i++ {
						if z[i] != 0 {
							z[i] = 0
							changed = true
						}
					}
					if changed {
						attempt(z)
					}
				}
				step := size
				if size > 8 {
					step = size/2 + 1
				}
				at -= step
			}
			if time.Since(begin).Seconds() > o.seconds {
				break
			}
		}
		for i := 0; i < len(best); i++ {
			for i < len(best) && best[i] > 1 {
				z := append([]uint32(nil), best...)
				z[i] /= 2
				if !attempt(z) {
					break
				}
			}
		}
		if fmt.Sprint(best) == before || time.Since(begin).Seconds() > o.seconds {
			break
		}
	}
	res := execute(s, core.NewReplay(best), true)
	v, _ := pick(r.Property, res.Violations, known)
	if v == nil {
		return // keep the original
	}
	r.Choices = best
	r.Text = v.Text
	r.Kind = v.Kind
	r.Trace = res.Trace
	if len(r.Trace) > 3000 {
		r.Trace = r.Trace[len(r.Trace)-3000:]
	}
	write(o.out, r)
	fmt.Fprintf(os.Stderr, "minimised in %d executions\n", tries)
}

// digest prints the hash of executions, to compare them between processes.
func digest(o *options) {
	prepare()
	if o.out != "" {
		f, err := os.Create(o.out)
		if err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	watchdog()
	s := scen.For(o.prop)
	for run := o.from; run < o.to; run++ {
		res := execute(s, core.NewSeed(runSeed(o, run)), o.trace && run == o.to-1)
		for _, l := range res.Trace {
			fmt.Println(l)
		}
		fmt.Printf("%s %d %016x %016x %d\n", o.prop, run, res.Hash, res.Digest, res.Steps)
		if heap() > 256<<20 {
			runtime.GC()
		}
	}
}

func runOne(o *options) {
	prepare()
	watchdog()
	s := scen.For(o.prop)
	res := execute(s, core.NewSeed(runSeed(o, o.from)), o.trace)
	for _, l := range res.Trace {
		fmt.Println(l)
	}
	for _, v := range res.Violations {
		fmt.Println("VIOLATES", v.Props, v.Kind, v.Text)
	}
	fmt.Println(res.Sample)
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}
