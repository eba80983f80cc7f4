#!/usr/bin/env python3
"""Writes the overlay with which the simulator is built:

  * eight files of the Go standard library get a seam (system calls, the wall
    clock, sleeping, locks, pools, the random source of maps, coroutines), patched from the installed
    sources into BUILD/std; nothing outside BUILD is written;
  * the packages of /verif/sim appear in the module of /repo under zz_verif/.

usage: mkoverlay.py BUILD_DIR REPO GOROOT SIM_DIR
"""
import json, os, sys

build, repo, goroot, sim = [os.path.abspath(x) for x in sys.argv[1:5]]
std = os.path.join(build, "std")
os.makedirs(std, exist_ok=True)
replace = {}


def patch(rel, subs):
    src = os.path.join(goroot, "src", rel)
    text = open(src).read()
    for old, new in subs:
        if text.count(old) != 1:
            sys.exit("mkoverlay: %s: expected exactly one %r, found %d" % (rel, old[:80], text.count(old)))
        text = text.replace(old, new)
    out = os.path.join(std, rel.replace("/", "__"))
    with open(out, "w") as f:
        f.write(text)
    replace[src] = out


patch("syscall/syscall_linux.go", [
    ("""//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
""", """// SimHook, when set, answers the system calls it recognises.
var SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2, errno uintptr, handled bool)

//go:uintptrescapes
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if SimHook != nil {
		if x1, x2, e, ok := SimHook(trap, a1, a2, a3, 0, 0, 0); ok {
			return x1, x2, Errno(e)
		}
	}
	return simRealSyscall(trap, a1, a2, a3)
}

//go:uintptrescapes
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if SimHook != nil {
		if x1, x2, e, ok := SimHook(trap, a1, a2, a3, a4, a5, a6); ok {
			return x1, x2, Errno(e)
		}
	}
	return simRealSyscall6(trap, a1, a2, a3, a4, a5, a6)
}

//go:uintptrkeepalive
//go:nosplit
func simRealSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
"""),
    ("""//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
""", """//go:uintptrkeepalive
//go:nosplit
func simRealSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
"""),
])

patch("time/time.go", [
    ("""func Now() Time {
	sec, nsec, mono := runtimeNow()
""", """func Now() Time {
	if SimNow != nil {
		if ns, ok := SimNow(); ok {
			return Unix(0, ns)
		}
	}
	sec, nsec, mono := runtimeNow()
"""),
    ("""//go:linkname Now

// Now returns""", """// SimNow, when set, answers for the wall clock.
var SimNow func() (unixNano int64, handled bool)

//go:linkname Now

// Now returns"""),
])

patch("time/sleep.go", [
    ("""func Sleep(d Duration)
""", """func Sleep(d Duration) {
	if SimSleep != nil && SimSleep(d) {
		return
	}
	simRealSleep(d)
}

// SimSleep, when set, answers for Sleep.
var SimSleep func(d Duration) bool

func simRealSleep(d Duration)
"""),
])

patch("runtime/time.go", [
    ("//go:linkname timeSleep time.Sleep\n", "//go:linkname timeSleep time.simRealSleep\n"),
])

patch("runtime/rand.go", [
    ("""	globalRand.state.Init(*seed)
	clear(seed[:])
""", """	for i := range seed {
		seed[i] = byte(i*7 + 3)
	}
	globalRand.state.Init(*seed)
	clear(seed[:])
"""),
    # a thread that the runtime starts must not use the simulated source
    ("""	mp.cheaprand = uint32(rand())
	mp.cheaprand64 = rand()
""", """	mp.cheaprand = uint32(seed[0]) | 1
	mp.cheaprand64 = seed[1] | 1
"""),
    ("""	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next is marked nosplit,""", """	if simRand != 0 {
		simRand += 0x9e3779b97f4a7c15
		z := simRand
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next is marked nosplit,"""),
    ("""//go:linkname maps_rand internal/runtime/maps.rand
""", """// simRand is the state of the simulated random source, zero when it is off.
var simRand uint64

// SimSetRand starts the simulated random source, zero stops it.
func SimSetRand(x uint64) { simRand = x }

// SimGoid returns the identifier of the current goroutine.
func SimGoid() uint64 { return getg().goid }

//go:linkname maps_rand internal/runtime/maps.rand
"""),
])

# a caller that waits for a lock lets the simulated callers go on
patch("sync/mutex.go", [
    ("""func (m *Mutex) Lock() {
	m.mu.Lock()
""", """func (m *Mutex) Lock() {
	if SimLock != nil && SimLock(m.TryLock) {
		return
	}
	m.mu.Lock()
"""),
    ("""// TryLock tries to lock m and reports""", """// SimLock, when set, takes a lock for the simulated callers.
var SimLock func(try func() bool) bool

// TryLock tries to lock m and reports"""),
])
patch("sync/rwmutex.go", [
    ("""func (rw *RWMutex) RLock() {
""", """func (rw *RWMutex) RLock() {
	if SimLock != nil && SimLock(rw.TryRLock) {
		return
	}
"""),
    ("""func (rw *RWMutex) Lock() {
""", """func (rw *RWMutex) Lock() {
	if SimLock != nil && SimLock(rw.TryLock) {
		return
	}
"""),
])

# where memory accesses are followed, a pool drops what it gets: by chance as it
# does otherwise, it would order what callers do
patch("sync/pool.go", [
    ("		if runtime_randn(4) == 0 {\n", "		if runtime_randn(4) < 4 {\n"),
])

# what follows the memory accesses of a coroutine is freed at its end, which Go
# does for goroutines only
patch("runtime/coro.go", [
    ("""	gp.coroexit = true
""", """	gp.coroexit = true
	if raceenabled {
		racegoend()
	}
"""),
])

# waiting for a file lock uses the time and the processes of the simulation,
# not a goroutine and a timer of the machine the check runs on
lock = os.path.join(repo, "vendor/github.com/juju/fslock/fslock_nix.go")
if os.path.exists(lock):
    text = open(lock).read()
    old = """	result := make(chan error)
	cancel := make(chan struct{})
	go func() {
		err := syscall.Flock(l.fd, syscall.LOCK_EX)
		select {
		case <-cancel:
			// Timed out, cleanup if necessary.
			syscall.Flock(l.fd, syscall.LOCK_UN)
			syscall.Close(l.fd)
		case result <- err:
		}
	}()
	select {
	case err := <-result:
		return err
	case <-time.After(timeout):
		close(cancel)
		return ErrTimeout
	}
"""
    if text.count(old) == 1:
        text = text.replace(old, """	for waited := time.Duration(0); ; waited += timeout/5 + 1 {
		err := syscall.Flock(l.fd, syscall.LOCK_EX|syscall.LOCK_NB)
		if err != syscall.EWOULDBLOCK {
			return err
		}
		if waited >= timeout {
			syscall.Close(l.fd)
			return ErrTimeout
		}
		time.Sleep(timeout/5 + 1)
	}
""")
        out = os.path.join(std, "fslock_nix.go")
        with open(out, "w") as f:
            f.write(text)
        replace[lock] = out

for root, _, files in os.walk(sim):
    for name in files:
        if name.endswith(".go"):
            src = os.path.join(root, name)
            replace[os.path.join(repo, "zz_verif", os.path.relpath(src, sim))] = src

extra = os.path.join(build, "yield")
if os.path.isdir(extra):
    for root, _, files in os.walk(extra):
        for name in files:
            if name.endswith(".go"):
                src = os.path.join(root, name)
                replace[os.path.join(repo, os.path.relpath(src, extra))] = src

with open(os.path.join(build, "overlay.json"), "w") as f:
    json.dump({"Replace": replace}, f, indent=1)
