//go:build go1.23

package engsim

import (
	"fmt"
	"iter"
	"runtime"
	"runtime/debug"
	"sync"

	"github.com/steve-care-software/rodkina/zz_verif/core"
	"github.com/steve-care-software/rodkina/zz_verif/zzyield"
)

type sentinel struct{ why string }

var tooLong = &sentinel{"the budget of statements is used up"}
var stuck = &sentinel{"every caller waits for a lock"}

// caller is one of the simulated users of the engines.
type caller struct {
	name    string
	next    func() (int, bool)
	yield   func(int) bool
	goid    uint64
	done    bool
	waiting bool // for a lock
	steps   int
	panicV  interface{}
	stack   string
	limit   int
	quiet   int // the harness itself looks at things
	depth   int // calls inside of functions
}

// sched interleaves callers at the statements of the engines.
type sched struct {
	src      *core.Src
	callers  []*caller
	cur      *caller
	left     int // statements before the next decision
	quantum  int
	switches int
	hash     uint64
	steps    int
	trace    func(string, ...interface{})
	deadlock bool
}

func newSched(src *core.Src, quantum int, trace func(string, ...interface{})) *sched {
	return &sched{src: src, quantum: quantum, trace: trace}
}

func (s *sched) spawn(name string, limit int, body func()) *caller {
	c := &caller{name: name, limit: limit}
	c.next, _ = iter.Pull(func(yield func(int) bool) {
		c.yield = yield
		c.goid = runtime.SimGoid()
		defer func() {
			if r := recover(); r != nil {
				c.panicV = r
				c.stack = string(debug.Stack())
			}
			raceRelease()
		}()
		body()
	})
	s.callers = append(s.callers, c)
	return c
}

// draw decides for how long the current caller goes on; zero is for ever.
func (s *sched) draw() {
	if s.quantum <= 0 {
		s.left = 1 << 40
		return
	}
	n := s.src.Draw(s.quantum)
	if n == 0 {
		n = 1 << 40
	}
	s.left = n
}

func (s *sched) pick() *caller {
	var ready []*caller
	for _, c := range s.callers {
		if !c.done && !c.waiting {
			ready = append(ready, c)
		}
	}
	if len(ready) == 0 {
		// those that wait try again
		for _, c := range s.callers {
			if !c.done {
				ready = append(ready, c)
			}
		}
	}
	if len(ready) == 0 {
		return nil
	}
	return ready[s.src.Draw(len(ready))]
}

// run runs the callers to their ends.
func (s *sched) run() {
	zzyield.Hook = s.statement
	sync.SimLock = s.lock
	running = s
	defer func() {
		raceAcquire()
		zzyield.Hook = nil
		sync.SimLock = nil
		running = nil
	}()
	idle := 0
	for {
		c := s.pick()
		if c == nil {
			return
		}
		if c.waiting {
			idle++
			if idle > 4*len(s.callers)+8 {
				s.deadlock = true
			}
		} else {
			idle = 0
		}
		if s.cur != c {
			s.switches++
			s.hash = core.Mix(s.hash, uint64(s.steps)<<8|uint64(len(c.name)))
			if s.trace != nil {
				s.trace("[%s] goes on (statement %d)", c.name, s.steps)
			}
		}
		s.cur = c
		s.draw()
		s.switchBegin()
		_, more := c.next()
		s.switchEnd()
		if !more {
			c.done = true
		}
	}
}

// The switches between callers do not order what they do.
func (s *sched) switchBegin() {
	if len(s.callers) > 1 {
		raceSwitchBegin()
	}
}

func (s *sched) switchEnd() {
	if len(s.callers) > 1 {
		raceSwitchEnd()
	}
}

func (s *sched) pause(c *caller) {
	s.switchBegin()
	c.yield(0)
	s.switchEnd()
}

// running is the scheduler that runs callers, if any.
var running *sched

// quietly looks at things for the harness: this is not a part of any call.
func quietly(f func()) {
	if running != nil {
		if c := running.mine(); c != nil {
			c.quiet++
			defer func() { c.quiet-- }()
		}
	}
	f()
}

func (s *sched) mine() *caller {
	c := s.cur
	if c == nil || runtime.SimGoid() != c.goid {
		return nil
	}
	return c
}

func (s *sched) statement() {
	c := s.mine()
	if c == nil || c.quiet > 0 {
		return
	}
	s.steps++
	c.steps++
	if c.steps > c.limit {
		panic(tooLong)
	}
	s.left--
	if s.left <= 0 {
		s.pause(c)
	}
}

// lock takes a lock of the engines for the current caller.
func (s *sched) lock(try func() bool) bool {
	c := s.mine()
	if c == nil {
		return false
	}
	for !try() {
		if s.deadlock {
			panic(stuck)
		}
		c.waiting = true
		s.pause(c)
	}
	c.waiting = false
	return true
}

// alone runs one body to its end without interleaving.
func alone(limit int, body func()) *caller {
	s := newSched(core.NewReplay(nil), 0, nil)
	c := s.spawn("alone", limit, body)
	s.run()
	return c
}

func (c *caller) panicText() string {
	if c.panicV == nil {
		return ""
	}
	if p, ok := c.panicV.(*sentinel); ok {
		return p.why
	}
	return fmt.Sprintf("%v\n%s", c.panicV, c.stack)
}

// Idle tells that no callers run.
func Idle() bool { return running == nil }
