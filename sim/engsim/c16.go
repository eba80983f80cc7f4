//go:build go1.23

package engsim

import (
	"fmt"
	"sort"

	"github.com/steve-care-software/rodkina/zz_verif/core"
)

const jobLimit = 40_000 // statements of a call alone

type solo struct {
	digest uint64
	steps  int
	usable bool
	text   string
}

type c16 struct {
	*run
	s      *specs
	shared *objects
	eng    *engines
	solos  map[job]*solo
	unique string
	count  int
	plan   []job // calls that functions may make
	rate   int
	sch    *sched
	kept   []keptResult
	calls  int
	kinds  [32]int // calls of each kind
	nested int
}

type keptResult struct {
	who    string
	job    job
	res    *result
	digest uint64
}

// C16 interleaves callers of shared engines, and compares what each got with
// what it gets alone.
func C16(src *core.Src, tracing bool) *Outcome {
	t := &c16{run: newRun("C16", src, tracing), solos: map[job]*solo{}}
	t.unique = fmt.Sprintf("%x.%x", src.Draw(1<<30), src.Draw(1<<30))
	t.s = genSpecs(src, t.run)
	nc := src.Range(1, 4)
	jobs := make([][]job, nc)
	for i := range jobs {
		n := src.Range(1, 3)
		for k := 0; k < n; k++ {
			j := t.s.drawJob(src)
			if k == 0 && i > 0 && len(jobs[0]) > 0 && src.Chance(1, 3) {
				j = jobs[0][0] // the same call at the same time
			}
			if t.alone(j).usable {
				jobs[i] = append(jobs[i], j)
				t.plan = append(t.plan, j)
			}
		}
	}
	if len(t.out.Violations) > 0 {
		return t.end(0)
	}
	t.shared = t.s.build("", t.plan...)
	before := t.shared.digests()
	t.eng = newEngines()
	quantum := []int{4, 40, 400, 4000}[src.Draw(4)]
	t.rate = []int{0, 50, 200}[src.Draw(3)]
	limit := 20_000
	for _, l := range jobs {
		for _, j := range l {
			limit += 40 * t.alone(j).steps
		}
	}
	if len(t.plan) > 0 {
		t.shared.again = t.again
	}
	t.sch = newSched(src, quantum, nil)
	if tracing {
		t.sch.trace = t.tracef
	}
	cs := []*caller{}
	digests := make([][]uint64, nc)
	for i := range jobs {
		l := jobs[i]
		name := fmt.Sprintf("caller %d", i)
		cs = append(cs, t.sch.spawn(name, limit, func() {
			for _, j := range l {
				digests[i] = append(digests[i], t.call(name, j))
			}
		}))
	}
	races()
	t.sch.run()
	t.shared.again = nil
	if RaceBuild {
		t.out.Counters["runs_whose_memory_accesses_were_followed"]++
		for _, r := range races() {
			t.violate("race", "two callers access the same memory at the same time: %s", r)
			break
		}
	}
	for _, l := range digests {
		for _, d := range l {
			t.out.Digest = core.Mix(t.out.Digest, d)
		}
	}
	for _, c := range cs {
		if c.panicV == nil || len(t.out.Violations) > 0 {
			continue
		}
		switch c.panicV {
		case tooLong:
			t.violate("endless", "%s did not end in %d statements, although its calls end alone", c.name, limit)
		case stuck:
			t.violate("blocked", "%s waits for ever for a lock", c.name)
		default:
			t.violate("panic", "%s panicked: %s", c.name, c.panicText())
		}
	}
	if len(t.out.Violations) == 0 {
		for _, k := range t.kept {
			if d := k.res.digest("", true); d != k.digest {
				t.violate("later", "the result of %s for %s was changed by later calls; it is now: %s", k.job, k.who, k.res)
				break
			}
		}
	}
	if len(t.out.Violations) == 0 {
		if s := t.shared.intact(); s != "" {
			t.violate("inputs", "%s", s)
		}
		after := t.shared.digests()
		names := []string{}
		for n := range before {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if before[n] != after[n] && len(t.out.Violations) == 0 {
				t.violate("inputs", "the engines changed the %s", n)
			}
		}
	}
	return t.end(nc)
}

func (t *c16) end(nc int) *Outcome {
	if t.sch != nil {
		t.out.Steps = t.sch.steps
		t.out.Hash = core.Mix(t.out.Hash, t.sch.hash)
		t.out.Counters["switches_of_callers"] = t.sch.switches
		t.out.NonTrivial = t.calls > 1 && (t.sch.switches > nc || t.nested > 0)
	}
	t.out.Counters["calls"] = t.calls
	for kind, n := range t.kinds {
		if n > 0 {
			t.out.Counters["calls: "+jobNames[kind]] = n
		}
	}
	t.out.Counters["calls_inside_of_functions"] = t.nested
	l := []job{}
	for _, k := range t.kept {
		l = append(l, k.job)
	}
	t.out.Sample = fmt.Sprintf("%d callers, %d switches, calls in the order of their ends: %v", nc, t.out.Counters["switches_of_callers"], l)
	return t.out
}

// alone makes the call with engines and inputs that nobody else ever used.
func (t *c16) alone(j job) *solo {
	if s, ok := t.solos[j]; ok {
		return s
	}
	t.count++
	suffix := fmt.Sprintf("~%s.%d~", t.unique, t.count)
	o := t.s.build(suffix, j)
	e := newEngines()
	var r *result
	c := alone(t.s.limit, func() { r = o.perform(e, j) })
	s := &solo{steps: c.steps}
	t.solos[j] = s
	switch {
	case c.panicV == tooLong:
		t.out.Counters["calls_too_long"]++
	case c.panicV != nil:
		t.out.Counters["calls_that_panic_alone"]++
	case r.skip:
	case r.text != "":
		t.violate("result", "%s alone: %s", j, r.text)
	default:
		s.usable = true
		s.digest = r.digest(suffix, true)
		s.text = r.String()
		if x := o.intact(); x != "" {
			t.violate("inputs", "%s alone: %s", j, x)
		}
	}
	return s
}

func (t *c16) call(who string, j job) uint64 {
	t.tracef("[%s] %s begins", who, j)
	r := t.shared.perform(t.eng, j)
	c := t.sch.mine()
	c.quiet++
	defer func() { c.quiet-- }()
	t.calls++
	t.kinds[j.kind]++
	d := r.digest("", true)
	want := t.solos[j]
	t.tracef("[%s] %s ends: %s", who, j, r)
	t.out.Hash = core.Mix(t.out.Hash, d)
	switch {
	case len(t.out.Violations) > 0:
	case r.text != "":
		t.violate("result", "%s: %s: %s", who, j, r.text)
	case d != want.digest:
		t.violate("result", "%s: %s returned something else than alone: %s; alone: %s", who, j, r, want.text)
	}
	t.kept = append(t.kept, keptResult{who, j, r, d})
	return d
}

// again is what a function does: it sometimes uses the engines itself.
func (t *c16) again() {
	c := t.sch.mine()
	if c == nil || c.depth >= 2 || t.nested > 30 || !t.src.Chance(t.rate, 1000) {
		return
	}
	c.depth++
	defer func() { c.depth-- }()
	t.nested++
	t.fault(core.FCbReentry)
	t.call(c.name+", inside of a function", t.plan[t.src.Draw(len(t.plan))])
}
