//go:build go1.23

package engsim

import (
	"fmt"

	interp "github.com/steve-care-software/rodkina/libs/interpreters/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
	"github.com/steve-care-software/rodkina/zz_verif/core"
	"github.com/steve-care-software/rodkina/zz_verif/dbsim"
)

// Outcome is what a simulated execution of the engines showed.
type Outcome struct {
	Violations []dbsim.Violation
	Hash       uint64
	Digest     uint64
	Faults     [core.NFaults]int
	Steps      int
	NonTrivial bool
	Counters   map[string]int
	Trace      []string
	Sample     string
}

type run struct {
	src     *core.Src
	prop    string
	tracing bool
	out     *Outcome
}

func newRun(prop string, src *core.Src, tracing bool) *run {
	return &run{src: src, prop: prop, tracing: tracing, out: &Outcome{Counters: map[string]int{}}}
}

func (r *run) tracef(format string, a ...interface{}) {
	if r.tracing {
		r.out.Trace = append(r.out.Trace, fmt.Sprintf(format, a...))
	}
}

func (r *run) violate(kind, format string, a ...interface{}) {
	v := dbsim.Violation{Props: []string{r.prop}, Kind: kind, Text: fmt.Sprintf(format, a...)}
	r.out.Violations = append(r.out.Violations, v)
	r.tracef("VIOLATION (%s): %s", kind, v.Text)
}

func (r *run) mix(s string) {
	d := dumper{}
	r.out.Hash = core.Mix(r.out.Hash, d.str(s))
}

func (r *run) fault(k int) { r.out.Faults[k]++ }

// injected is the failure of a function.
type injected struct{ n int }

func (e *injected) Error() string { return fmt.Sprintf("<injected failure %d>", e.n) }

const statementLimit = 3_000_000

// c14 is one interpreter whose modules fail.
type c14 struct {
	*run
	app    interp.Application
	progs  [][]pstmt
	models []*mprog
	built  []programs.Program
	mods   modules.Modules
	names  *naming
	cur    []*mexec // executions in progress, innermost last
	rate   int      // failures per 1000 calls
	calls  int
	budget int
	fresh  int
	errN   int
}

// C14 runs programs whose module functions fail, panic and call back.
func C14(src *core.Src, tracing bool) *Outcome {
	t := &c14{run: newRun("C14", src, tracing), budget: 2500}
	nmods := src.Range(1, 5)
	if src.Chance(1, 8) {
		nmods = 10
	}
	t.names = newNaming(src)
	np := src.Range(1, 3)
	large := -1
	if src.Chance(1, 25) {
		large = src.Draw(np)
	}
	for i := 0; i < np; i++ {
		p := genProg(src, nmods, 4+src.Draw(22), 2)
		if i == large {
			what := ""
			p, what = genLarge(src, nmods)
			t.out.Counters["large: "+what]++
		}
		t.progs = append(t.progs, p)
		t.models = append(t.models, compileModel(p))
		t.tracef("program %d: %s", i, progString(p))
		t.mix(progString(p))
	}
	t.tracef("%s", t.names)
	t.app = interp.NewApplication(t.names.text)
	t.mods = buildModules(nmods, t.module)
	n := src.Range(1, 7)
	limit := statementLimit
	if large >= 0 {
		limit *= 50
	}
	c := alone(limit, func() {
		for i := 0; i < np; i++ {
			if !t.compile(i) {
				return
			}
		}
		for i := 0; i < n && len(t.out.Violations) == 0; i++ {
			t.rate = []int{0, 20, 80, 250}[src.Draw(4)]
			if src.Chance(1, 10) {
				if !t.compile(src.Draw(np)) {
					return
				}
			}
			t.top(src.Draw(np))
		}
	})
	if c.panicV != nil && len(t.out.Violations) == 0 {
		if c.panicV == tooLong {
			t.violate("endless", "the interpreter did not end")
		} else {
			t.violate("panic", "the interpreter panicked: %s", c.panicText())
		}
	}
	t.out.Steps = c.steps
	t.out.NonTrivial = t.calls > 1
	t.out.Counters["module_calls"] = t.calls
	t.out.Counters["executions"] = n
	t.out.Digest = t.out.Hash
	t.out.Sample = fmt.Sprintf("%d programs, %d executions, %d module calls; first program: %s", np, n, t.calls, progString(t.progs[0]))
	return t.out
}

func (t *c14) compile(i int) bool {
	p, err := t.app.Compile(t.mods, buildNamed(t.progs[i], t.names.name))
	if err != nil || p == nil {
		t.violate("compile", "a valid program was not compiled: %v", err)
		return false
	}
	if i < len(t.built) {
		t.built[i] = p
	} else {
		t.built = append(t.built, p)
	}
	return true
}

// inputs are drawn, sometimes fewer than the program needs.
func (t *c14) inputs() []interface{} {
	n := 4
	for _, m := range t.models {
		if m.inputs > n {
			n = m.inputs
		}
	}
	if t.src.Chance(1, 6) {
		n = t.src.Draw(n)
	}
	out := []interface{}{}
	for i := 0; i < n; i++ {
		if i > 8 {
			t.fresh++
			out = append(out, t.fresh)
			continue
		}
		out = append(out, t.pick())
	}
	return out
}

// pick makes a value that was not seen before.
func (t *c14) pick() interface{} {
	t.fresh++
	switch t.src.Draw(6) {
	case 1:
		return fmt.Sprintf("s%d", t.fresh)
	case 2:
		return []byte(fmt.Sprintf("b%d", t.fresh))
	case 3:
		return nil
	case 4:
		return []interface{}{t.fresh, "x"}
	}
	return t.fresh
}

// top executes a program and compares what happened with its meaning.
func (t *c14) top(prog int) {
	e := t.execute(prog, t.inputs())
	t.check(e, "")
}

func (t *c14) execute(prog int, inputs []interface{}) (e *mexec) {
	e = &mexec{prog: prog, inputs: inputs}
	t.tracef("execute program %d with %s", prog, canon(inputs))
	depth := len(t.cur)
	t.cur = append(t.cur, e)
	defer func() {
		t.cur = t.cur[:depth]
		if v := recover(); v != nil {
			if _, ok := v.(*injected); !ok {
				panic(v)
			}
			e.panicked = v
			t.tracef("the panic of the module came out of Execute")
		}
	}()
	before := canon(inputs)
	out, err := t.app.Execute(inputs, t.built[prog])
	e.result, e.err = out, err
	if canon(inputs) != before {
		t.violate("inputs", "Execute changed its inputs from %s to %s", before, canon(inputs))
	}
	t.tracef("program %d ended with %s, error %v", prog, canon(out), err)
	t.mix(canon(out))
	return e
}

// module is the function of every module.
func (t *c14) module(index uint, in map[uint]interface{}) (interface{}, error) {
	t.calls++
	e := t.cur[len(t.cur)-1]
	c := &mcall{module: index, args: canon(in)}
	e.calls = append(e.calls, c)
	t.mix(fmt.Sprint(index, c.args))
	t.tracef("%*smodule %d called with %s", len(t.cur), "", index, c.args)
	t.budget--
	if t.budget < 0 {
		c.decision = dError
		return nil, &injected{0}
	}
	if t.src.Chance(t.rate, 1000) {
		switch t.src.Draw(5) {
		case 0, 1:
			c.decision = dError
			t.errN++
			t.fault(core.FCbError)
			t.tracef("%*s it fails", len(t.cur), "")
			if t.src.Draw(2) == 1 {
				return t.pick(), &injected{t.errN}
			}
			return nil, &injected{t.errN}
		case 2:
			c.decision = dPanic
			t.errN++
			t.fault(core.FCbPanic)
			t.tracef("%*s it panics", len(t.cur), "")
			panic(&injected{t.errN})
		case 3:
			if len(t.cur) < 3 {
				t.fault(core.FCbReentry)
				c.nested = append(c.nested, t.execute(t.src.Draw(len(t.built)), t.inputs()))
			}
		case 4:
			t.fault(core.FCbReentry)
			i := t.src.Draw(len(t.progs))
			if _, err := t.app.Compile(t.mods, buildNamed(t.progs[i], t.names.name)); err != nil {
				t.violate("compile", "a valid program was not compiled inside of a module: %v", err)
			}
		}
	}
	if t.src.Chance(1, 20) {
		// the parameters belong to the module
		for k := range in {
			delete(in, k)
		}
		in[uint(t.src.Draw(4))] = "scribbled"
	}
	c.value = t.pick()
	if t.src.Chance(1, 8) {
		c.value = "of " + c.args
	}
	return c.value, nil
}

func (t *c14) check(e *mexec, in string) {
	m := &mrun{calls: e.calls, inputs: e.inputs}
	want, err := m.prog(t.models[e.prog])
	what := fmt.Sprintf("program %d%s", e.prog, in)
	if m.wrong != "" {
		t.violate("calls", "%s: %s (program: %s)", what, m.wrong, progString(t.progs[e.prog]))
		return
	}
	if m.pos < len(e.calls) {
		c := e.calls[m.pos]
		t.violate("calls", "%s: module %d was called with %s, although the execution had to end before (program: %s)", what, c.module, c.args, progString(t.progs[e.prog]))
		return
	}
	switch {
	case m.panics:
		// the panic may come out or be turned into an error
		if e.panicked == nil && e.err == nil {
			t.violate("swallowed", "%s: a module panicked, and Execute returned %s without an error", what, canon(e.result))
		}
	case e.panicked != nil:
		t.violate("panic", "%s: Execute panicked, but no module did", what)
	case err != nil && e.err == nil:
		t.violate("swallowed", "%s: the execution failed, but Execute returned %s without an error", what, canon(e.result))
	case err == nil && e.err != nil:
		t.violate("refused", "%s: Execute returned the error %v, although nothing failed (program: %s)", what, e.err, progString(t.progs[e.prog]))
	case err == nil && canonOut(e.result) != canonOut(want):
		t.violate("result", "%s: Execute returned %s instead of %s (program: %s)", what, canonOut(e.result), canonOut(want), progString(t.progs[e.prog]))
	}
	for _, c := range e.calls {
		for _, n := range c.nested {
			t.check(n, in+" inside a module of program "+fmt.Sprint(e.prog))
		}
	}
}

func canonOut(v []interface{}) string {
	if v == nil {
		v = []interface{}{}
	}
	return canon(v)
}
