//go:build go1.23

package engsim

import (
	"fmt"
	"runtime"

	"github.com/steve-care-software/rodkina/instances/grammars/components"
	shipped "github.com/steve-care-software/rodkina/instances/grammars/grammars"
	asts "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/zz_verif/core"
	"github.com/steve-care-software/rodkina/zz_verif/dbsim"
)

// c17 does the same work under several orders of the maps.
type c17 struct {
	*run
}

// step is one observed result.
type step struct {
	what   string
	digest uint64
	text   string
}

// C17 repeats the same work while the runtime draws other map orders.
func C17(src *core.Src, tracing bool) *Outcome {
	t := &c17{newRun("C17", src, tracing)}
	t.out.NonTrivial = true
	seeds := []uint64{}
	n := src.Range(2, 3)
	for i := 0; i < n; i++ {
		seeds = append(seeds, uint64(src.Draw(1<<30))*4+uint64(i)+1)
	}
	switch src.Pick([]int{60, 20, 1, 15, 40}) {
	case 0:
		t.engines(seeds)
	case 1:
		t.database(seeds)
	case 2:
		t.shipped(seeds)
	case 3:
		t.suites(seeds)
	case 4:
		t.programs(seeds)
	}
	t.out.Digest = t.out.Hash
	return t.out
}

// compare reports the first result that depends on the order of the maps.
func (t *c17) compare(seeds []uint64, work func() []step) {
	var first []step
	for i, seed := range seeds {
		runtime.SimSetRand(seed)
		steps := work()
		t.tracef("map order %d: %d results", seed, len(steps))
		if i == 0 {
			first = steps
			for _, s := range steps {
				t.tracef("%s: %016x %s", s.what, s.digest, s.text)
				t.out.Hash = core.Mix(t.out.Hash, s.digest)
			}
			t.out.Counters["results_compared"] += len(steps)
			continue
		}
		for k := range first {
			if k >= len(steps) || steps[k].what != first[k].what {
				t.violate("order", "with another order of the maps, the results differ in number or kind from %s on", first[k].what)
				return
			}
			if steps[k].digest != first[k].digest {
				t.violate("order", "the result of %s depends on the order of the maps or on what was executed before: %s with one, %s with another", first[k].what, first[k].text, steps[k].text)
				return
			}
		}
		if len(steps) > len(first) {
			t.violate("order", "with another order of the maps, there are %d results instead of %d", len(steps), len(first))
			return
		}
	}
}

func (t *c17) engines(seeds []uint64) {
	s := genSpecs(t.src, t.run)
	n := t.src.Range(2, 8)
	jobs := []job{}
	kinds := map[int]bool{}
	for i := 0; i < n; i++ {
		j := s.drawJob(t.src)
		jobs = append(jobs, j)
		if !kinds[j.kind] {
			kinds[j.kind] = true
			t.out.Counters["runs with "+jobNames[j.kind]]++
		}
	}
	t.compare(seeds, func() []step {
		out := []step{}
		e := newEngines()
		o := s.build("", jobs...)
		for _, j := range jobs {
			var r *result
			c := alone(s.limit, func() { r = o.perform(e, j) })
			t.out.Steps += c.steps
			switch {
			case c.panicV == tooLong:
				out = append(out, step{what: j.String(), digest: 1, text: "too long"})
			case c.panicV != nil:
				out = append(out, step{what: j.String(), digest: 2, text: "panic"})
			default:
				out = append(out, step{j.String(), r.digest("", false), r.String()})
			}
		}
		return out
	})
	t.out.Sample = fmt.Sprintf("calls %v under %d map orders", jobs, len(seeds))
}

// programs compiles and executes programs with many parameters.
func (t *c17) programs(seeds []uint64) {
	for len(seeds) < 6 {
		seeds = append(seeds, uint64(t.src.Draw(1<<30))*8+uint64(len(seeds))+1)
	}
	n := t.src.Range(1, 4)
	progs := [][]pstmt{}
	for i := 0; i < n; i++ {
		p := genProg(t.src, 4, 6+t.src.Draw(30), 1)
		progs = append(progs, p)
		t.tracef("program %d: %s", i, progString(p))
		t.mix(progString(p))
	}
	inputs := []interface{}{}
	for i := 0; i < 5; i++ {
		inputs = append(inputs, fmt.Sprintf("in%d", i))
	}
	t.compare(seeds, func() []step {
		out := []step{}
		e := newEngines()
		calls := []string{}
		mods := buildModules(4, func(index uint, in map[uint]interface{}) (interface{}, error) {
			args := canon(in)
			calls = append(calls, fmt.Sprintf("%d(%s)", index, args))
			if len(args)%13 == 12 {
				return nil, fmt.Errorf("module %d refuses %s", index, args)
			}
			return fmt.Sprintf("r%d.%d", index, len(calls)), nil
		})
		for i, p := range progs {
			c := alone(jobLimit, func() {
				what := fmt.Sprintf("program %d", i)
				ins := buildProg(p, "")
				pr, err := e.interp.Compile(mods, ins)
				out = append(out, step{"compiling " + what, digestOf("", false, pr, err), fmt.Sprintf("a program, error %v", err)})
				if err != nil {
					return
				}
				v, err := e.interp.Execute(inputs, pr)
				out = append(out, step{"executing " + what, digestOf("", true, canonOut(v), err, fmt.Sprint(calls)), fmt.Sprintf("%s, error %v, calls %v", canonOut(v), err, calls)})
			})
			t.out.Steps += c.steps
			if c.panicV != nil {
				out = append(out, step{what: fmt.Sprintf("program %d", i), digest: 2, text: "panic"})
			}
		}
		return out
	})
	t.out.Sample = fmt.Sprintf("%d programs under %d map orders; %s", n, len(seeds), progString(progs[0]))
	t.out.Counters["runs with programs"]++
}

// database compares the files that the same operations leave.
func (t *c17) database(seeds []uint64) {
	cfg := dbsim.Config{Prop: "C17", Nodes: [2]int{1, 1}, DBs: [2]int{1, 2}, Ops: [2]int{5, 40}, Epochs: [2]int{1, 2},
		Weights: [11]int{2, 1, 1, 8, 4, 16, 1, 22, 8, 1, 1}, Fault: []int{0}, Clock: []int{1}, Sizes: []int{0, 1, 2}}
	var rec []uint32
	base := len(t.src.Rec)
	n := 0
	t.compare(seeds, func() []step {
		src := t.src
		if n > 0 {
			src = core.NewReplay(rec)
		}
		r := dbsim.Execute(cfg, src, false)
		if n == 0 {
			rec = append([]uint32(nil), t.src.Rec[base:]...)
			t.out.Counters["commits"] += r.Commits
			t.out.Sample = fmt.Sprintf("%d operations on databases, %d commits, under %d map orders", r.Ops, r.Commits, len(seeds))
			t.tracef("%s", t.out.Sample)
		}
		n++
		w := r.World()
		t.out.Steps += w.Step
		return []step{
			{"the operations on the databases (the bytes on disk)", w.FS.Digest(), fmt.Sprintf("%016x", w.FS.Digest())},
		}
	})
	t.out.Counters["runs with databases"]++
}

// shipped compares the grammar that comes with the repository.
func (t *c17) shipped(seeds []uint64) {
	full := t.src.Chance(1, 8)
	picks := [][2]int{}
	for n := t.src.Range(1, 4); n > 0; n-- {
		picks = append(picks, [2]int{t.src.Draw(1 << 20), t.src.Draw(1 << 20)})
	}
	names := []string{}
	t.compare(seeds[:2], func() []step {
		out := []step{}
		d := newDumper("", false)
		g := shipped.NewGrammar().Grammar()
		if full {
			out = append(out, step{"building the shipped grammar", d.digest(g), "a grammar"})
		}
		toks := tokensOf(g)
		names = names[:0]
		for _, p := range picks {
			k := toks[p[0]%len(toks)]
			names = append(names, k.Name())
			small, err := grammars.NewBuilder().Create().WithRoot(k).WithChannels(g.Channels()).Now()
			if err != nil {
				panic(err)
			}
			out = append(out, step{"choosing the token", d.digest(k.Name()), k.Name()})
			app := asts.NewApplication()
			if k.HasSuites() {
				l := k.Suites().List()
				b, _ := app.Compose(tokenFor(l[p[1]%len(l)].Content()))
				c := alone(300_000, func() {
					tr, err := app.Execute(small, b)
					text := "error"
					if err == nil {
						ids := 0
						text = specOf(tr, &ids).String()
					}
					out = append(out, step{"parsing a suite of " + k.Name(), d.digest(tr, err), text})
				})
				t.out.Steps += c.steps
			}
			if len(l2(k)) <= 40 {
				c := alone(600_000, func() {
					cov, err := app.Coverages(small)
					out = append(out, step{"the coverages of " + k.Name(), d.digest(cov, err), "coverages"})
					if cov != nil {
						un, err := app.Uncovered(small)
						out = append(out, step{"the uncovered elements of " + k.Name(), d.digest(un, err), fmt.Sprint(un)})
					}
				})
				t.out.Steps += c.steps
				if c.panicV == nil {
					t.out.Counters["coverages of shipped tokens"]++
				}
			}
		}
		t.out.Sample = fmt.Sprintf("the shipped grammar (%d tokens), tokens %q, under 2 map orders", len(toks), names)
		return out
	})
	t.out.Counters["runs with the shipped grammar"]++
}

func tokenFor(c grammars.Compose) grammars.Token {
	line := must(grammars.NewLineBuilder().Create().WithContainers([]grammars.Container{must(grammars.NewContainerBuilder().Create().WithCompose(c).Now())}).Now())
	return must(grammars.NewTokenBuilder().Create().WithName("suite").WithBlock(must(grammars.NewBlockBuilder().Create().WithLines([]grammars.Line{line}).Now())).Now())
}

// l2 are the tokens below a token.
func l2(k grammars.Token) []grammars.Token {
	out := []grammars.Token{}
	below(k, map[string]bool{}, &out)
	return out
}

func tokensOf(g grammars.Grammar) []grammars.Token {
	return l2(g.Root())
}

func below(k grammars.Token, seen map[string]bool, out *[]grammars.Token) {
	if seen[k.Name()] {
		return
	}
	seen[k.Name()] = true
	*out = append(*out, k)
	for _, l := range k.Block().Lines() {
		for _, c := range l.Containers() {
			if !c.IsElement() || !c.Element().Content().IsInstance() {
				continue
			}
			in := c.Element().Content().Instance()
			if in.IsToken() {
				below(in.Token(), seen, out)
				continue
			}
			below(in.Everything().Exception(), seen, out)
			if in.Everything().HasEscape() {
				below(in.Everything().Escape(), seen, out)
			}
		}
	}
}

// suites compares the suites and tokens that the components make.
func (t *c17) suites(seeds []uint64) {
	n := t.src.Range(1, 12)
	words := []string{}
	valid := map[string]bool{}
	for i := 0; i < n; i++ {
		w := make([]byte, 1+t.src.Draw(3))
		for k := range w {
			w[k] = byte('a' + t.src.Draw(6))
		}
		if _, ok := valid[string(w)]; !ok {
			words = append(words, string(w))
			valid[string(w)] = t.src.Draw(2) == 0
		}
	}
	chars := string([]byte("abcdefghijklm")[:1+t.src.Draw(13)])
	t.compare(seeds, func() []step {
		c := components.NewComponent()
		m := map[string]bool{}
		at := 0
		for range words {
			// the order of insertion also is another one
			at = (at + 7) % len(words)
			m[words[at]] = valid[words[at]]
		}
		for _, w := range words {
			m[w] = valid[w]
		}
		out := []step{{"making suites", digestOf("", false, c.Suite().Suites(m)), fmt.Sprintf("suites of %q", words)}}
		any := c.Token().AnyCharacter("any", chars)
		out = append(out, step{"making a token of any character", digestOf("", false, any), "of " + chars})
		out = append(out, step{"making a token of all characters", digestOf("", false, c.Token().AllCharacters("all", chars)), "of " + chars})
		g := must(grammars.NewBuilder().Create().WithRoot(any).Now())
		app := asts.NewApplication()
		x := alone(300_000, func() {
			cov, err := app.Coverages(g)
			out = append(out, step{"the coverages of any character", digestOf("", false, cov, err), "coverages"})
			un, err := app.Uncovered(g)
			out = append(out, step{"the uncovered elements of any character", digestOf("", false, un, err), fmt.Sprint(un)})
		})
		t.out.Steps += x.steps
		return out
	})
	t.out.Sample = fmt.Sprintf("suites of %q and tokens of %q under %d map orders", words, chars, len(seeds))
	t.mix(t.out.Sample)
	t.out.Counters["runs with suites"]++
}
