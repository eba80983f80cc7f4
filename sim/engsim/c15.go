//go:build go1.23

package engsim

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	query_apps "github.com/steve-care-software/rodkina/libs/queries/applications"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
	"github.com/steve-care-software/rodkina/zz_verif/core"
)

// c15 is one query engine whose functions fail.
type c15 struct {
	*run
	app     query_apps.Application
	trees   []*tnode
	built   []trees.Tree
	queries []*qspec
	of      []int // the tree each query was drawn for
	ids     map[trees.Content]int
	known   map[*tnode]bool
	cur     []*qexec
	rate    int
	calls   int
	budget  int
	fresh   int
	errN    int
}

// C15 runs queries whose functions fail, panic and call back.
func C15(src *core.Src, tracing bool) *Outcome {
	t := &c15{run: newRun("C15", src, tracing), budget: 3000, ids: map[trees.Content]int{}, known: map[*tnode]bool{}}
	t.app = query_apps.NewApplication()
	ids, qid := 0, 0
	nt := src.Range(1, 3)
	large := -1
	if src.Chance(1, 25) {
		large = src.Draw(nt)
	}
	names := newLabels(src)
	t.tracef("names like %q", names.words)
	maker := newTreeMaker(names.name, true)
	for i := 0; i < nt; i++ {
		var n *tnode
		if i == large {
			g := &treeGen{src: src, ids: ids}
			qg := &queryGen{src: src, ids: qid}
			tree, q, what := g.large(qg)
			n, ids, qid = tree, g.ids, qg.ids
			t.queries = append(t.queries, q)
			t.of = append(t.of, i)
			t.out.Counters["large: "+what]++
			t.built = append(t.built, maker.tree(n))
			t.tracef("query %d: %s", len(t.queries)-1, q)
			t.mix(q.String())
		} else if names.words == nil && src.Chance(1, 3) {
			if tr := parsedTree(src); tr != nil {
				n = specOf(tr, &ids)
				t.built = append(t.built, tr)
				t.out.Counters["parsed_trees"]++
			}
		}
		if n == nil {
			g := &treeGen{src: src, ids: ids}
			n = g.node(tokenNames[src.Draw(len(tokenNames))], src.Draw(5))
			ids = g.ids
			if src.Chance(1, 3) {
				n.remaining = []byte(fmt.Sprintf("rest%d", i))
			}
			t.built = append(t.built, maker.tree(n))
		}
		t.trees = append(t.trees, n)
		t.index(n)
		t.tracef("tree %d: %s", i, n)
		t.mix(n.String())
	}
	nq := src.Range(1, 4)
	for i := 0; i < nq; i++ {
		g := &queryGen{src: src, ids: qid}
		of := src.Draw(nt)
		q := g.query(t.trees[of], src.Draw(5), nil)
		qid = g.ids
		if !affordable(q, t.trees[of]) {
			q.inside, q.fetchers = 1, nil
		}
		t.queries = append(t.queries, q)
		t.of = append(t.of, of)
		t.tracef("query %d: %s", len(t.queries)-1, q)
		t.mix(q.String())
	}
	qm := &queryMaker{names.name, functions{t.contentOne, t.contentMany, t.queryOne, t.queryMany}, map[*qspec]queries.Query{}}
	for _, q := range t.queries {
		q.built = qm.query(q)
	}
	n := src.Range(1, 8)
	limit := statementLimit
	if large >= 0 {
		limit *= 50
	}
	c := alone(limit, func() {
		for i := 0; i < n && len(t.out.Violations) == 0; i++ {
			t.rate = []int{0, 30, 100, 300}[src.Draw(4)]
			q, tr := t.which()
			t.check(t.execute(q, tr), "")
		}
	})
	if c.panicV != nil && len(t.out.Violations) == 0 {
		if c.panicV == tooLong {
			t.violate("endless", "the query engine did not end")
		} else {
			t.violate("panic", "the query engine panicked: %s", c.panicText())
		}
	}
	t.out.Steps = c.steps
	t.out.NonTrivial = t.calls > 1
	t.out.Counters["function_calls"] = t.calls
	t.out.Counters["executions"] = n
	t.out.Digest = t.out.Hash
	t.out.Sample = fmt.Sprintf("%d trees, %d queries, %d executions, %d function calls; tree 0: %s; query 0: %s", nt, nq, n, t.calls, t.trees[0], t.queries[0])
	return t.out
}

func (t *c15) index(n *tnode) {
	if t.known[n] {
		return
	}
	t.known[n] = true
	for _, e := range n.elements {
		for _, c := range e.contents {
			if c.obj != nil {
				t.ids[c.obj] = c.id
			}
			if c.node != nil {
				t.index(c.node)
			}
		}
	}
}

func (t *c15) which() (int, int) {
	q := t.src.Draw(len(t.queries))
	tr := t.of[q]
	if t.src.Chance(1, 10) {
		other := t.src.Draw(len(t.trees))
		if affordable(t.queries[q], t.trees[other]) {
			tr = other
		}
	}
	return q, tr
}

// affordable says whether a query comes to an end on a tree before long: two
// fetchers that recurse visit twice as much on each level.
func affordable(q *qspec, n *tnode) bool {
	left := 4000
	var visit func(q *qspec, n *tnode, around map[string]*qspec)
	visit = func(q *qspec, n *tnode, around map[string]*qspec) {
		left--
		if left < 0 || q.token != n.token || !n.ok || q.inside != 2 {
			return
		}
		inner := map[string]*qspec{}
		for k, v := range around {
			inner[k] = v
		}
		inner[q.token] = q
		for _, c := range q.selected(n) {
			left--
			if c.node == nil {
				continue
			}
			for _, f := range q.fetchers {
				target := f.query
				if target == nil {
					target = inner[f.recursive]
				}
				if target != nil {
					visit(target, c.node, inner)
				}
			}
		}
	}
	visit(q, n, nil)
	return left >= 0
}

func (t *c15) execute(q int, tr int) (e *qexec) {
	e = &qexec{tree: tr, query: q}
	t.tracef("execute query %d on tree %d", q, tr)
	depth := len(t.cur)
	t.cur = append(t.cur, e)
	defer func() {
		t.cur = t.cur[:depth]
		if v := recover(); v != nil {
			if _, ok := v.(*injected); !ok {
				panic(v)
			}
			e.panicked = v
			t.tracef("the panic of the function came out of Execute")
		}
	}()
	e.value, e.valid, e.rest, e.err = t.app.Execute(t.queries[q].built, t.built[tr])
	t.tracef("query %d ended with %s, valid %v, remaining %q, error %v", q, canon(e.value), e.valid, e.rest, e.err)
	t.mix(fmt.Sprint(canon(e.value), e.valid))
	return e
}

func (t *c15) pick() interface{} {
	t.fresh++
	switch t.src.Draw(6) {
	case 1:
		return fmt.Sprintf("s%d", t.fresh)
	case 2:
		return []byte(fmt.Sprintf("b%d", t.fresh))
	case 3:
		return nil
	case 4:
		return []interface{}{t.fresh, "x"}
	}
	return t.fresh
}

func (t *c15) name(c trees.Content) string {
	if id, ok := t.ids[c]; ok {
		return fmt.Sprintf("#%d", id)
	}
	return "a content that is not in the tree"
}

// before records a call and decides about it.
func (t *c15) before(q *qspec, content bool, args string) (*qcall, *injected) {
	t.calls++
	c := &qcall{query: q.id, content: content, args: args}
	e := t.cur[len(t.cur)-1]
	e.calls = append(e.calls, c)
	what := "function"
	if content {
		what = "content function"
	}
	t.mix(fmt.Sprint(q.id, what, args))
	t.tracef("%*s%s of q%d called with %s", len(t.cur), "", what, q.id, args)
	t.budget--
	fail := func() *injected {
		t.errN++
		c.decision = dError
		c.err = &injected{t.errN}
		t.tracef("%*s it fails", len(t.cur), "")
		return c.err.(*injected)
	}
	if t.budget < 0 {
		return c, fail()
	}
	if t.src.Chance(t.rate, 1000) {
		switch t.src.Draw(5) {
		case 0, 1, 2:
			t.fault(core.FCbError)
			return c, fail()
		case 3:
			t.errN++
			c.decision = dPanic
			t.fault(core.FCbPanic)
			t.tracef("%*s it panics", len(t.cur), "")
			panic(&injected{t.errN})
		case 4:
			if len(t.cur) < 3 {
				t.fault(core.FCbReentry)
				qq, tr := t.which()
				c.nested = append(c.nested, t.execute(qq, tr))
			}
		}
	}
	return c, nil
}

func (t *c15) list() []interface{} {
	n := t.src.Pick([]int{2, 6, 3, 1})
	if n == 0 && t.src.Draw(2) == 0 {
		return nil
	}
	out := []interface{}{}
	for i := 0; i < n; i++ {
		out = append(out, t.pick())
	}
	return out
}

func (t *c15) contents(q *qspec, l []trees.Content) ([]interface{}, error) {
	names := []string{}
	for _, c := range l {
		names = append(names, t.name(c))
	}
	c, bad := t.before(q, true, strings.Join(names, ","))
	if bad != nil {
		if t.src.Draw(2) == 1 {
			return t.list(), bad
		}
		return nil, bad
	}
	c.list = t.list()
	return append([]interface{}(nil), c.list...), nil
}

func (t *c15) contentOne(q *qspec, c trees.Content) ([]interface{}, error) {
	return t.contents(q, []trees.Content{c})
}

func (t *c15) contentMany(q *qspec, l []trees.Content) ([]interface{}, error) {
	if len(l) == 0 {
		return nil, nil // nothing was selected
	}
	return t.contents(q, l)
}

func (t *c15) answer(q *qspec, args string) (interface{}, bool, error) {
	c, bad := t.before(q, false, args)
	if bad != nil {
		if t.src.Draw(2) == 1 {
			return t.pick(), true, bad
		}
		return nil, false, bad
	}
	c.valid = !t.src.Chance(1, 5)
	c.value = t.pick()
	if t.src.Chance(1, 8) {
		c.value = "of " + args
	}
	return c.value, c.valid, nil
}

func (t *c15) queryOne(q *qspec, v interface{}) (interface{}, bool, error) {
	return t.answer(q, canon(v))
}

func (t *c15) queryMany(q *qspec, v []interface{}) (interface{}, bool, error) {
	return t.answer(q, canonOut(v))
}

func (t *c15) check(e *qexec, in string) {
	m := &qrun{calls: e.calls}
	q := t.queries[e.query]
	value, valid, err := m.fetch(q, t.trees[e.tree], nil)
	what := fmt.Sprintf("query %s on tree %d%s", q, e.tree, in)
	if m.wrong != "" {
		t.violate("calls", "%s: %s (tree: %s)", what, m.wrong, t.trees[e.tree])
		return
	}
	if m.pos < len(e.calls) {
		c := e.calls[m.pos]
		t.violate("calls", "%s: a function of q%d was called with %s, although the execution had to end before (tree: %s)", what, c.query, c.args, t.trees[e.tree])
		return
	}
	rest := t.trees[e.tree].remaining
	switch {
	case m.panics:
		if e.panicked == nil && e.err == nil {
			t.violate("swallowed", "%s: a function panicked, and Execute returned without an error", what)
		}
	case e.panicked != nil:
		t.violate("panic", "%s: Execute panicked, but no function did", what)
	case m.failed != nil && e.err == nil:
		t.violate("swallowed", "%s: a function failed, but Execute returned %s (valid: %v) without an error", what, canon(e.value), e.valid)
	case m.failed != nil && !strings.Contains(e.err.Error(), m.failed.Error()):
		t.violate("error", "%s: a function failed with %q, but Execute returned another error: %v", what, m.failed, e.err)
	case m.failed != nil:
	case err != nil && e.err == nil:
		t.violate("mismatch", "%s: the query does not match the tree, but Execute returned %s (valid: %v) without an error (tree: %s)", what, canon(e.value), e.valid, t.trees[e.tree])
	case err != nil:
	case e.err != nil:
		t.violate("refused", "%s: Execute returned the error %v, although nothing failed (tree: %s)", what, e.err, t.trees[e.tree])
	case e.valid != valid:
		t.violate("validity", "%s: Execute reported valid=%v instead of %v (tree: %s)", what, e.valid, valid, t.trees[e.tree])
	case valid && canon(e.value) != canon(value):
		t.violate("value", "%s: Execute returned %s instead of %s (tree: %s)", what, canon(e.value), canon(value), t.trees[e.tree])
	case !bytes.Equal(e.rest, rest):
		t.violate("remaining", "%s: Execute returned the remaining bytes %q instead of %q", what, e.rest, rest)
	}
	for _, c := range e.calls {
		for _, n := range c.nested {
			t.check(n, in+" inside a function of query "+fmt.Sprint(e.query))
		}
	}
}
