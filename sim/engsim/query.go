//go:build go1.23

package engsim

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
	"github.com/steve-care-software/rodkina/zz_verif/core"
)

// tnode is a tree.
type tnode struct {
	token     string
	ok        bool // has a successful line
	before    bool // has another line before the successful one
	elements  []telem
	remaining []byte
	suffix    bool
}

// telem is an element: a name, empty when it is what was found up to an
// exception, and its contents.
type telem struct {
	name     string
	kind     int // recursive, value, token
	contents []*tcont
}

// tcont is a content: a byte or a tree.
type tcont struct {
	id   int
	val  byte
	node *tnode
	obj  trees.Content
}

func (n *tnode) String() string {
	if !n.ok {
		return n.token + "(failed)"
	}
	l := []string{}
	for _, e := range n.elements {
		c := []string{}
		for _, x := range e.contents {
			if x.node == nil {
				c = append(c, fmt.Sprintf("#%d=%q", x.id, x.val))
			} else {
				c = append(c, fmt.Sprintf("#%d=%s", x.id, x.node))
			}
		}
		name := e.name
		if name == "" {
			name = "<reverse>"
		}
		l = append(l, name+":"+strings.Join(c, ","))
	}
	return n.token + "[" + strings.Join(l, " ") + "]"
}

type treeGen struct {
	src  *core.Src
	ids  int
	size int
	done []*tnode // trees that are complete
	seen []*tcont // and contents
}

// weight is how much there is below a tree, each occurrence counted.
func (n *tnode) weight() int {
	w := 1
	for _, e := range n.elements {
		for _, c := range e.contents {
			w++
			if c.node != nil {
				w += c.node.weight()
			}
		}
	}
	return w
}

// again is a tree that is used once more, if there is one.
func (g *treeGen) again() *tnode {
	if len(g.done) == 0 {
		return nil
	}
	n := g.done[g.src.Draw(len(g.done))]
	w := n.weight()
	if g.size+w > 120 {
		return nil
	}
	g.size += w
	return n
}

var tokenNames = []string{"ta", "tb", "tc", "td"}

func (g *treeGen) node(token string, depth int) *tnode {
	src := g.src
	g.size++
	n := &tnode{token: token, ok: !src.Chance(1, 25), before: src.Chance(1, 6), suffix: src.Chance(1, 10)}
	k := 1 + src.Draw(4)
	for i := 0; i < k; i++ {
		e := telem{kind: src.Draw(3)}
		trees := depth > 0 && g.size < 40 && src.Chance(3, 5)
		child := tokenNames[src.Draw(len(tokenNames))]
		if src.Chance(1, 3) {
			child = token // recursion
		}
		switch {
		case src.Chance(1, 8):
			e.name = ""
		case trees && !src.Chance(1, 5):
			e.name = child
		default:
			e.name = []string{"va", "vb", "ta", "tb"}[src.Draw(4)]
		}
		m := 1 + src.Draw(3)
		for j := 0; j < m; j++ {
			if len(g.seen) > 0 && src.Chance(1, 25) {
				// a content that is there already
				c := g.seen[src.Draw(len(g.seen))]
				w := 1
				if c.node != nil {
					w = c.node.weight()
				}
				if g.size+w <= 120 {
					g.size += w
					e.contents = append(e.contents, c)
					continue
				}
			}
			c := &tcont{id: g.ids}
			g.ids++
			if trees && !src.Chance(1, 10) {
				tk := child
				if src.Chance(1, 15) {
					tk = tokenNames[src.Draw(len(tokenNames))]
				}
				if src.Chance(1, 12) {
					c.node = g.again()
				}
				if c.node == nil {
					c.node = g.node(tk, depth-1)
				}
			} else {
				c.val = byte('a' + src.Draw(26))
			}
			e.contents = append(e.contents, c)
			g.seen = append(g.seen, c)
		}
		n.elements = append(n.elements, e)
	}
	g.done = append(g.done, n)
	return n
}

// leaf is a content without a tree.
func (g *treeGen) leaf() *tcont {
	c := &tcont{id: g.ids, val: byte('a' + g.src.Draw(26))}
	g.ids++
	return c
}

// large draws a tree that is beyond the usual sizes in one way, and a query
// for it.
func (g *treeGen) large(qg *queryGen) (*tnode, *qspec, string) {
	src := g.src
	ask := func(token, elem string, index uint, content, inside int, fetchers ...qfetch) *qspec {
		q := &qspec{id: qg.ids, token: token, reverse: "rev", elem: elem, index: index, content: content, inside: inside, fetchers: fetchers, single: src.Draw(2) == 0}
		qg.ids++
		return q
	}
	fn := func() int { return src.Draw(2) }
	switch src.Draw(6) {
	case 0:
		// one element with many contents
		n := &tnode{token: "ta", ok: true}
		e := telem{name: "tb", kind: src.Draw(3)}
		m := 100 + src.Draw(700)
		some := []*tnode{g.node("tb", 0), g.node("tb", 1), g.node("tb", 0)}
		for i := 0; i < m; i++ {
			c := g.leaf()
			if src.Draw(8) == 0 {
				c.node = some[src.Draw(3)]
			}
			e.contents = append(e.contents, c)
		}
		n.elements = append(n.elements, e)
		at := -1
		if src.Draw(2) == 0 {
			at = m - src.Draw(m+1)
		}
		if src.Draw(2) == 0 {
			return n, ask("ta", "tb", 0, at, fn()), "contents"
		}
		b := some[src.Draw(3)].elements[0].name
		if b == "" {
			b = "rev"
		}
		return n, ask("ta", "tb", 0, at, 2, qfetch{query: ask("tb", b, 0, -1, fn())}), "contents"
	case 1:
		// many elements, of the same name or others
		n := &tnode{token: "ta", ok: true, before: src.Draw(2) == 0}
		m := 100 + src.Draw(700)
		names := 1 + src.Draw(3)
		for i := 0; i < m; i++ {
			n.elements = append(n.elements, telem{name: []string{"va", "vb", ""}[src.Draw(names)], kind: src.Draw(3), contents: []*tcont{g.leaf()}})
		}
		return n, ask("ta", []string{"va", "vb", "rev"}[src.Draw(names)], uint(src.Draw(m+2)), -1, fn()), "elements"
	case 2:
		// a tree inside of a tree inside of a tree, and a query that recurses
		// as deep
		period := 1 + src.Draw(3)
		m := 20 + src.Draw(400)
		var below *tnode
		for i := m; i >= 0; i-- {
			n := &tnode{token: tokenNames[i%period], ok: true, before: src.Chance(1, 20)}
			if below == nil || src.Draw(3) == 0 {
				n.elements = append(n.elements, telem{name: "va", contents: []*tcont{g.leaf()}})
			}
			if below != nil {
				c := g.leaf()
				c.node = below
				e := telem{name: "child", kind: src.Draw(3), contents: []*tcont{c}}
				if src.Chance(1, 6) {
					e.contents = append(e.contents, g.leaf())
				}
				n.elements = append(n.elements, e)
			}
			below = n
		}
		var q *qspec
		for i := period - 1; i >= 0; i-- {
			next := tokenNames[(i+1)%period]
			f := []qfetch{{query: ask(next, "va", 0, -1, 1)}}
			if q != nil {
				f = append(f, qfetch{query: q})
			} else {
				f = append(f, qfetch{recursive: tokenNames[0]})
			}
			if src.Draw(2) == 0 {
				f[0], f[len(f)-1] = f[len(f)-1], f[0]
			}
			q = ask(tokenNames[i], "child", 0, -1, 2, f...)
		}
		return below, q, "depth of recursion"
	case 3:
		// and a query that has as many queries inside of each other
		m := 10 + src.Draw(190)
		var below *tnode
		var q *qspec
		for i := m; i >= 0; i-- {
			n := &tnode{token: fmt.Sprintf("t%d", i%(1+src.Draw(m+1))), ok: true}
			if below == nil {
				n.elements = append(n.elements, telem{name: "va", contents: []*tcont{g.leaf()}})
				q = ask(n.token, "va", 0, -1, fn())
			} else {
				c := g.leaf()
				c.node = below
				n.elements = append(n.elements, telem{name: "child", kind: src.Draw(3), contents: []*tcont{c}})
				q = ask(n.token, "child", 0, -1, 2, qfetch{query: q})
			}
			below = n
		}
		return below, q, "depth of queries"
	case 4:
		// many fetchers
		below := g.node("tb", 1)
		c := g.leaf()
		c.node = below
		n := &tnode{token: "ta", ok: true, elements: []telem{{name: "tb", contents: []*tcont{c}}}}
		f := []qfetch{}
		for m := 50 + src.Draw(400); m > 0; m-- {
			if len(f) > 0 && src.Chance(1, 6) {
				f = append(f, f[src.Draw(len(f))])
				continue
			}
			e := below.elements[src.Draw(len(below.elements))]
			name := e.name
			if name == "" {
				name = "rev"
			}
			f = append(f, qfetch{query: ask("tb", name, 0, -1, fn())})
		}
		return n, ask("ta", "tb", 0, -1, 2, f...), "fetchers"
	}
	// many trees of the same token, the same ones again and again
	some := []*tnode{}
	for i := 0; i < 3; i++ {
		some = append(some, g.node("tb", src.Draw(2)))
	}
	n := &tnode{token: "ta", ok: true}
	var q *qspec
	k := 1 + src.Draw(3)
	for i := 0; i < k; i++ {
		e := telem{name: "tb"}
		for m := 20 + src.Draw(100); m > 0; m-- {
			c := g.leaf()
			c.node = some[src.Draw(len(some))]
			e.contents = append(e.contents, c)
		}
		n.elements = append(n.elements, e)
	}
	f := []qfetch{}
	for i := 0; i < 2; i++ {
		x := some[0].elements[src.Draw(len(some[0].elements))].name
		if x == "" {
			x = "rev"
		}
		f = append(f, qfetch{query: ask("tb", x, 0, -1, fn())})
	}
	q = ask("ta", "tb", uint(src.Draw(k)), -1, 2, f...)
	return n, q, "repeated trees"
}

func card(min uint, max int) cardinalities.Cardinality {
	b := cardinalities.NewBuilder().Create().WithMin(min)
	if max >= 0 {
		b.WithMax(uint(max))
	}
	return must(b.Now())
}

func value(name string, number byte) values.Value {
	return must(values.NewBuilder().Create().WithName(name).WithNumber(number).Now())
}

func leafToken(name string) grammars.Token {
	el := must(grammars.NewElementBuilder().Create().WithCardinality(card(1, -1)).WithValue(value("leaf", 'l')).Now())
	return tokenOf(name, [][]grammars.Element{{el}}, nil)
}

func lineOf(els []grammars.Element) grammars.Line {
	list := []grammars.Container{}
	for _, e := range els {
		list = append(list, must(grammars.NewContainerBuilder().Create().WithElement(e).Now()))
	}
	return must(grammars.NewLineBuilder().Create().WithContainers(list).Now())
}

func tokenOf(name string, lines [][]grammars.Element, suites grammars.Suites) grammars.Token {
	list := []grammars.Line{}
	for _, l := range lines {
		list = append(list, lineOf(l))
	}
	b := grammars.NewTokenBuilder().Create().WithName(name).WithBlock(must(grammars.NewBlockBuilder().Create().WithLines(list).Now()))
	if suites != nil {
		b.WithSuites(suites)
	}
	return must(b.Now())
}

// buildTree makes the tree and remembers the contents it made.
func buildTree(n *tnode, suffix string, keep bool) trees.Tree {
	return newTreeMaker(func(s string) string { return s + suffix }, keep).tree(n)
}

// treeMaker makes trees; what is used twice is made once.
type treeMaker struct {
	name     func(string) string
	keep     bool
	trees    map[*tnode]trees.Tree
	contents map[*tcont]trees.Content
}

func newTreeMaker(name func(string) string, keep bool) *treeMaker {
	return &treeMaker{name: name, keep: keep, trees: map[*tnode]trees.Tree{}, contents: map[*tcont]trees.Content{}}
}

func (m *treeMaker) tree(n *tnode) trees.Tree {
	if t, ok := m.trees[n]; ok {
		return t
	}
	t := m.build(n)
	m.trees[n] = t
	return t
}

func (m *treeMaker) content(c *tcont) trees.Content {
	if x, ok := m.contents[c]; ok {
		return x
	}
	cb := trees.NewContentBuilder().Create()
	if c.node != nil {
		cb.WithTree(m.tree(c.node))
	} else {
		cb.WithValue(must(trees.NewValueBuilder().Create().WithContent(c.val).Now()))
	}
	x := must(cb.Now())
	if m.keep {
		c.obj = x
	}
	m.contents[c] = x
	return x
}

func (m *treeMaker) build(n *tnode) trees.Tree {
	els := []grammars.Element{}
	list := []trees.Element{}
	anyReverse := false
	for _, e := range n.elements {
		contents := []trees.Content{}
		for _, c := range e.contents {
			contents = append(contents, m.content(c))
		}
		eb := trees.NewElementBuilder().Create().WithContents(must(trees.NewContentsBuilder().Create().WithList(contents).Now()))
		if e.name == "" {
			anyReverse = true
		} else {
			gb := grammars.NewElementBuilder().Create().WithCardinality(card(0, -1))
			name := m.name(e.name)
			switch e.kind {
			case 0:
				gb.WithRecursive(name)
			case 1:
				gb.WithValue(value(name, 'x'))
			default:
				gb.WithInstance(must(grammars.NewInstanceBuilder().Create().WithToken(leafToken(name)).Now()))
			}
			gel := must(gb.Now())
			els = append(els, gel)
			eb.WithGrammar(must(grammars.NewContainerBuilder().Create().WithElement(gel).Now()))
		}
		list = append(list, must(eb.Now()))
	}
	failing := must(grammars.NewElementBuilder().Create().WithCardinality(card(1000, -1)).WithRecursive("never").Now())
	lines := []trees.Line{}
	glines := [][]grammars.Element{}
	if n.before {
		lines = append(lines, must(trees.NewLineBuilder().Create().WithIndex(0).WithGrammar(lineOf([]grammars.Element{failing})).Now()))
		glines = append(glines, []grammars.Element{failing})
	}
	if !n.ok {
		els = append(els, failing)
	}
	if len(els) == 0 {
		els = append(els, must(grammars.NewElementBuilder().Create().WithCardinality(card(0, -1)).WithRecursive("none").Now()))
	}
	lb := trees.NewLineBuilder().Create().WithIndex(uint(len(lines))).WithGrammar(lineOf(els)).WithElements(must(trees.NewElementsBuilder().Create().WithList(list).Now()))
	if anyReverse && n.ok {
		lb.IsReverse()
	}
	lines = append(lines, must(lb.Now()))
	glines = append(glines, els)
	b := trees.NewTreeBuilder().Create().
		WithGrammar(tokenOf(m.name(n.token), glines, nil)).
		WithBlock(must(trees.NewBlockBuilder().Create().WithLines(lines).Now()))
	if n.remaining != nil {
		b.WithRemaining(append([]byte(nil), n.remaining...))
	}
	if n.suffix {
		b.WithSuffix(must(trees.NewBuilder().Create().WithList([]trees.Tree{newTreeMaker(m.name, false).tree(&tnode{token: "channel", ok: true, elements: []telem{{name: "va", contents: []*tcont{{val: ' '}}}}})}).Now()))
	}
	t := must(b.Now())
	if t.Block().HasSuccessful() != n.ok {
		panic("harness: the tree is not what it was meant to be")
	}
	return t
}

// specOf describes a tree that the grammar engine made.
func specOf(t trees.Tree, ids *int) *tnode {
	n := &tnode{token: t.Grammar().Name(), ok: t.Block().HasSuccessful()}
	if t.HasRemaining() {
		n.remaining = t.Remaining()
	}
	if !n.ok {
		return n
	}
	for _, e := range t.Block().Successful().Elements().List() {
		te := telem{}
		if e.HasGrammar() {
			te.name = e.Grammar().Name()
		}
		for _, c := range e.Contents().List() {
			tc := &tcont{id: *ids, obj: c}
			*ids++
			if c.IsTree() {
				tc.node = specOf(c.Tree(), ids)
			} else {
				tc.val = c.Value().Content()
			}
			te.contents = append(te.contents, tc)
		}
		n.elements = append(n.elements, te)
	}
	return n
}

// qspec is a query.
type qspec struct {
	id       int
	token    string
	reverse  string
	elem     string
	index    uint
	content  int // -1: all of them
	inside   int // 0 single function, 1 multiple, 2 fetchers
	fetchers []qfetch
	single   bool
	built    queries.Query
}

type qfetch struct {
	query     *qspec
	recursive string
}

func (q *qspec) String() string {
	s := fmt.Sprintf("q%d(%s.%s[%d]", q.id, q.token, q.elem, q.index)
	if q.content >= 0 {
		s += fmt.Sprintf("#%d", q.content)
	}
	switch q.inside {
	case 0:
		s += " one"
	case 1:
		s += " many"
	default:
		for _, f := range q.fetchers {
			if f.query != nil {
				s += " " + f.query.String()
			} else {
				s += " ^" + f.recursive
			}
		}
	}
	if q.single {
		return s + " =>one)"
	}
	return s + " =>many)"
}

type queryGen struct {
	src  *core.Src
	ids  int
	size int
	made []*qspec // queries that are complete
}

// labels are the names that trees and queries get: unlike each other, but only
// just.
type labels struct {
	words []string
	known map[string]string
}

func newLabels(src *core.Src) *labels {
	l := &labels{known: map[string]string{}}
	if k := src.Draw(3 * len(words)); k < len(words) {
		l.words = words[k]
	}
	return l
}

func (l *labels) name(s string) string {
	if l.words == nil {
		return s
	}
	w, ok := l.known[s]
	if !ok {
		k := len(l.known)
		w = l.words[k%len(l.words)]
		if k >= len(l.words) {
			w += fmt.Sprintf("#%d", k/len(l.words))
		}
		l.known[s] = w
	}
	return w
}

// query draws a query that mostly fits the tree.  above are the names of the
// queries around it.
func (g *queryGen) query(n *tnode, depth int, above []string) *qspec {
	src := g.src
	q := &qspec{id: g.ids, token: n.token, reverse: "rev", content: -1, single: src.Draw(2) == 0}
	g.ids++
	g.size++
	if src.Chance(1, 12) {
		q.reverse = []string{"va", "vb", "ta", "tb"}[src.Draw(4)]
	}
	if src.Chance(1, 40) {
		q.token = tokenNames[src.Draw(len(tokenNames))]
	}
	around := append(append([]string{}, above...), q.token)
	var e *telem
	if len(n.elements) > 0 && !src.Chance(1, 15) {
		i := src.Draw(len(n.elements))
		// prefer elements with trees
		for k := 0; k < 2; k++ {
			if len(n.elements[i].contents) > 0 && n.elements[i].contents[0].node == nil {
				i = src.Draw(len(n.elements))
			}
		}
		e = &n.elements[i]
		q.elem = e.name
		name := func(x string) string {
			if x == "" {
				return q.reverse
			}
			return x
		}
		q.elem = name(e.name)
		for j := 0; j < i; j++ {
			if name(n.elements[j].name) == q.elem {
				q.index++
			}
		}
		if src.Chance(1, 8) {
			q.content = src.Draw(len(e.contents) + 1)
		}
		if src.Chance(1, 25) {
			q.index += uint(src.Draw(3))
		}
	} else {
		q.elem = []string{"va", "vb", "ta", "zz"}[src.Draw(4)]
	}
	q.inside = src.Draw(2)
	if depth > 0 && e != nil && !src.Chance(1, 8) {
		sample := e.contents[src.Draw(len(e.contents))]
		if sample.node != nil || src.Chance(1, 6) {
			k := 1 + src.Pick([]int{5, 4, 2})
			for i := 0; i < k; i++ {
				f := qfetch{}
				switch {
				case src.Chance(1, 60):
					f.recursive = "unknown"
				case sample.node == nil:
					f.query = g.query(n, depth-1, around)
				case has(around, sample.node.token) && src.Chance(2, 3) || g.size > 12:
					f.recursive = sample.node.token
				case len(g.made) > 0 && src.Chance(1, 15):
					f.query = g.made[src.Draw(len(g.made))]
				default:
					f.query = g.query(sample.node, depth-1, around)
				}
				q.fetchers = append(q.fetchers, f)
			}
			if len(q.fetchers) > 0 {
				q.inside = 2
			}
		}
	}
	g.made = append(g.made, q)
	return q
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// functions are what the queries call.
type functions struct {
	contentOne  func(q *qspec, c trees.Content) ([]interface{}, error)
	contentMany func(q *qspec, c []trees.Content) ([]interface{}, error)
	queryOne    func(q *qspec, v interface{}) (interface{}, bool, error)
	queryMany   func(q *qspec, v []interface{}) (interface{}, bool, error)
}

func buildQuery(q *qspec, suffix string, fn functions) queries.Query {
	return (&queryMaker{func(s string) string { return s + suffix }, fn, map[*qspec]queries.Query{}}).query(q)
}

// queryMaker makes queries; what is used twice is made once.
type queryMaker struct {
	name func(string) string
	fn   functions
	made map[*qspec]queries.Query
}

func (m *queryMaker) query(q *qspec) queries.Query {
	if x, ok := m.made[q]; ok {
		return x
	}
	x := m.build(q)
	m.made[q] = x
	return x
}

func (m *queryMaker) build(q *qspec) queries.Query {
	fn := m.fn
	tb := queries.NewTokenBuilder().Create().WithName(m.name(q.token)).WithReverseName(m.name(q.reverse)).
		WithElement(must(queries.NewElementBuilder().Create().WithName(m.name(q.elem)).WithIndex(q.index).Now()))
	if q.content >= 0 {
		tb.WithContent(uint(q.content))
	}
	ib := queries.NewInsideBuilder().Create()
	switch q.inside {
	case 0:
		ib.WithFn(must(queries.NewContentFnBuilder().Create().WithSingle(func(c trees.Content) ([]interface{}, error) {
			return fn.contentOne(q, c)
		}).Now()))
	case 1:
		ib.WithFn(must(queries.NewContentFnBuilder().Create().WithMulti(func(c []trees.Content) ([]interface{}, error) {
			return fn.contentMany(q, c)
		}).Now()))
	default:
		list := []queries.Fetcher{}
		for _, f := range q.fetchers {
			fb := queries.NewFetcherBuilder().Create()
			if f.query != nil {
				fb.WithQuery(m.query(f.query))
			} else {
				fb.WithRecursive(m.name(f.recursive))
			}
			list = append(list, must(fb.Now()))
		}
		ib.WithFetchers(must(queries.NewFetchersBuilder().Create().WithList(list).Now()))
	}
	qb := queries.NewQueryFnBuilder().Create()
	if q.single {
		qb.WithSingle(func(v interface{}) (interface{}, bool, error) { return fn.queryOne(q, v) })
	} else {
		qb.WithMulti(func(v []interface{}) (interface{}, bool, error) { return fn.queryMany(q, v) })
	}
	return must(queries.NewBuilder().Create().WithToken(must(tb.Now())).WithInside(must(ib.Now())).WithFn(must(qb.Now())).Now())
}

// qcall is a call of a function of a query as it happened.
type qcall struct {
	query    int
	content  bool // a content function
	args     string
	decision int
	list     []interface{} // answer of a content function
	value    interface{}   // answer of a query function
	valid    bool
	err      error
	nested   []*qexec
}

// qexec is an execution as it happened.
type qexec struct {
	tree     int
	query    int
	calls    []*qcall
	value    interface{}
	valid    bool
	rest     []byte
	err      error
	panicked interface{}
}

// qrun replays the calls of an execution against the meaning of the query.
type qrun struct {
	calls  []*qcall
	pos    int
	wrong  string
	panics bool
	failed error // what a function returned
}

func (r *qrun) call(q *qspec, content bool, args string) (*qcall, error) {
	what := func(c bool) string {
		if c {
			return "content function"
		}
		return "function"
	}
	if r.pos >= len(r.calls) {
		if r.wrong == "" {
			r.wrong = fmt.Sprintf("the %s of q%d was not called with %s", what(content), q.id, args)
		}
		return nil, errStop
	}
	c := r.calls[r.pos]
	r.pos++
	if c.query != q.id || c.content != content || c.args != args {
		if r.wrong == "" {
			r.wrong = fmt.Sprintf("call %d was of the %s of q%d with %s instead of the %s of q%d with %s", r.pos-1, what(c.content), c.query, c.args, what(content), q.id, args)
		}
		return nil, errStop
	}
	switch c.decision {
	case dError:
		r.failed = c.err
		return nil, errStop
	case dPanic:
		r.panics = true
		return nil, errStop
	}
	return c, nil
}

// selected are the contents of the element that the query names.
func (q *qspec) selected(n *tnode) []*tcont {
	at := uint(0)
	for _, e := range n.elements {
		name := e.name
		if name == "" {
			name = q.reverse
		}
		if name != q.elem {
			continue
		}
		if at == q.index {
			return e.contents
		}
		at++
	}
	return nil
}

func (r *qrun) fetch(q *qspec, n *tnode, around map[string]*qspec) (interface{}, bool, error) {
	if q.token != n.token || !n.ok {
		return nil, false, errStop
	}
	contents := q.selected(n)
	if q.content >= 0 && len(contents) > 0 {
		if q.content >= len(contents) {
			return nil, false, errStop
		}
		contents = contents[q.content : q.content+1]
	}
	inner := map[string]*qspec{}
	for k, v := range around {
		inner[k] = v
	}
	inner[q.token] = q
	found := []interface{}{}
	switch q.inside {
	case 0:
		if len(contents) == 0 {
			return nil, false, errStop
		}
		c, err := r.call(q, true, contentArgs(contents[:1]))
		if err != nil {
			return nil, false, err
		}
		found = c.list
	case 1:
		if len(contents) > 0 {
			c, err := r.call(q, true, contentArgs(contents))
			if err != nil {
				return nil, false, err
			}
			found = c.list
		}
	default:
		for _, c := range contents {
			if c.node == nil {
				continue
			}
			for _, f := range q.fetchers {
				target := f.query
				if target == nil {
					target = inner[f.recursive]
					if target == nil {
						return nil, false, errStop
					}
				}
				v, valid, err := r.fetch(target, c.node, inner)
				if err != nil {
					return nil, false, err
				}
				if valid {
					found = append(found, v)
				}
			}
		}
	}
	if len(found) == 0 {
		return nil, false, nil
	}
	args := canon(found)
	if q.single {
		args = canon(found[0])
	}
	c, err := r.call(q, false, args)
	if err != nil {
		return nil, false, err
	}
	return c.value, c.valid, nil
}

func contentArgs(l []*tcont) string {
	s := []string{}
	for _, c := range l {
		s = append(s, fmt.Sprintf("#%d", c.id))
	}
	return strings.Join(s, ",")
}
