//go:build go1.23

package engsim

import (
	"bytes"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"time"

	asts "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/coverages"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	interp "github.com/steve-care-software/rodkina/libs/interpreters/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
	query_apps "github.com/steve-care-software/rodkina/libs/queries/applications"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
	"github.com/steve-care-software/rodkina/zz_verif/core"
)

// specs is what a run works on.
type specs struct {
	grams   []*ggram
	data    [][][]byte // per grammar
	progs   [][]pstmt
	inputs  [][]interface{}
	nmods   int
	trees   []*tnode
	queries []*qspec
	of      []int
	blocks  [][][]byte
	mixed   [][][]byte
	raw     [][]byte
	refs    []*rspec
	limit   int   // statements of a call alone
	prefer  []int // kinds of calls that use what is large
	focus   []int // kinds of calls of this run, if not all
}

// Kinds of jobs.
const (
	jParse = iota
	jCompose
	jCoverages
	jUncovered
	jCompile
	jRun
	jQuery
	jTree
	jContent
	jCompact
	jOrder
	jHash
	jParseQuery
	jReference
	jParts
	jContents
	jDamaged
	nJobs
)

var jobNames = [nJobs]string{"Execute grammar", "Compose", "Coverages", "Uncovered", "Compile", "Execute program", "Execute query", "build hash tree", "hash tree to bytes and back", "compact and back", "order by hash tree", "hash", "parse and query", "reference to bytes and back", "parts of a reference to bytes and back", "contents to bytes and back", "damaged bytes"}

// families are kinds of calls that use the same parts of the engines.
var families = [][]int{
	{jTree, jContent, jCompact, jOrder, jHash},
	{jTree, jContent, jDamaged},
	{jParse, jParseQuery},
	{jCoverages, jUncovered},
	{jCompose, jParse},
	{jCompile, jRun},
	{jRun},
	{jQuery},
	{jParseQuery, jQuery},
	{jReference},
	{jReference, jParts},
	{jContents, jHash},
	{jReference, jParts, jContents, jDamaged},
}

// rspec is a reference of a database: commits with their contents.
type rspec struct {
	commits []rcommit
	kinds   []uint
	mining  byte
	hurt    [][]int // where the bytes are damaged
}

type rcommit struct {
	at     int64
	parent bool
	proof  int64
	values int // which blocks are its values
}

// job is a call of an engine.
type job struct {
	kind, a, b int
}

func (j job) String() string { return fmt.Sprintf("%s(%d,%d)", jobNames[j.kind], j.a, j.b) }

// suffix makes the names of the inputs unlike any others.
func genSpecs(src *core.Src, r *run) *specs {
	s := &specs{nmods: 3, limit: jobLimit}
	large := -1
	if src.Chance(1, 25) {
		large = src.Draw(6)
		s.limit *= 40
		s.prefer = [][]int{{jTree, jContent, jCompact, jOrder, jHash}, {jTree, jContent, jCompact, jOrder, jHash}, {jParse, jParseQuery}, {jParse, jCoverages, jUncovered, jCompose}, {jCompile, jRun}, {jQuery}}[large]
		r.out.Counters["large: "+[]string{"number of blocks", "size of blocks", "data", "grammar", "program", "tree"}[large]]++
	}
	if large < 0 && src.Draw(2) == 0 {
		s.focus = families[src.Draw(len(families))]
	}
	ng := src.Range(1, 3)
	for i := 0; i < ng; i++ {
		g := genGram(src, "t", 1)
		if large == 2 && i == 0 {
			g.repeat()
		}
		if large == 3 && i == 0 {
			g.widen(src)
		}
		s.grams = append(s.grams, g)
		l := [][]byte{}
		n := src.Range(1, 3)
		for k := 0; k < n; k++ {
			d := g.data(src)
			if large == 2 && i == 0 {
				for m := 20 + src.Draw(100); m > 0; m-- {
					d = append(d, g.sample(src, g.root, 12)...)
				}
			}
			l = append(l, d)
		}
		s.data = append(s.data, l)
		r.tracef("grammar %d: %s; data %q", i, g, l)
		r.mix(g.String() + fmt.Sprintf("%q", l))
	}
	np := src.Range(1, 3)
	for i := 0; i < np; i++ {
		p := genProg(src, s.nmods, 4+src.Draw(12), 1)
		nin := 4
		if large == 4 && i == 0 {
			what := ""
			p, what = genLarge(src, s.nmods)
			r.out.Counters["large program: "+what]++
			if m := compileModel(p); m.inputs > nin {
				nin = m.inputs
			}
		} else if src.Chance(1, 3) {
			// a program that is likely not to be well-formed
			at := src.Draw(len(p))
			to := src.Draw(len(p))
			switch src.Draw(4) {
			case 0, 1:
				p = append(append([]pstmt{}, p[:at]...), p[at+1:]...)
				if len(p) == 0 {
					p = []pstmt{{kind: sExec, name: "a0"}}
				}
			case 2: // said twice
				p = append(append(append([]pstmt{}, p[:to]...), p[at]), p[to:]...)
			case 3:
				p = append([]pstmt{}, p...)
				p[at], p[to] = p[to], p[at]
			}
		}
		s.progs = append(s.progs, p)
		in := []interface{}{}
		for k := 0; k < nin; k++ {
			in = append(in, fmt.Sprintf("in%d.%d", i, src.Draw(9)))
		}
		s.inputs = append(s.inputs, in)
		r.tracef("program %d: %s", i, progString(p))
		r.mix(progString(p))
	}
	nt := src.Range(1, 2)
	ids, qid := 0, 0
	for i := 0; i < nt; i++ {
		g := &treeGen{src: src, ids: ids}
		var n *tnode
		if large == 5 && i == 0 {
			qg := &queryGen{src: src, ids: qid}
			tree, q, what := g.large(qg)
			n, qid = tree, qg.ids
			s.queries = append(s.queries, q)
			s.of = append(s.of, 0)
			r.out.Counters["large tree: "+what]++
			r.tracef("query 0: %s", q)
			r.mix(q.String())
		} else {
			n = g.node(tokenNames[src.Draw(len(tokenNames))], src.Draw(4))
		}
		ids = g.ids
		if src.Chance(1, 3) {
			n.remaining = []byte(fmt.Sprintf("rest%d", i))
		}
		s.trees = append(s.trees, n)
		r.tracef("tree %d: %s", i, n)
		r.mix(n.String())
	}
	nq := src.Range(1, 3)
	for i := 0; i < nq; i++ {
		of := src.Draw(nt)
		g := &queryGen{src: src, ids: qid}
		q := g.query(s.trees[of], src.Draw(4), nil)
		qid = g.ids
		if !affordable(q, s.trees[of]) {
			q.inside, q.fetchers = 1, nil
		}
		s.queries = append(s.queries, q)
		s.of = append(s.of, of)
		r.tracef("query %d: %s", len(s.queries)-1, q)
		r.mix(q.String())
	}
	nb := src.Range(1, 3)
	for i := 0; i < nb; i++ {
		n := src.Range(0, 9)
		if large == 0 && i == 0 {
			n = []int{16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513}[src.Draw(19)]
		}
		l := [][]byte{}
		for k := 0; k < n; k++ {
			size := src.Draw(20)
			if large == 1 && i == 0 && src.Draw(3) == 0 {
				size = []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 70000}[src.Draw(16)]
			}
			if size > 200 {
				// a few draws make all of it
				b := bytes.Repeat([]byte{byte(k), byte(src.Draw(256)), byte(src.Draw(256)), 7}, size/4+1)[:size]
				b[size-1-src.Draw(size-1)] ^= byte(1 + src.Draw(255))
				b[0] = byte(k)
				l = append(l, b)
				continue
			}
			b := make([]byte, size)
			if src.Chance(1, 5) {
				b = make([]byte, hash.Size)
			}
			for x := range b {
				b[x] = byte(src.Draw(256))
			}
			// no two are equal
			if len(b) > 0 {
				b[0] = byte(k)
			}
			if len(b) == 0 && k > 0 {
				b = []byte{byte(k)}
			}
			if n > 200 {
				b = append([]byte{byte(k), byte(k >> 8)}, b...)
			}
			l = append(l, b)
		}
		s.blocks = append(s.blocks, l)
		m := append([][]byte{}, l...)
		for k := range m {
			x := src.Draw(len(m))
			m[k], m[x] = m[x], m[k]
		}
		s.mixed = append(s.mixed, m)
		s.raw = append(s.raw, bytes.Join(l, []byte{'-'}))
		text := fmt.Sprintf("%x", l)
		if len(text) > 3000 {
			text = text[:3000] + "..."
		}
		r.tracef("blocks %d: %s", i, text)
		r.mix(fmt.Sprintf("%x", l))
	}
	for i := 0; i < nb; i++ {
		x := &rspec{mining: "0\x00f"[src.Draw(3)]}
		for n := src.Range(1, 4); n > 0; n-- {
			c := rcommit{at: int64(src.Draw(1 << 30)), parent: len(x.commits) > 0 && src.Draw(4) > 0, values: src.Draw(nb)}
			if src.Draw(4) == 0 {
				c.proof = int64(1+src.Draw(1<<30)) << uint(src.Draw(3)*12)
			}
			x.commits = append(x.commits, c)
		}
		for n := src.Range(1, 6); n > 0; n-- {
			x.kinds = append(x.kinds, uint(src.Draw(4)))
		}
		for k := 0; k < nHurt; k++ {
			x.hurt = append(x.hurt, []int{src.Draw(4), src.Draw(1 << 20), src.Draw(256)})
		}
		s.refs = append(s.refs, x)
		r.tracef("reference %d: %+v", i, *x)
		r.mix(fmt.Sprintf("%+v", *x))
	}
	return s
}

// nHurt is the number of ways in which bytes are damaged.
const nHurt = 6

// damage returns the bytes with a byte changed or without their end.
func damage(b []byte, how []int) []byte {
	out := append([]byte(nil), b...)
	if len(out) == 0 {
		return out
	}
	at := how[1] % len(out)
	switch how[0] {
	case 0: // where lengths are
		out[at%min(len(out), 24)] = byte(how[2])
	case 1:
		out[at] ^= byte(how[2] | 1)
	case 2:
		out = out[:at]
	case 3:
		out = append(out, byte(how[2]), 0, 1)
	}
	return out
}

// drawJob picks a call.
func (s *specs) drawJob(src *core.Src) job {
	j := job{kind: src.Draw(nJobs)}
	if s.prefer != nil && src.Draw(2) == 0 {
		j = job{kind: s.prefer[src.Draw(len(s.prefer))], b: src.Draw(2)}
		if j.kind == jQuery || j.kind == jParse || j.kind == jParseQuery {
			j.b = 0
		}
		return j
	}
	if s.focus != nil && src.Draw(8) > 0 {
		j.kind = s.focus[src.Draw(len(s.focus))]
	}
	switch j.kind {
	case jParse:
		j.a = src.Draw(len(s.grams))
		j.b = src.Draw(len(s.data[j.a]))
	case jCompose, jCoverages, jUncovered:
		j.a = src.Draw(len(s.grams))
		j.b = src.Draw(4)
	case jCompile, jRun:
		j.a = src.Draw(len(s.progs))
	case jQuery:
		j.a = src.Draw(len(s.queries))
		j.b = s.of[j.a]
	case jParseQuery:
		j.a = src.Draw(len(s.grams))
		j.b = src.Draw(len(s.data[j.a]))
	case jDamaged:
		j.a = src.Draw(len(s.blocks))
		j.b = src.Draw(nHurt)
	default:
		j.a = src.Draw(len(s.blocks))
		j.b = src.Draw(2)
	}
	return j
}

// guarded is a slice with more room behind it, which nobody may use.
type guarded struct {
	b    []byte
	full []byte
	want []byte
}

func guard(b []byte) *guarded {
	full := make([]byte, len(b)+16)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xa5
	}
	return &guarded{b: full[:len(b)], full: full, want: append([]byte(nil), full...)}
}

func (g *guarded) intact() bool { return bytes.Equal(g.full, g.want) }

// objects are the inputs that the engines get.
type objects struct {
	s        *specs
	suffix   string
	grams    []grammars.Grammar
	gb       []*gramBuilder
	data     [][]*guarded
	mods     modules.Modules
	progs    []instructions.Instructions
	compiled []programs.Program
	inputs   [][]interface{}
	trees    []trees.Tree
	rest     []*guarded
	queries  []queries.Query
	blocks   [][]*guarded
	mixed    [][]*guarded
	raw      []*guarded
	htrees   []hashtrees.HashTree
	refs     []references.Reference
	conts    []contents.Contents
	again    func() // called by the functions
}

// engines are the instances that are used.
type engines struct {
	ast     asts.Application
	interp  interp.Application
	query   query_apps.Application
	hash    hash.Adapter
	builder hashtrees.Builder
	adapter hashtrees.Adapter
	compact hashtrees.CompactAdapter
	refs    map[byte]references.Adapter
	list    map[byte]references.CommitsAdapter
	commit  map[byte]references.CommitAdapter
	made    map[byte]references.CommitBuilder
	keys    references.ContentKeysAdapter
	key     references.ContentKeyAdapter
	pointer references.PointerAdapter
	conts   contents.Adapter
	cont    contents.ContentAdapter
}

func newEngines() *engines {
	e := &engines{
		ast:     asts.NewApplication(),
		interp:  interp.NewApplication(func(name []byte) string { return string(name) }),
		query:   query_apps.NewApplication(),
		hash:    hash.NewAdapter(),
		builder: hashtrees.NewBuilder(),
		adapter: hashtrees.NewAdapter(),
		compact: hashtrees.NewCompactAdapter(),
		refs:    map[byte]references.Adapter{},
		list:    map[byte]references.CommitsAdapter{},
		commit:  map[byte]references.CommitAdapter{},
		made:    map[byte]references.CommitBuilder{},
		keys:    references.NewContentKeysAdapter(),
		key:     references.NewContentKeyAdapter(),
		pointer: references.NewPointerAdapter(),
		conts:   contents.NewAdapter(),
		cont:    contents.NewContentAdapter(),
	}
	for _, m := range []byte("0\x00f") {
		e.refs[m] = references.NewAdapter(m)
		e.list[m] = references.NewCommitsAdapter(m)
		e.commit[m] = references.NewCommitAdapter(m)
		e.made[m] = references.NewCommitBuilder(m)
	}
	return e
}

// chain builds the commits of a reference.
func (o *objects) chain(x *rspec, b references.CommitBuilder) ([]references.Commit, error) {
	out := []references.Commit{}
	for _, c := range x.commits {
		t, err := hashtrees.NewBuilder().Create().WithBlocks(plain(o.blocks[c.values])).Now()
		if err != nil {
			return nil, err
		}
		n := b.Create().WithValues(t).CreatedOn(time.Unix(c.at, c.at%1000).UTC())
		if c.parent {
			n = n.WithParent(out[len(out)-1].Hash())
		}
		if c.proof != 0 {
			n = n.WithProof(big.NewInt(c.proof))
		}
		m, err := n.Now()
		if err != nil {
			return nil, err
		}
		out = append(out, m)
	}
	return out, nil
}

// reference builds what a database keeps of the commits.
func (o *objects) reference(i int) {
	x := o.s.refs[i]
	chain := must(o.chain(x, references.NewCommitBuilder(x.mining)))
	keys := []references.ContentKey{}
	list := []contents.Content{}
	from := uint(0)
	for k, kind := range x.kinds {
		id := must(hash.NewAdapter().FromBytes([]byte(fmt.Sprintf("content %d", k))))
		length := uint(k*37 + 1)
		p := must(references.NewPointerBuilder().Create().From(from).WithLength(length).Now())
		from += length
		keys = append(keys, must(references.NewContentKeyBuilder().Create().WithHash(*id).WithKind(kind).WithContent(p).WithCommit(chain[k%len(chain)].Hash()).Now()))
		list = append(list, must(contents.NewContentBuilder().Create().WithHash(*id).WithKind(kind).WithData(bytes.Repeat([]byte{byte(k + 1)}, int(length))).Now()))
	}
	commits := must(references.NewCommitsBuilder().Create().WithList(chain).Now())
	ck := must(references.NewContentKeysBuilder().Create().WithList(keys).Now())
	o.refs[i] = must(references.NewBuilder().Create().WithCommits(commits).WithContentKeys(ck).Now())
	o.conts[i] = must(contents.NewBuilder().Create().WithList(list).Now())
}

// build makes the objects that some calls need.
func (s *specs) build(suffix string, jobs ...job) *objects {
	o := &objects{s: s, suffix: suffix,
		grams: make([]grammars.Grammar, len(s.grams)), gb: make([]*gramBuilder, len(s.grams)), data: make([][]*guarded, len(s.grams)),
		progs: make([]instructions.Instructions, len(s.progs)), compiled: make([]programs.Program, len(s.progs)), inputs: make([][]interface{}, len(s.progs)),
		trees: make([]trees.Tree, len(s.trees)), queries: make([]queries.Query, len(s.queries)),
		blocks: make([][]*guarded, len(s.blocks)), mixed: make([][]*guarded, len(s.blocks)), raw: make([]*guarded, len(s.blocks)), htrees: make([]hashtrees.HashTree, len(s.blocks)),
		refs: make([]references.Reference, len(s.blocks)), conts: make([]contents.Contents, len(s.blocks)),
	}
	o.mods = buildModules(s.nmods, o.module)
	for _, j := range jobs {
		o.need(j)
	}
	return o
}

func (o *objects) need(j job) {
	s, i := o.s, j.a
	switch j.kind {
	case jParse, jCompose, jCoverages, jUncovered, jParseQuery:
		if o.grams[i] != nil {
			return
		}
		o.grams[i], o.gb[i] = buildGram(s.grams[i], o.suffix)
		for _, c := range s.grams[i].composes {
			o.gb[i].token(c)
		}
		for _, d := range s.data[i] {
			o.data[i] = append(o.data[i], guard(d))
		}
	case jCompile, jRun:
		if o.progs[i] != nil {
			return
		}
		o.progs[i] = buildProg(s.progs[i], o.suffix)
		c, err := newEngines().interp.Compile(o.mods, buildProg(s.progs[i], o.suffix))
		if err == nil {
			o.compiled[i] = c
		}
		in := make([]interface{}, len(s.inputs[i]), len(s.inputs[i])+3)
		copy(in, s.inputs[i])
		o.inputs[i] = in
	case jQuery:
		if o.queries[i] == nil {
			o.queries[i] = buildQuery(s.queries[i], o.suffix, functions{o.contentOne, o.contentMany, o.queryOne, o.queryMany})
		}
		if o.trees[j.b] == nil {
			o.trees[j.b] = buildTree(s.trees[j.b], o.suffix, false)
		}
	default:
		if j.kind >= jReference && o.refs[i] == nil {
			for _, c := range s.refs[i].commits {
				o.need(job{kind: jTree, a: c.values})
			}
			o.reference(i)
		}
		if o.htrees[i] != nil {
			return
		}
		for _, x := range s.blocks[i] {
			o.blocks[i] = append(o.blocks[i], guard(x))
		}
		for _, x := range s.mixed[i] {
			o.mixed[i] = append(o.mixed[i], guard(x))
		}
		o.raw[i] = guard(s.raw[i])
		o.htrees[i] = must(hashtrees.NewBuilder().Create().WithBlocks(plain(o.blocks[i])).Now())
	}
}

func plain(l []*guarded) [][]byte {
	out := make([][]byte, 0, len(l)+2)
	for _, g := range l {
		out = append(out, g.b)
	}
	return out
}

// intact says which input was changed.
func (o *objects) intact() string {
	for i, l := range o.data {
		for k, g := range l {
			if !g.intact() {
				return fmt.Sprintf("the data %d of grammar %d, or what lies behind it, was changed to %q", k, i, g.full)
			}
		}
	}
	for i := range o.blocks {
		if o.raw[i] == nil {
			continue
		}
		for k, g := range o.blocks[i] {
			if !g.intact() {
				return fmt.Sprintf("block %d of the blocks %d, or what lies behind it, was changed", k, i)
			}
		}
		for k, g := range o.mixed[i] {
			if !g.intact() {
				return fmt.Sprintf("block %d of the mixed blocks %d, or what lies behind it, was changed", k, i)
			}
		}
		if !o.raw[i].intact() {
			return fmt.Sprintf("the bytes %d, or what lies behind them, were changed", i)
		}
	}
	for i, in := range o.inputs {
		if in == nil {
			continue
		}
		if canon(in) != canon(o.s.inputs[i]) || canon(in[:cap(in)][len(in):]) != "[nil nil nil]" {
			return fmt.Sprintf("the inputs of program %d, or what lies behind them, were changed to %s", i, canon(in[:cap(in)]))
		}
	}
	return ""
}

// digests of the objects that the engines may not change.
func (o *objects) digests() map[string]uint64 {
	out := map[string]uint64{}
	add := func(name string, i int, there bool, x interface{}) {
		if there {
			out[fmt.Sprintf("%s %d", name, i)] = digestOf(o.suffix, true, x)
		}
	}
	for i, x := range o.grams {
		add("grammar", i, x != nil, x)
	}
	for i, x := range o.progs {
		add("instructions", i, x != nil, x)
	}
	for i, x := range o.compiled {
		add("program", i, x != nil, x)
	}
	for i, x := range o.trees {
		add("tree", i, x != nil, x)
	}
	for i, x := range o.queries {
		add("query", i, x != nil, x)
	}
	for i, x := range o.htrees {
		add("hash tree", i, x != nil, x)
	}
	for i, x := range o.refs {
		add("reference", i, x != nil, x)
	}
	for i, x := range o.conts {
		add("contents", i, x != nil, x)
	}
	return out
}

func (o *objects) reenter() {
	if o.again != nil {
		o.again()
	}
}

// The functions that the engines call are functions of their arguments.

func (o *objects) module(index uint, in map[uint]interface{}) (interface{}, error) {
	args := canon(in)
	o.reenter()
	if canon(in) != args {
		return nil, fmt.Errorf("the arguments changed during the call")
	}
	if index == 2 && len(args)%7 == 0 {
		return nil, fmt.Errorf("module %d refuses %s", index, args)
	}
	if len(args) > 200 {
		args = args[:200]
	}
	return fmt.Sprintf("m%d(%s)", index, args), nil
}

func (o *objects) contents(q *qspec, l []trees.Content) ([]interface{}, error) {
	out := []interface{}{}
	text := ""
	for _, c := range l {
		text += string(c.Bytes(true)) + ";"
		out = append(out, fmt.Sprintf("q%d:%x", q.id, c.Bytes(false)))
	}
	o.reenter()
	again := ""
	for _, c := range l {
		again += string(c.Bytes(true)) + ";"
	}
	if again != text {
		return nil, fmt.Errorf("the contents changed during the call")
	}
	if len(text)%11 == 10 {
		return nil, fmt.Errorf("q%d refuses %q", q.id, text)
	}
	return out, nil
}

func (o *objects) contentOne(q *qspec, c trees.Content) ([]interface{}, error) {
	return o.contents(q, []trees.Content{c})
}

func (o *objects) contentMany(q *qspec, l []trees.Content) ([]interface{}, error) {
	return o.contents(q, l)
}

func (o *objects) queryOne(q *qspec, v interface{}) (interface{}, bool, error) {
	return o.queryMany(q, []interface{}{v})
}

func (o *objects) queryMany(q *qspec, v []interface{}) (interface{}, bool, error) {
	args := canonOut(v)
	o.reenter()
	if canonOut(v) != args {
		return nil, false, fmt.Errorf("the values changed during the call")
	}
	valid := len(args)%9 != 8
	if len(args) > 200 {
		args = args[:200]
	}
	return fmt.Sprintf("q%d%s", q.id, args), valid, nil
}

// result of a job; values are what the engine returned.
type result struct {
	values []interface{}
	err    error
	text   string // what is wrong with it whatever else was returned
	skip   bool
}

func (r *result) digest(suffix string, errs bool) uint64 {
	l := append([]interface{}{}, r.values...)
	if r.err != nil {
		l = append(l, "error")
		if errs {
			l = append(l, r.err.Error())
		}
	}
	return digestOf(suffix, errs, l...)
}

func (r *result) String() string {
	if r.err != nil {
		return fmt.Sprintf("error %v", r.err)
	}
	l := []string{}
	for _, v := range r.values {
		l = append(l, describe(v))
	}
	return strings.Join(l, ", ")
}

func describe(v interface{}) string {
	switch x := v.(type) {
	case trees.Tree:
		if x == nil {
			return "no tree"
		}
		ids := 0
		return fmt.Sprintf("tree %s remaining %q", specOf(x, &ids), x.Remaining())
	case coverages.Coverages:
		return "coverages"
	case hashtrees.HashTree:
		return fmt.Sprintf("hash tree %x", []byte(x.Head()))
	case map[string]map[uint]map[uint]string, []byte, string, bool, [][]byte:
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprintf("%T", v)
}

// perform calls an engine.
func (o *objects) perform(e *engines, j job) (r *result) {
	r = &result{}
	switch j.kind {
	case jParse:
		t, err := e.ast.Execute(o.grams[j.a], o.data[j.a][j.b].b)
		r.err = err
		if err == nil {
			r.values = append(r.values, t)
			if t == nil {
				r.text = "Execute returned neither a tree nor an error"
			} else if name := t.Grammar().Name(); name != o.s.grams[j.a].root.name+o.suffix {
				r.text = fmt.Sprintf("the root of the tree is %q", name)
			}
		}
	case jCompose:
		g := o.s.grams[j.a]
		t := g.root
		if j.b < len(g.composes) {
			t = g.composes[j.b]
		}
		b, err := e.ast.Compose(o.gb[j.a].token(t))
		r.err = err
		r.values = append(r.values, b)
		if err == nil && t.compose != nil && !bytes.Equal(b, t.compose) {
			r.text = fmt.Sprintf("Compose returned %q instead of %q", b, t.compose)
		}
	case jCoverages:
		c, err := e.ast.Coverages(o.grams[j.a])
		r.err = err
		r.values = append(r.values, c)
		if err == nil && c != nil {
			m, err := e.ast.Covered(c)
			r.err = err
			r.values = append(r.values, m)
		}
	case jUncovered:
		// a grammar without any suite has no coverages to look into
		c, err := e.ast.Coverages(o.grams[j.a])
		if err != nil || c == nil {
			r.err = err
			return r
		}
		m, err := e.ast.Uncovered(o.grams[j.a])
		r.err = err
		r.values = append(r.values, m)
	case jCompile:
		p, err := e.interp.Compile(o.mods, o.progs[j.a])
		r.err = err
		if err == nil {
			r.values = append(r.values, p)
		}
	case jRun:
		p := o.compiled[j.a]
		if p == nil {
			r.skip = true
			return r
		}
		v, err := e.interp.Execute(o.inputs[j.a], p)
		r.err = err
		r.values = append(r.values, canonOut(v))
	case jQuery:
		v, valid, rest, err := e.query.Execute(o.queries[j.a], o.trees[j.b])
		r.err = err
		if !valid {
			v = nil
		}
		r.values = append(r.values, canon(v), valid, rest)
	case jParseQuery:
		t, err := e.ast.Execute(o.grams[j.a], o.data[j.a][j.b].b)
		if err != nil {
			r.err = err
			return r
		}
		ids := 0
		n := specOf(t, &ids)
		if !n.ok || len(n.elements) == 0 {
			return r
		}
		strip := func(s string) string { return strings.ReplaceAll(s, o.suffix, "") }
		if o.suffix == "" {
			strip = func(s string) string { return s }
		}
		q := &qspec{token: strip(n.token), reverse: "rev", elem: strip(n.elements[0].name), content: -1, inside: 1}
		if q.elem == "" {
			q.elem = q.reverse
		}
		v, valid, rest, err := e.query.Execute(buildQuery(q, o.suffix, functions{o.contentOne, o.contentMany, o.queryOne, o.queryMany}), t)
		r.err = err
		if !valid {
			v = nil
		}
		r.values = append(r.values, canon(v), valid, rest)
	case jTree:
		t, err := e.builder.Create().WithBlocks(plain(o.blocks[j.a])).Now()
		r.err = err
		if err == nil {
			r.values = append(r.values, t)
			if want := merkle(o.s.blocks[j.a]); !bytes.Equal(t.Head(), want) {
				r.text = fmt.Sprintf("the head of the hash tree is %x instead of %x", []byte(t.Head()), want)
			}
		}
	case jContent:
		b, err := e.adapter.ToContent(o.htrees[j.a])
		if err != nil {
			r.err = err
			return r
		}
		g := guard(b)
		t, err := e.adapter.ToHashTree(g.b)
		r.err = err
		r.values = append(r.values, b, t)
		if !g.intact() {
			r.text = "ToHashTree changed the bytes that it got"
		}
		if err == nil && digestOf("", false, t) != digestOf("", false, o.htrees[j.a]) {
			r.text = "the hash tree made of the bytes of a hash tree is another one"
		}
	case jCompact:
		c, err := e.adapter.ToCompact(o.htrees[j.a])
		if err != nil {
			r.err = err
			return r
		}
		b, err := e.compact.ToContent(c)
		if err != nil {
			r.err = err
			return r
		}
		d, err := e.compact.ToCompact(b)
		r.err = err
		n, err2 := e.adapter.ToLength(o.htrees[j.a])
		if err2 != nil {
			r.err = err2
			return r
		}
		r.values = append(r.values, c, b, d, *n)
		if want := len(padded(o.s.blocks[j.a])); int(*n) != want {
			r.text = fmt.Sprintf("the hash tree has %d leaves instead of %d", *n, want)
		}
	case jOrder:
		l, err := e.adapter.ToOrder(o.htrees[j.a], plain(o.mixed[j.a]))
		r.err = err
		r.values = append(r.values, l)
		if err == nil && fmt.Sprintf("%x", l) != fmt.Sprintf("%x", o.s.blocks[j.a]) {
			r.text = fmt.Sprintf("the order is %x instead of %x", l, o.s.blocks[j.a])
		}
	case jReference:
		a := e.refs[o.s.refs[j.a].mining]
		b, err := a.ToContent(o.refs[j.a])
		if err != nil {
			r.err = err
			return r
		}
		g := guard(b)
		d, err := a.ToReference(g.b)
		r.err = err
		r.values = append(r.values, b, d)
		switch {
		case !g.intact():
			r.text = "ToReference changed the bytes that it got"
		case err != nil:
			r.text = fmt.Sprintf("the bytes of a reference are refused: %v", err)
		case digestOf("", false, d) != digestOf("", false, o.refs[j.a]):
			r.text = "the reference made of the bytes of a reference is another one"
		}
	case jParts:
		o.parts(e, j, r)
	case jContents:
		b, err := e.conts.ToContent(o.conts[j.a])
		if err != nil {
			r.err = err
			return r
		}
		g := guard(b)
		d, err := e.conts.ToInstance(g.b)
		r.err = err
		r.values = append(r.values, b, d)
		switch {
		case !g.intact():
			r.text = "ToInstance changed the bytes that it got"
		case err != nil:
			r.text = fmt.Sprintf("the bytes of contents are refused: %v", err)
		case digestOf("", false, d) != digestOf("", false, o.conts[j.a]):
			r.text = "the contents made of the bytes of contents are other ones"
		}
	case jDamaged:
		o.damaged(e, j, r)
	case jHash:
		raw := o.raw[j.a].b
		want := digest512(raw)
		h, err := e.hash.FromBytes(raw)
		if j.b == 1 {
			want = digest512(bytes.Join(o.s.blocks[j.a], nil))
			h, err = e.hash.FromMultiBytes(plain(o.blocks[j.a]))
		}
		if err != nil {
			r.err = err
			return r
		}
		k, err := e.hash.FromString(hex.EncodeToString(h.Bytes()))
		r.err = err
		if err != nil {
			return r
		}
		r.values = append(r.values, h.Bytes(), h.String(), k.Bytes())
		if !bytes.Equal(h.Bytes(), want) || !bytes.Equal(k.Bytes(), want) || h.String() != hex.EncodeToString(want) {
			r.text = fmt.Sprintf("the hash is %s, and %s again from its text, instead of %x", h.String(), k.String(), want)
		}
	}
	return r
}

// parts converts the parts of a reference one after the other.
func (o *objects) parts(e *engines, j job, r *result) {
	x := o.s.refs[j.a]
	// the commits again, by the builder that all share
	chain, err := o.chain(x, e.made[x.mining])
	if err != nil {
		r.err = err
		return
	}
	same := func(what string, a, b interface{}) {
		if r.text == "" && digestOf("", false, a) != digestOf("", false, b) {
			r.text = "the " + what + " made of the bytes of one is another one"
		}
	}
	ref := o.refs[j.a]
	if j.b == 0 {
		for i, c := range chain {
			same("commit (built again)", c, ref.Commits().List()[i])
			b, err := e.commit[x.mining].ToContent(c)
			if err != nil {
				r.err = err
				return
			}
			d, err := e.commit[x.mining].ToCommit(b)
			if err != nil {
				r.err = err
				return
			}
			same("commit", c, d)
			r.values = append(r.values, b, d)
		}
		b, err := e.list[x.mining].ToContent(ref.Commits())
		if err != nil {
			r.err = err
			return
		}
		d, err := e.list[x.mining].ToCommits(b)
		if err != nil {
			r.err = err
			return
		}
		same("list of commits", ref.Commits(), d)
		r.values = append(r.values, b, d)
		return
	}
	for i, k := range ref.ContentKeys().List() {
		b, err := e.key.ToContent(k)
		if err != nil {
			r.err = err
			return
		}
		d, err := e.key.ToContentKey(b)
		if err != nil {
			r.err = err
			return
		}
		same("content key", k, d)
		pb, err := e.pointer.ToContent(k.Content())
		if err != nil {
			r.err = err
			return
		}
		pd, err := e.pointer.ToPointer(pb)
		if err != nil {
			r.err = err
			return
		}
		same("pointer", k.Content(), pd)
		c := o.conts[j.a].List()[i]
		cb, err := e.cont.ToContent(c)
		if err != nil {
			r.err = err
			return
		}
		cd, err := e.cont.ToInstance(cb)
		if err != nil {
			r.err = err
			return
		}
		same("content", c, cd)
		r.values = append(r.values, b, d, pb, pd, cb, cd)
	}
	b, err := e.keys.ToContent(ref.ContentKeys())
	if err != nil {
		r.err = err
		return
	}
	d, err := e.keys.ToContentKeys(b)
	if err != nil {
		r.err = err
		return
	}
	same("list of content keys", ref.ContentKeys(), d)
	r.values = append(r.values, b, d)
}

// damaged gives an adapter what it is likely to refuse.
func (o *objects) damaged(e *engines, j job, r *result) {
	how := o.s.refs[j.a].hurt[j.b]
	use := func(b []byte, err error, to func(b []byte) (interface{}, error)) {
		if err != nil {
			r.err = err
			return
		}
		g := guard(damage(b, how))
		v, err := to(g.b)
		r.err = err
		if err == nil {
			r.values = append(r.values, v)
		}
		if !g.intact() {
			r.text = "damaged bytes were changed"
		}
	}
	switch j.b {
	case 0:
		b, err := e.adapter.ToContent(o.htrees[j.a])
		use(b, err, func(b []byte) (interface{}, error) { return e.adapter.ToHashTree(b) })
	case 1:
		c, err := e.adapter.ToCompact(o.htrees[j.a])
		if err != nil {
			r.err = err
			return
		}
		b, err := e.compact.ToContent(c)
		use(b, err, func(b []byte) (interface{}, error) { return e.compact.ToCompact(b) })
	case 2:
		a := e.refs[o.s.refs[j.a].mining]
		b, err := a.ToContent(o.refs[j.a])
		use(b, err, func(b []byte) (interface{}, error) { return a.ToReference(b) })
	case 3:
		b, err := e.conts.ToContent(o.conts[j.a])
		use(b, err, func(b []byte) (interface{}, error) { return e.conts.ToInstance(b) })
	case 4:
		text := []byte(hex.EncodeToString(o.raw[j.a].b))
		use(text, nil, func(b []byte) (interface{}, error) { return e.hash.FromString(string(b)) })
	case 5:
		// blocks that are not all those of the hash tree
		mixed := plain(o.mixed[j.a])
		if len(mixed) > 0 {
			at := how[1] % len(mixed)
			mixed = append(append([][]byte{}, mixed[:at]...), mixed[at+1:]...)
		}
		if how[0] > 1 {
			mixed = append(mixed, []byte("a block of nothing"))
		}
		l, err := e.adapter.ToOrder(o.htrees[j.a], mixed)
		r.err = err
		if err == nil {
			r.values = append(r.values, l)
		}
	}
}

func digest512(b []byte) []byte {
	if len(b) == hash.Size {
		return append([]byte{}, b...)
	}
	x := sha512.Sum512(b)
	return x[:]
}

// padded are the hashes of the leaves.
func padded(blocks [][]byte) [][]byte {
	out := [][]byte{}
	for _, b := range blocks {
		out = append(out, digest512(b))
	}
	for len(out) < 2 || len(out)&(len(out)-1) != 0 {
		out = append(out, digest512(nil))
	}
	return out
}

func merkle(blocks [][]byte) []byte {
	l := padded(blocks)
	for len(l) > 1 {
		next := [][]byte{}
		for i := 0; i < len(l); i += 2 {
			next = append(next, digest512(append(append([]byte{}, l[i]...), l[i+1]...)))
		}
		l = next
	}
	return l[0]
}
