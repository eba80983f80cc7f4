//go:build go1.23

package engsim

import (
	"fmt"
	"strings"

	asts "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/zz_verif/core"
)

// Kinds of elements of a grammar.
const (
	gValue = iota
	gToken
	gEverything
	gRecursive
	gExternal
)

// gtok is a token of a grammar.
type gtok struct {
	name    string
	lines   [][]gelem
	compose []byte // a token that composes, without elements
	valid   [][]byte
	invalid [][]byte
}

type gelem struct {
	kind   int
	val    byte
	tok    *gtok // of a token, the exception of an everything
	escape *gtok
	name   string // of a recursion, an everything, an external
	ext    *ggram
	min    uint
	max    int // -1: without end
}

type gchan struct {
	tok, prev, next *gtok
}

// ggram is a grammar.
type ggram struct {
	root     *gtok
	channels []gchan
	tokens   []*gtok
	composes []*gtok
}

func (t *gtok) text(seen map[*gtok]bool) string {
	if seen[t] {
		return t.name
	}
	seen[t] = true
	if t.compose != nil {
		return fmt.Sprintf("%s~%q", t.name, t.compose)
	}
	ls := []string{}
	for _, l := range t.lines {
		es := []string{}
		for _, e := range l {
			s := ""
			switch e.kind {
			case gValue:
				s = fmt.Sprintf("%q", e.val)
			case gToken:
				s = e.tok.text(seen)
			case gEverything:
				s = "!" + e.tok.text(seen)
				if e.escape != nil {
					s += "\\" + e.escape.text(seen)
				}
			case gRecursive:
				s = "^" + e.name
			case gExternal:
				s = "ext " + e.ext.String()
			}
			if e.max < 0 {
				s += fmt.Sprintf("{%d,}", e.min)
			} else if e.min != 1 || e.max != 1 {
				s += fmt.Sprintf("{%d,%d}", e.min, e.max)
			}
			es = append(es, s)
		}
		ls = append(ls, strings.Join(es, " "))
	}
	return t.name + "(" + strings.Join(ls, " | ") + ")"
}

func (g *ggram) String() string {
	seen := map[*gtok]bool{}
	s := g.root.text(seen)
	for _, c := range g.channels {
		s += " channel " + c.tok.text(seen)
		if c.prev != nil {
			s += " after " + c.prev.text(seen)
		}
		if c.next != nil {
			s += " before " + c.next.text(seen)
		}
	}
	return s
}

var alphabet = []byte("abcd")

// genGram draws a grammar.  Tokens refer to later ones, a recursion follows a
// value, so that parsing ends.
func genGram(src *core.Src, prefix string, depth int) *ggram {
	g := &ggram{}
	n := src.Range(1, 5)
	for i := 0; i < n; i++ {
		g.tokens = append(g.tokens, &gtok{name: fmt.Sprintf("%s%d", prefix, i)})
	}
	for i := n - 1; i >= 0; i-- {
		t := g.tokens[i]
		k := 1 + src.Pick([]int{3, 3, 1})
		for j := 0; j < k; j++ {
			t.lines = append(t.lines, g.line(src, i, prefix, depth))
		}
	}
	g.root = g.tokens[0]
	if src.Chance(1, 3) {
		k := 1 + src.Draw(2)
		for i := 0; i < k; i++ {
			c := gchan{tok: leaf(fmt.Sprintf("%sc%d", prefix, i), " _"[i])}
			if src.Chance(1, 5) {
				c.prev = leaf(fmt.Sprintf("%sp%d", prefix, i), alphabet[src.Draw(len(alphabet))])
			}
			if src.Chance(1, 5) {
				c.next = leaf(fmt.Sprintf("%sn%d", prefix, i), alphabet[src.Draw(len(alphabet))])
			}
			g.channels = append(g.channels, c)
		}
	}
	for _, t := range g.tokens {
		if !src.Chance(2, 3) {
			continue
		}
		v, iv := src.Draw(3), src.Draw(2)
		for j := 0; j < v; j++ {
			t.valid = append(t.valid, g.sample(src, t, 10))
		}
		for j := 0; j < iv; j++ {
			t.invalid = append(t.invalid, g.mutate(src, g.sample(src, t, 10)))
		}
	}
	k := src.Draw(3)
	for i := 0; i < k; i++ {
		b := make([]byte, 1+src.Draw(5))
		for j := range b {
			b[j] = alphabet[src.Draw(len(alphabet))]
		}
		g.composes = append(g.composes, &gtok{name: fmt.Sprintf("%scomp%d", prefix, i), compose: b})
	}
	return g
}

// repeat makes the grammar accept what it accepts again and again.
func (g *ggram) repeat() {
	old := g.root
	g.root = &gtok{name: old.name + "r", lines: [][]gelem{{{kind: gToken, tok: old, min: 1, max: -1}}}}
	g.tokens = append(g.tokens, g.root)
}

// widen adds a token of many lines, or of a line of many elements.
func (g *ggram) widen(src *core.Src) {
	old := g.root
	t := &gtok{name: old.name + "w"}
	m := 20 + src.Draw(300)
	long := src.Draw(2) == 0
	for i := 0; i < m; i++ {
		e := gelem{kind: gValue, val: byte(i), min: uint(src.Draw(2)), max: 1}
		if !long {
			e.min = 1
		}
		if long && i > 0 {
			t.lines[0] = append(t.lines[0], e)
			continue
		}
		t.lines = append(t.lines, []gelem{e})
	}
	for k := src.Draw(4); k > 0; k-- {
		t.valid = append(t.valid, []byte{byte(src.Draw(m))})
	}
	g.root = &gtok{name: old.name + "v", lines: [][]gelem{{{kind: gToken, tok: t, min: 1, max: -1}, {kind: gToken, tok: old, min: 0, max: 1}}, {{kind: gToken, tok: old, min: 1, max: 1}}}}
	g.tokens = append(g.tokens, t, g.root)
}

func leaf(name string, v byte) *gtok {
	return &gtok{name: name, lines: [][]gelem{{{kind: gValue, val: v, min: 1, max: 1}}}}
}

func (g *ggram) line(src *core.Src, i int, prefix string, depth int) []gelem {
	out := []gelem{}
	n := 1 + src.Draw(3)
	solid := false // a mandatory value came before
	for j := 0; j < n; j++ {
		e := gelem{min: 1, max: 1}
		switch src.Draw(8) {
		case 5:
			e.min, e.max = 0, 1
		case 6:
			e.min, e.max = 1, -1
		case 7:
			e.min, e.max = uint(src.Draw(2)), 2
		}
		kind := src.Pick([]int{6, 5, 1, 2, 1})
		switch {
		case kind == gToken && i+1 < len(g.tokens):
			e.kind = gToken
			e.tok = g.tokens[i+1+src.Draw(len(g.tokens)-i-1)]
		case kind == gEverything:
			e.kind = gEverything
			e.name = fmt.Sprintf("%se%d%d", prefix, i, j)
			e.tok = leaf(fmt.Sprintf("%sx%d%d", prefix, i, j), alphabet[src.Draw(len(alphabet))])
			if src.Chance(1, 3) {
				e.escape = leaf(fmt.Sprintf("%sy%d%d", prefix, i, j), '\\')
			}
			e.min, e.max = 1, 1
		case kind == gRecursive && solid:
			e.kind = gRecursive
			e.name = fmt.Sprintf("%s%d", prefix, i)
			if src.Chance(1, 4) {
				e.name = fmt.Sprintf("%s%d", prefix, src.Draw(i+1))
			}
			e.min, e.max = 0, 1
		case kind == gExternal && depth > 0:
			e.kind = gExternal
			e.name = fmt.Sprintf("%sext%d%d", prefix, i, j)
			e.ext = genGram(src, fmt.Sprintf("%sg%d%d", prefix, i, j), depth-1)
		default:
			e.kind = gValue
			e.val = alphabet[src.Draw(len(alphabet))]
			if e.min > 0 {
				solid = true
			}
		}
		out = append(out, e)
	}
	return out
}

// sample makes data that a token mostly accepts.
func (g *ggram) sample(src *core.Src, t *gtok, max int) []byte {
	out := g.derive(src, t, map[string]*gtok{}, 6)
	if len(out) > max {
		out = out[:max]
	}
	if len(out) == 0 {
		out = []byte{alphabet[src.Draw(len(alphabet))]}
	}
	return out
}

func (g *ggram) derive(src *core.Src, t *gtok, stack map[string]*gtok, depth int) []byte {
	out := []byte{}
	if len(t.lines) == 0 {
		return out
	}
	stack[t.name] = t
	l := t.lines[src.Draw(len(t.lines))]
	for _, e := range l {
		n := int(e.min)
		if e.max < 0 {
			n += src.Draw(3)
		} else if e.max > n && depth > 0 {
			n += src.Draw(e.max - n + 1)
		}
		for ; n > 0 && len(out) < 16; n-- {
			if len(g.channels) > 0 && src.Chance(1, 6) {
				out = append(out, " _"[src.Draw(len(g.channels))])
			}
			switch e.kind {
			case gValue:
				out = append(out, e.val)
			case gToken:
				out = append(out, g.derive(src, e.tok, stack, depth-1)...)
			case gEverything:
				k := src.Draw(4)
				for ; k > 0; k-- {
					out = append(out, "efg"[src.Draw(3)])
				}
				if e.escape != nil && src.Chance(1, 3) {
					out = append(out, '\\', e.tok.lines[0][0].val)
				}
			case gRecursive:
				if s, ok := stack[e.name]; ok && depth > 0 {
					out = append(out, g.derive(src, s, stack, depth-2)...)
				}
			case gExternal:
				out = append(out, e.ext.derive(src, e.ext.root, map[string]*gtok{}, depth-1)...)
			}
		}
	}
	return out
}

func (g *ggram) mutate(src *core.Src, b []byte) []byte {
	out := append([]byte(nil), b...)
	switch src.Draw(4) {
	case 0:
		out[src.Draw(len(out))] = alphabet[src.Draw(len(alphabet))]
	case 1:
		out = append(out, alphabet[src.Draw(len(alphabet))])
	case 2:
		if len(out) > 1 {
			out = out[:len(out)-1]
		}
	case 3:
		at := src.Draw(len(out) + 1)
		out = append(out[:at], append([]byte{" xz_"[src.Draw(4)]}, out[at:]...)...)
	}
	return out
}

// data makes an input for a grammar.
func (g *ggram) data(src *core.Src) []byte {
	b := g.sample(src, g.root, 12)
	if src.Chance(1, 4) {
		b = g.mutate(src, b)
	}
	if src.Chance(1, 5) {
		b = append(b, "!tail"[:1+src.Draw(5)]...)
	}
	return b
}

// gramBuilder makes the objects of a grammar; shared tokens stay shared.
type gramBuilder struct {
	suffix string
	toks   map[*gtok]grammars.Token
}

func buildGram(g *ggram, suffix string) (grammars.Grammar, *gramBuilder) {
	b := &gramBuilder{suffix: suffix, toks: map[*gtok]grammars.Token{}}
	return b.gram(g), b
}

func (b *gramBuilder) gram(g *ggram) grammars.Grammar {
	gb := grammars.NewBuilder().Create().WithRoot(b.token(g.root))
	if len(g.channels) > 0 {
		list := []grammars.Channel{}
		for _, c := range g.channels {
			cb := grammars.NewChannelBuilder().Create().WithToken(b.token(c.tok))
			if c.prev != nil || c.next != nil {
				cc := grammars.NewChannelConditionBuilder().Create()
				if c.prev != nil {
					cc.WithPrevious(b.token(c.prev))
				}
				if c.next != nil {
					cc.WithNext(b.token(c.next))
				}
				cb.WithCondition(must(cc.Now()))
			}
			list = append(list, must(cb.Now()))
		}
		gb.WithChannels(must(grammars.NewChannelsBuilder().Create().WithList(list).Now()))
	}
	return must(gb.Now())
}

func (b *gramBuilder) composeOf(name string, data []byte) grammars.Compose {
	list := []grammars.ComposeElement{}
	for i := 0; i < len(data); {
		n := 1
		for i+n < len(data) && data[i+n] == data[i] {
			n++
		}
		list = append(list, must(grammars.NewComposeElementBuilder().Create().WithValue(value(fmt.Sprintf("v%d", data[i]), data[i])).WithOccurences(uint(n)).Now()))
		i += n
	}
	return must(grammars.NewComposeBuilder().Create().WithName(name + b.suffix).WithList(list).Now())
}

func (b *gramBuilder) token(t *gtok) grammars.Token {
	if x, ok := b.toks[t]; ok {
		return x
	}
	lines := []grammars.Line{}
	if t.compose != nil {
		containers := []grammars.Container{}
		for i := 0; i < len(t.compose); i += 3 {
			end := i + 3
			if end > len(t.compose) {
				end = len(t.compose)
			}
			containers = append(containers, must(grammars.NewContainerBuilder().Create().WithCompose(b.composeOf(fmt.Sprintf("%s_%d", t.name, i), t.compose[i:end])).Now()))
		}
		lines = append(lines, must(grammars.NewLineBuilder().Create().WithContainers(containers).Now()))
	}
	for _, l := range t.lines {
		els := []grammars.Element{}
		for _, e := range l {
			eb := grammars.NewElementBuilder().Create().WithCardinality(card(e.min, e.max))
			switch e.kind {
			case gValue:
				eb.WithValue(value(fmt.Sprintf("v%d", e.val)+b.suffix, e.val))
			case gToken:
				eb.WithInstance(must(grammars.NewInstanceBuilder().Create().WithToken(b.token(e.tok)).Now()))
			case gEverything:
				vb := grammars.NewEverythingBuilder().Create().WithName(e.name + b.suffix).WithException(b.token(e.tok))
				if e.escape != nil {
					vb.WithEscape(b.token(e.escape))
				}
				eb.WithInstance(must(grammars.NewInstanceBuilder().Create().WithEverything(must(vb.Now())).Now()))
			case gRecursive:
				eb.WithRecursive(e.name + b.suffix)
			case gExternal:
				eb.WithExternal(must(grammars.NewExternalBuilder().Create().WithName(e.name + b.suffix).WithGrammar(b.gram(e.ext)).Now()))
			}
			els = append(els, must(eb.Now()))
		}
		lines = append(lines, lineOf(els))
	}
	tb := grammars.NewTokenBuilder().Create().WithName(t.name + b.suffix).WithBlock(must(grammars.NewBlockBuilder().Create().WithLines(lines).Now()))
	suites := []grammars.Suite{}
	for i, v := range t.valid {
		suites = append(suites, must(grammars.NewSuiteBuilder().Create().WithValid(b.composeOf(fmt.Sprintf("%s_ok%d", t.name, i), v)).Now()))
	}
	for i, v := range t.invalid {
		suites = append(suites, must(grammars.NewSuiteBuilder().Create().WithInvalid(b.composeOf(fmt.Sprintf("%s_no%d", t.name, i), v)).Now()))
	}
	if len(suites) > 0 {
		tb.WithSuites(must(grammars.NewSuitesBuilder().Create().WithList(suites).Now()))
	}
	x := must(tb.Now())
	b.toks[t] = x
	return x
}

// parsedTree is a tree that the grammar engine made, if it makes one.
func parsedTree(src *core.Src) trees.Tree {
	g := genGram(src, "t", 1)
	data := g.data(src)
	gr, _ := buildGram(g, "")
	var out trees.Tree
	c := alone(150_000, func() {
		t, err := asts.NewApplication().Execute(gr, data)
		if err == nil {
			out = t
		}
	})
	if c.panicV != nil {
		return nil
	}
	return out
}
