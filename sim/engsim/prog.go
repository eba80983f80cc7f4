//go:build go1.23

package engsim

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	ins_apps "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/attachments"
	ins_modules "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/modules"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/parameters"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
	"github.com/steve-care-software/rodkina/zz_verif/core"
)

// Kinds of instructions.
const (
	sModule = iota
	sApp
	sParam
	sAssign
	sAttach
	sExec
)

// Kinds of assigned values.
const (
	vInput = iota
	vConst
	vExec
	vSub
)

// pstmt is an instruction.
type pstmt struct {
	kind  int
	name  string // declared or assigned name, application of an attachment or execution
	ref   string // module of an application, value of an assignment, variable of an attachment
	index uint   // module index, target of an attachment
	input bool
	vkind int
	konst []byte
	sub   []pstmt
}

func (s pstmt) String() string {
	switch s.kind {
	case sModule:
		return fmt.Sprintf("module %s=%d", s.name, s.index)
	case sApp:
		return fmt.Sprintf("app %s(%s)", s.name, s.ref)
	case sParam:
		if s.input {
			return "in " + s.name
		}
		return "out " + s.name
	case sAssign:
		switch s.vkind {
		case vInput:
			return s.name + "=" + s.ref
		case vConst:
			return fmt.Sprintf("%s=%q", s.name, s.konst)
		case vExec:
			return s.name + "=exec " + s.ref
		}
		return s.name + "={" + progString(s.sub) + "}"
	case sAttach:
		return fmt.Sprintf("attach %s:%d to %s", s.ref, s.index, s.name)
	}
	return "exec " + s.name
}

func progString(p []pstmt) string {
	l := []string{}
	for _, s := range p {
		l = append(l, s.String())
	}
	return strings.Join(l, "; ")
}

// shape bounds what a program declares.
type shape struct {
	mods, apps, ins, outs int
	targets               []uint
	weights               []int
}

var usual = &shape{mods: 4, apps: 6, ins: 4, outs: 4, targets: []uint{0, 1, 2, 3}, weights: []int{2, 3, 3, 8, 5, 6}}

// genProg draws a valid program.
func genProg(src *core.Src, nmods int, max, depth int) []pstmt {
	return genShaped(src, usual, nmods, 2, max, depth)
}

// genLarge draws a program that is beyond the usual sizes in one way.
func genLarge(src *core.Src, nmods int) ([]pstmt, string) {
	s := *usual
	switch src.Draw(7) {
	case 0:
		n := 200 + src.Draw(900)
		s.weights = []int{1, 1, 1, 30, 2, 2}
		return genShaped(src, &s, nmods, n, n, 0), "instructions"
	case 1:
		s.ins, s.outs = 600, 600
		s.weights = []int{1, 1, 60, 20, 10, 4}
		n := 300 + src.Draw(700)
		return genShaped(src, &s, nmods, n, n, 0), "parameters"
	case 2:
		s.targets = []uint{0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 65535, 65536, 65537, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}
		s.weights = []int{1, 1, 2, 10, 30, 5}
		return genShaped(src, &s, nmods, 20, 60, 0), "targets"
	case 3:
		s.apps, s.mods = 600, 600
		s.weights = []int{20, 30, 1, 6, 6, 6}
		n := 300 + src.Draw(700)
		return genShaped(src, &s, nmods, n, n, 0), "applications"
	case 4:
		// sub programs inside of sub programs
		p := genShaped(src, &s, nmods, 2, 8, 0)
		for n := 8 + src.Draw(200); n > 0; n-- {
			q := []pstmt{{kind: sParam, name: "o0"}, {kind: sAssign, name: "o0", vkind: vSub, sub: p}}
			if src.Chance(1, 6) {
				q = append(q, genShaped(src, &shape{mods: 4, apps: 6, targets: usual.targets, weights: usual.weights}, nmods, 1, 3, 0)...)
			}
			p = q
		}
		return p, "depth of sub programs"
	case 5:
		// calls attached to calls: each assignment executes the chain below it
		n := 8 + src.Draw(50)
		p := []pstmt{{kind: sModule, name: "m0", index: indexOf(src.Draw(nmods))}, {kind: sApp, name: "a0", ref: "m0"}, {kind: sAssign, name: "x", vkind: vExec, ref: "a0"}}
		for i := 1; i < n; i++ {
			a := fmt.Sprintf("a%d", i)
			p = append(p, pstmt{kind: sApp, name: a, ref: "m0"}, pstmt{kind: sAttach, name: a, ref: "x", index: uint(src.Draw(3))})
			if src.Chance(1, 10) {
				p = append(p, pstmt{kind: sAssign, name: "y", vkind: vConst, konst: []byte{byte(i)}}, pstmt{kind: sAttach, name: a, ref: "y", index: uint(src.Draw(3))})
			}
			p = append(p, pstmt{kind: sAssign, name: "x", vkind: vExec, ref: a})
		}
		return p, "depth of calls"
	}
	// attachments of one call
	p := []pstmt{{kind: sParam, name: "i0", input: true}, {kind: sParam, name: "o0"}, {kind: sModule, name: "m0", index: indexOf(src.Draw(nmods))}, {kind: sApp, name: "a0", ref: "m0"}, {kind: sApp, name: "a1", ref: "m0"}, {kind: sAssign, name: "x", vkind: vExec, ref: "a0"}}
	for n := 100 + src.Draw(500); n > 0; n-- {
		v := "i0"
		switch src.Draw(8) {
		case 0:
			v = "x"
		case 1:
			p = append(p, pstmt{kind: sAssign, name: "z", vkind: vConst, konst: []byte(fmt.Sprintf("k%d", n))})
			v = "z"
		case 2:
			v = "z"
			p = append(p, pstmt{kind: sAssign, name: "z", vkind: vConst, konst: []byte("same")})
		}
		p = append(p, pstmt{kind: sAttach, name: "a1", ref: v, index: uint(src.Draw(700))})
	}
	return append(p, pstmt{kind: sAssign, name: "o0", vkind: vExec, ref: "a1"}, pstmt{kind: sExec, name: "a1"}), "attachments"
}

func genShaped(src *core.Src, limits *shape, nmods int, min, max, depth int) []pstmt {
	out := []pstmt{}
	mods, apps, ins, outs, vals := []string{}, []string{}, []string{}, []string{}, []string{}
	real := 0
	n := src.Range(min, max)
	for i := 0; i < n || real == 0; i++ {
		s := pstmt{kind: src.Pick(limits.weights)}
		if len(mods) == 0 && (s.kind == sApp || s.kind == sExec || s.kind == sAttach) {
			s.kind = sModule
		}
		if len(apps) == 0 && (s.kind == sExec || s.kind == sAttach) {
			s.kind = sApp
		}
		if i > n+10 {
			s.kind = sAssign
		}
		switch s.kind {
		case sModule:
			if len(mods) >= limits.mods {
				continue
			}
			s.index = indexOf(src.Draw(nmods))
			s.name = fmt.Sprintf("m%d", len(mods))
			mods = append(mods, s.name)
		case sApp:
			if len(apps) >= limits.apps {
				continue
			}
			s.name = fmt.Sprintf("a%d", len(apps))
			s.ref = mods[src.Draw(len(mods))]
			apps = append(apps, s.name)
		case sParam:
			s.input = src.Draw(2) == 0
			if s.input {
				if len(ins) >= limits.ins {
					continue
				}
				s.name = fmt.Sprintf("i%d", len(ins))
				ins = append(ins, s.name)
			} else {
				if len(outs) >= limits.outs {
					continue
				}
				s.name = fmt.Sprintf("o%d", len(outs))
				outs = append(outs, s.name)
			}
		case sAssign:
			real++
			pool := append([]string{"x", "y", "z"}, outs...)
			pool = append(pool, outs...)
			s.name = pool[src.Draw(len(pool))]
			s.vkind = src.Pick([]int{3, 3, 5, 2})
			if s.vkind == vSub && depth <= 0 || s.vkind == vExec && len(apps) == 0 || s.vkind == vInput && len(ins) == 0 {
				s.vkind = vConst
			}
			switch s.vkind {
			case vInput:
				s.ref = ins[src.Draw(len(ins))]
			case vConst:
				s.konst = []byte(fmt.Sprintf("k%d", src.Draw(50)))
			case vExec:
				s.ref = apps[src.Draw(len(apps))]
			case vSub:
				s.sub = genProg(src, nmods, 8, depth-1)
			}
			vals = append(vals, s.name)
		case sAttach:
			pool := append(append([]string{}, vals...), ins...)
			if len(pool) == 0 {
				continue
			}
			s.name = apps[src.Draw(len(apps))]
			s.ref = pool[src.Draw(len(pool))]
			s.index = limits.targets[src.Draw(len(limits.targets))]
		case sExec:
			real++
			s.name = apps[src.Draw(len(apps))]
		}
		out = append(out, s)
	}
	return out
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return v
}

// buildProg makes the instructions, with a suffix added to every name.
func buildProg(p []pstmt, suffix string) instructions.Instructions {
	return buildNamed(p, func(s string) []byte { return []byte(s + suffix) })
}

// buildNamed makes the instructions with other names.
func buildNamed(p []pstmt, name func(s string) []byte) instructions.Instructions {
	list := []instructions.Instruction{}
	for _, s := range p {
		b := instructions.NewInstructionBuilder().Create()
		switch s.kind {
		case sModule:
			b.WithModule(must(ins_modules.NewBuilder().Create().WithIndex(s.index).WithName(name(s.name)).Now()))
		case sApp:
			b.WithApplication(must(ins_apps.NewBuilder().Create().WithModule(name(s.ref)).WithName(name(s.name)).Now()))
		case sParam:
			pb := parameters.NewBuilder().Create().WithName(name(s.name))
			if s.input {
				pb.IsInput()
			}
			b.WithParameter(must(pb.Now()))
		case sAssign:
			vb := instructions.NewValueBuilder().Create()
			switch s.vkind {
			case vInput:
				vb.WithVariable(name(s.ref))
			case vConst:
				vb.WithConstant(append([]byte(nil), s.konst...))
			case vExec:
				vb.WithExecution(name(s.ref))
			case vSub:
				vb.WithInstructions(buildNamed(s.sub, name))
			}
			b.WithAssignment(must(instructions.NewAssignmentBuilder().Create().WithVariable(name(s.name)).WithValue(must(vb.Now())).Now()))
		case sAttach:
			v := must(attachments.NewVariableBuilder().Create().WithCurrent(name(s.ref)).WithTarget(s.index).Now())
			b.WithAttachment(must(attachments.NewBuilder().Create().WithVariable(v).WithApplication(name(s.name)).Now()))
		case sExec:
			b.WithExecution(name(s.name))
		}
		list = append(list, must(b.Now()))
	}
	return must(instructions.NewBuilder().Create().WithList(list).Now())
}

// naming turns the names of the generator into those of a program: the names of
// modules, applications and variables are unlike each other only where they
// have to be.
type naming struct {
	words []string
	fold  bool // names that differ in upper and lower case are the same
	hex   bool // names are compared by their hexadecimal form
	src   *core.Src
	known map[string]string
	used  [3]int
}

var words = [][]string{
	{"n", "nn", "nnn", "nnnn", "N", "nN", "Nn", "NN", "n n", "n ", " n", "n\x00", "n\x00n", "\x00"},
	{"\xff", "\xfe", "\xff\xfe", "\xc3", "\xc3\x28", "\xef\xbf\xbd", "\u00e9", "e\u0301", "\u212a", "K", "k"},
	{"0", "00", "1", "01", "+1", "1.0", "-0", "0x1", "1e0"},
	{"%s", "%d", "%!s", "a,b", "a", "b", "a:b", "a/b", "a.b", "a-b", "ab", "a b", "a|b"},
	{"i0", "o0", "x", "a0", "m0", "i1", "input", "output", "nil", "self"},
}

func newNaming(src *core.Src) *naming {
	n := &naming{src: src, known: map[string]string{}}
	switch k := src.Draw(10); {
	case k < 4:
	case k < 5:
		n.fold = true
	case k < 6:
		n.hex = true
	default:
		n.words = words[src.Draw(len(words))]
		n.hex = src.Chance(1, 3)
	}
	return n
}

func (n *naming) String() string {
	return fmt.Sprintf("names like %q, folded %v, hex %v", n.words, n.fold, n.hex)
}

// text is what the interpreter is told to compare.
func (n *naming) text(b []byte) string {
	switch {
	case n.fold:
		return strings.ToLower(string(b))
	case n.hex:
		return fmt.Sprintf("%x", b)
	}
	return string(b)
}

func (n *naming) name(s string) []byte {
	if n.fold {
		if n.src.Draw(2) == 0 {
			return []byte(strings.ToUpper(s))
		}
		return []byte(s)
	}
	if n.words == nil {
		return []byte(s)
	}
	if w, ok := n.known[s]; ok {
		return []byte(w)
	}
	space := 0 // of variables and parameters
	if len(s) > 1 && s[0] == 'm' {
		space = 1
	} else if len(s) > 1 && s[0] == 'a' {
		space = 2
	}
	k := n.used[space]
	n.used[space]++
	w := n.words[k%len(n.words)]
	if k >= len(n.words) {
		w += fmt.Sprintf("#%d", k/len(n.words))
	}
	n.known[s] = w
	return []byte(w)
}

// buildModules makes n modules that call fn with their index.
func buildModules(n int, fn func(index uint, in map[uint]interface{}) (interface{}, error)) modules.Modules {
	list := []modules.Module{}
	for i := 0; i < n; i++ {
		index := indexOf(i)
		list = append(list, must(modules.NewModuleBuilder().Create().WithIndex(index).WithFunc(func(in map[uint]interface{}) (interface{}, error) {
			return fn(index, in)
		}).Now()))
	}
	return must(modules.NewBuilder().Create().WithList(list).Now())
}

// indexOf are the indexes that modules have.
func indexOf(i int) uint {
	if i < 4 {
		return uint(i)
	}
	return []uint{255, 256, 257, 65536, 1 << 32, 1<<64 - 1}[i-4]
}

// The reference: what a program means.

type mval struct {
	kind  int
	input uint
	konst []byte
	app   *mapp
	sub   *mprog
}

type matt struct {
	local uint
	val   *mval
}

type mapp struct {
	module uint
	atts   []matt
}

type mins struct {
	val  *mval // nil for an execution
	exec *mapp
}

type mprog struct {
	list   []mins
	outs   []int
	inputs int
}

func compileModel(p []pstmt) *mprog {
	out := &mprog{}
	mods := map[string]uint{}
	apps := map[string]*mapp{}
	inputs := map[string]uint{}
	outputs := map[string]bool{}
	vals := map[string]*mval{}
	for _, s := range p {
		switch s.kind {
		case sModule:
			mods[s.name] = s.index
		case sApp:
			apps[s.name] = &mapp{module: mods[s.ref]}
		case sParam:
			if s.input {
				inputs[s.name] = uint(len(inputs))
			} else {
				outputs[s.name] = true
			}
		case sAssign:
			v := &mval{kind: s.vkind}
			switch s.vkind {
			case vInput:
				v.input = inputs[s.ref]
			case vConst:
				v.konst = s.konst
			case vExec:
				v.app = apps[s.ref]
			case vSub:
				v.sub = compileModel(s.sub)
			}
			vals[s.name] = v
			if outputs[s.name] {
				out.outs = append(out.outs, len(out.list))
			}
			out.list = append(out.list, mins{val: v})
		case sAttach:
			v, ok := vals[s.ref]
			if !ok {
				v = &mval{kind: vInput, input: inputs[s.ref]}
			}
			old := apps[s.name]
			apps[s.name] = &mapp{module: old.module, atts: append(append([]matt{}, old.atts...), matt{s.index, v})}
		case sExec:
			out.list = append(out.list, mins{exec: apps[s.name]})
		}
	}
	out.inputs = len(inputs)
	return out
}

// Decisions of a module function.
const (
	dReturn = iota
	dError
	dPanic
)

// mcall is a call of a module function as it happened.
type mcall struct {
	module   uint
	args     string
	decision int
	value    interface{}
	nested   []*mexec // executions made inside the call
}

// mexec is an execution as it happened.
type mexec struct {
	prog     int
	inputs   []interface{}
	calls    []*mcall
	result   []interface{}
	err      error
	panicked interface{}
}

var errStop = fmt.Errorf("stop")

// mrun replays the calls of an execution against the meaning of the program.
type mrun struct {
	calls  []*mcall
	pos    int
	wrong  string
	inputs []interface{}
	panics bool
}

func (r *mrun) prog(p *mprog) ([]interface{}, error) {
	values := make([]interface{}, len(p.list))
	for i, in := range p.list {
		var err error
		if in.val != nil {
			values[i], err = r.value(in.val)
		} else {
			_, err = r.exec(in.exec)
		}
		if err != nil {
			return nil, err
		}
	}
	out := []interface{}{}
	for _, i := range p.outs {
		out = append(out, values[i])
	}
	return out, nil
}

func (r *mrun) value(v *mval) (interface{}, error) {
	switch v.kind {
	case vInput:
		if v.input >= uint(len(r.inputs)) {
			return nil, errStop
		}
		return r.inputs[v.input], nil
	case vConst:
		return v.konst, nil
	case vSub:
		out, err := r.prog(v.sub)
		if err != nil {
			return nil, err
		}
		return out, nil
	}
	return r.exec(v.app)
}

func (r *mrun) exec(a *mapp) (interface{}, error) {
	args := map[uint]interface{}{}
	for _, at := range a.atts {
		v, err := r.value(at.val)
		if err != nil {
			return nil, err
		}
		args[at.local] = v
	}
	if r.pos >= len(r.calls) {
		if r.wrong == "" {
			r.wrong = fmt.Sprintf("module %d was not called with %s", a.module, canon(args))
		}
		return nil, errStop
	}
	c := r.calls[r.pos]
	r.pos++
	if c.module != a.module || c.args != canon(args) {
		if r.wrong == "" {
			r.wrong = fmt.Sprintf("call %d was of module %d with %s instead of module %d with %s", r.pos-1, c.module, c.args, a.module, canon(args))
		}
		return nil, errStop
	}
	switch c.decision {
	case dError:
		return nil, errStop
	case dPanic:
		r.panics = true
		return nil, errStop
	}
	return c.value, nil
}
