package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where the mode of the parser flows to: a taint analysis over the SSA of the
// whole repository. It succeeds when the mode decides nothing but whether
// something is printed.

type modeFlow struct {
	p       *Program
	vals    map[ssa.Value]bool // values depending on the mode
	cells   map[ssa.Value]bool // addresses whose content depends on it
	fields  map[string]bool    // struct fields that hold it
	results map[*ssa.Function]bool
	entry   map[*ssa.Function]bool
	changed bool
	why     []string // reasons it is not settled
	regions int
	prints  int
	fns     []*ssa.Function
	harm    map[*ssa.Function]string
	callers map[*ssa.Function][]*ssa.Call
}

func (m *modeFlow) no(at ssa.Instruction, f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if at != nil {
		s = shortFn(at.Parent().String()) + " " + m.p.pos(at.Pos()) + ": " + s
	}
	for _, x := range m.why {
		if x == s {
			return
		}
	}
	m.why = append(m.why, s)
}

func fieldKey(t types.Type, i int) string {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := under(t).(*types.Struct)
	if !ok {
		return ""
	}
	return t.String() + "." + st.Field(i).Name()
}

func (m *modeFlow) tv(v ssa.Value) {
	if v == nil || m.vals[v] {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	m.vals[v] = true
	m.changed = true
}

func (m *modeFlow) tc(a ssa.Value) {
	if !m.cells[a] {
		m.cells[a] = true
		m.changed = true
	}
}

// content tells whether what the address holds depends on the mode.
func (m *modeFlow) content(a ssa.Value) bool {
	if m.cells[a] {
		return true
	}
	if f, ok := a.(*ssa.FieldAddr); ok {
		return m.fields[fieldKey(f.X.Type(), f.Field)]
	}
	return false
}

func (m *modeFlow) storeTo(at ssa.Instruction, a ssa.Value) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		k := fieldKey(x.X.Type(), x.Field)
		if strings.HasPrefix(k, modPath+"/schema.") {
			m.no(at, "what is stored in %s depends on the mode", shortFn(k))
		}
		if k == "" {
			m.no(at, "stored in an unknown field")
		}
		if !m.fields[k] {
			m.fields[k] = true
			m.changed = true
		}
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
		m.tc(a)
	case *ssa.IndexAddr:
		if al, ok := x.X.(*ssa.Alloc); ok {
			m.tc(al)
			return
		}
		m.no(at, "a list element depends on the mode")
	default:
		m.no(at, "stored at an unknown place")
	}
}

var printers = map[string]bool{"fmt.Println": true, "fmt.Printf": true, "fmt.Print": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Fprint": true,
	"log.Println": true, "log.Printf": true, "log.Print": true, "println": true, "print": true}

func purePkg(n string) bool {
	for _, p := range []string{"strings.", "strconv.", "fmt.Sprint", "errors.Is", "errors.New", "fmt.Errorf", "fmt.Append", "reflect.TypeOf", "errors.Unwrap", "time.Now", "time.Since", "(time."} {
		if strings.HasPrefix(n, p) {
			return !strings.HasSuffix(n, "Repeat")
		}
	}
	return false
}

// quietCall tells whether a call only computes or prints.
func (m *modeFlow) quietCall(c *ssa.Call, inRegion bool) string {
	cc := c.Common()
	if cc.IsInvoke() {
		n := cc.Method.Name()
		if n == "Error" || n == "String" || n == "Unwrap" {
			if _, ok := cc.Value.(*ssa.Parameter); ok || !inRegion {
				return ""
			}
		}
		if pureTree[n] && (!inRegion || sureValue(cc.Value)) {
			return ""
		}
		return "calls method " + n
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "append", "min", "max", "print", "println", "ssa:wrapnilchk":
			return ""
		}
		return "calls " + b.Name()
	}
	f := cc.StaticCallee()
	if f == nil {
		return "calls an unknown function"
	}
	n := fnName(f)
	if printers[n] {
		if strings.HasPrefix(n, "fmt.F") && !stdStream(cc.Args[0]) {
			return "prints elsewhere"
		}
		m.prints++
		return ""
	}
	if isRepoPkg(fnPkgPath(f)) && len(f.Blocks) > 0 {
		return m.harmless(f)
	}
	if purePkg(n) {
		return ""
	}
	return "calls " + n
}

func stdStream(v ssa.Value) bool {
	if x, ok := v.(*ssa.MakeInterface); ok {
		v = x.X
	}
	if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
		if g, ok := l.X.(*ssa.Global); ok {
			return g.String() == "os.Stdout" || g.String() == "os.Stderr"
		}
	}
	return false
}

// methods of parse-tree nodes and tokens that only look
var pureTree = map[string]bool{"GetText": true, "GetStart": true, "GetStop": true, "GetSymbol": true, "GetLine": true, "GetColumn": true, "GetTokenIndex": true,
	"GetTokenType": true, "GetChildCount": true, "GetRuleIndex": true, "GetSourceInterval": true, "GetChildren": true, "GetParent": true}

// sureValue: calling a method on the value does not depend on luck.
func sureValue(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.Call:
		if x.Common().IsInvoke() {
			switch x.Common().Method.Name() {
			case "GetStart", "GetStop", "GetSymbol":
				return sureValue(x.Common().Value)
			}
		}
	case *ssa.ChangeInterface:
		return sureValue(x.X)
	}
	return false
}

// harmless: the function computes and prints only, and cannot panic.
func (m *modeFlow) harmless(f *ssa.Function) string {
	if s, ok := m.harm[f]; ok {
		return s
	}
	m.harm[f] = ""
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Index <= b.Index && s.Dominates(b) {
				m.harm[f] = "has a loop: " + f.Name()
				return m.harm[f]
			}
		}
		for _, ins := range b.Instrs {
			if s := m.quiet(ins, func(a *ssa.Alloc) bool { return a.Parent() == f }); s != "" {
				m.harm[f] = f.Name() + ": " + s
				return m.harm[f]
			}
		}
	}
	return ""
}

// quiet tells whether an instruction does nothing that shows.
func (m *modeFlow) quiet(ins ssa.Instruction, own func(*ssa.Alloc) bool) string {
	local := func(a ssa.Value) bool {
		for {
			switch x := a.(type) {
			case *ssa.IndexAddr:
				if _, ok := x.Index.(*ssa.Const); !ok {
					return false
				}
				a = x.X
				continue
			case *ssa.FieldAddr:
				a = x.X
				continue
			case *ssa.Alloc:
				return own(x)
			}
			return false
		}
	}
	switch t := ins.(type) {
	case *ssa.Call:
		return m.quietCall(t, true)
	case *ssa.Store:
		if !local(t.Addr) {
			return "changes memory"
		}
	case *ssa.Panic:
		return "panics"
	case *ssa.IndexAddr:
		if !local(t) {
			return "indexes a list"
		}
	case *ssa.FieldAddr:
		if p, ok := t.X.(*ssa.Parameter); ok && t.Parent().Signature.Recv() != nil && t.Parent().Params[0] == p {
			return ""
		}
		if !local(t) {
			return "looks into an object that may be absent"
		}
	case *ssa.UnOp:
		if t.Op == token.ARROW {
			return "waits"
		}
		if t.Op == token.MUL {
			switch t.X.(type) {
			case *ssa.Alloc, *ssa.FreeVar, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr:
			default:
				return "follows a pointer that may be nil"
			}
		}
	case *ssa.TypeAssert:
		if !t.CommaOk {
			return "asserts a type"
		}
	case *ssa.BinOp:
		if t.Op == token.QUO || t.Op == token.REM || t.Op == token.SHL || t.Op == token.SHR {
			return "may divide by zero"
		}
	case *ssa.Alloc, *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Slice, *ssa.Extract, *ssa.Field,
		*ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.MakeClosure, *ssa.MakeMap:
		if s, ok := ins.(*ssa.Slice); ok && (s.Low != nil || s.High != nil) {
			return "slices"
		}
	case *ssa.Lookup:
	default:
		return fmt.Sprintf("%T", ins)
	}
	return ""
}

func (p *Program) repoFunctions() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range p.Pkgs {
		sp := p.Prog.Package(pk.Types)
		for _, mem := range sp.Members {
			switch x := mem.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := p.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.Prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && isRepoPkg(fnPkgPath(f)) {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (m *modeFlow) run(seeds []ssa.Value) {
	m.vals, m.cells, m.fields = map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[string]bool{}
	m.results, m.harm = map[*ssa.Function]bool{}, map[*ssa.Function]string{}
	m.fns = m.p.repoFunctions()
	for _, s := range seeds {
		m.tv(s)
	}
	for m.changed = true; m.changed && len(m.why) == 0; {
		m.changed = false
		for _, f := range m.fns {
			if strings.HasSuffix(fnPkgPath(f), "/cmd") || strings.HasSuffix(fnPkgPath(f), "/wasm") {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					m.flow(ins)
				}
			}
		}
	}
	if len(m.why) > 0 {
		return
	}
	m.regions, m.prints = 0, 0
	for _, f := range m.fns {
		for _, b := range f.Blocks {
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && m.vals[i.Cond] {
				m.region(i)
			}
		}
	}
}

// flow propagates through one instruction.
func (m *modeFlow) flow(ins ssa.Instruction) {
	any := false
	for _, op := range ins.Operands(nil) {
		if *op != nil && m.vals[*op] {
			any = true
		}
	}
	switch t := ins.(type) {
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if m.content(t.X) {
				m.tv(t)
			}
			if ia, ok := t.X.(*ssa.IndexAddr); ok && m.content(ia.X) {
				m.tv(t)
			}
		}
		if any {
			m.tv(t)
		}
	case *ssa.Store:
		if m.vals[t.Val] {
			m.storeTo(t, t.Addr)
		}
	case *ssa.MakeClosure:
		f := t.Fn.(*ssa.Function)
		for i, b := range t.Bindings {
			if m.vals[b] {
				m.tv(f.FreeVars[i])
			}
			if m.cells[b] {
				m.tc(f.FreeVars[i])
			}
			if m.cells[f.FreeVars[i]] {
				m.tc(b)
			}
		}
	case *ssa.Slice:
		if any || m.cells[t.X] {
			m.tv(t)
		}
	case *ssa.Return:
		if any && t.Parent().Signature.Results().Len() > 0 {
			m.result(t)
		}
	case *ssa.If:
		if any {
			m.implicit(t)
		}
	case *ssa.Call:
		m.callFlow(t, t.Common(), any)
		if f := t.Common().StaticCallee(); f != nil && m.results[f] {
			m.tv(t)
		}
	case *ssa.Defer:
		m.callFlow(t, t.Common(), any)
	case *ssa.Go:
		m.no(t, "a goroutine")
	case *ssa.MapUpdate, *ssa.Send, *ssa.Panic:
		if any {
			m.no(ins, "the mode flows into %T", ins)
		}
	case *ssa.DebugRef:
	default:
		if v, ok := ins.(ssa.Value); ok && any {
			if _, ok := v.(*ssa.FieldAddr); ok {
				return
			}
			m.tv(v)
		}
	}
	// addresses that leave sight
	if fa, ok := ins.(*ssa.FieldAddr); ok && m.fields[fieldKey(fa.X.Type(), fa.Field)] {
		for _, r := range *fa.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if x.Val == ssa.Value(fa) {
					m.no(r, "the address of a field that holds the mode is kept")
				}
			default:
				m.no(r, "the address of a field that holds the mode is passed on")
			}
		}
	}
}

func (m *modeFlow) result(at ssa.Instruction) {
	f := at.Parent()
	if m.entry[f] {
		m.no(at, "the result depends on the mode")
	}
	if f.Signature.Recv() != nil && (f.Name() == "Error" || strings.HasPrefix(f.Name(), "Visit")) {
		m.no(at, "the result of %s depends on the mode", f.Name())
	}
	if !m.results[f] {
		m.results[f] = true
		m.changed = true
	}
}

func (m *modeFlow) callFlow(at ssa.Instruction, cc *ssa.CallCommon, any bool) {
	if !any {
		return
	}
	if cc.IsInvoke() {
		m.no(at, "the mode is passed to method %s", cc.Method.Name())
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if v, ok := at.(ssa.Value); ok {
			m.tv(v)
		} else {
			m.no(at, "the mode is passed to %s", b.Name())
		}
		return
	}
	var f *ssa.Function
	switch x := cc.Value.(type) {
	case *ssa.Function:
		f = x
	case *ssa.MakeClosure:
		f = x.Fn.(*ssa.Function)
	}
	if f == nil {
		m.no(at, "the mode is passed to an unknown function")
		return
	}
	n := fnName(f)
	if printers[n] {
		return
	}
	if isRepoPkg(fnPkgPath(f)) && len(f.Blocks) > 0 {
		for i, a := range cc.Args {
			if m.vals[a] && i < len(f.Params) {
				m.tv(f.Params[i])
			}
		}
		return
	}
	if purePkg(n) {
		if v, ok := at.(ssa.Value); ok {
			m.tv(v)
			return
		}
	}
	m.no(at, "the mode is passed to %s", n)
}

// reach lists the blocks between a branch and where its ways meet again.
func regionOf(i *ssa.If) (in map[*ssa.BasicBlock]bool, meet *ssa.BasicBlock) {
	from := func(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		seen := map[*ssa.BasicBlock]bool{}
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			if seen[b] {
				return
			}
			seen[b] = true
			for _, s := range b.Succs {
				dfs(s)
			}
		}
		dfs(b)
		return seen
	}
	b := i.Block()
	avoid := func(m *ssa.BasicBlock) (map[*ssa.BasicBlock]bool, bool) {
		seen := map[*ssa.BasicBlock]bool{}
		exit := false
		var dfs func(x *ssa.BasicBlock)
		dfs = func(x *ssa.BasicBlock) {
			if x == m || seen[x] {
				return
			}
			seen[x] = true
			if len(x.Succs) == 0 {
				exit = true
			}
			for _, s := range x.Succs {
				dfs(s)
			}
		}
		for _, s := range b.Succs {
			dfs(s)
		}
		return seen, exit
	}
	a := from(b.Succs[0])
	best := -1
	for x := range from(b.Succs[1]) {
		if !a[x] || x == b {
			continue
		}
		seen, exit := avoid(x)
		if exit || seen[b] {
			continue
		}
		if best < 0 || len(seen) < best {
			best, in, meet = len(seen), seen, x
		}
	}
	if meet == nil {
		in, _ = avoid(nil)
	}
	return
}

// implicit: what differs after the ways of a branch have met.
func (m *modeFlow) implicit(i *ssa.If) {
	in, meet := regionOf(i)
	if meet == nil {
		if in[i.Block()] {
			m.no(i, "the mode decides how often a loop runs")
			return
		}
		var rets []*ssa.Return
		for b := range in {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				rets = append(rets, r)
			}
		}
		for _, r := range rets[1:] {
			for k := range r.Results {
				if !sameSSA(r.Results[k], rets[0].Results[k]) {
					m.result(r)
				}
			}
		}
		return
	}
	for _, ins := range meet.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []ssa.Value
		for k, p := range meet.Preds {
			if in[p] || p == i.Block() {
				vs = append(vs, ph.Edges[k])
			}
		}
		for _, v := range vs[1:] {
			if !sameSSA(v, vs[0]) {
				m.tv(ph)
			}
		}
	}
}

func sameSSA(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.String() == y.String()
}

// region checks that nothing but printing depends on a branch.
func (m *modeFlow) region(i *ssa.If) {
	m.regions++
	in, _ := regionOf(i)
	if in[i.Block()] {
		m.no(i, "the mode decides how often a loop runs")
		return
	}
	for b := range in {
		for _, s := range b.Succs {
			if in[s] && s.Dominates(b) {
				m.no(i, "a loop runs in one mode only")
			}
		}
		for _, ins := range b.Instrs {
			if s := m.quiet(ins, func(a *ssa.Alloc) bool { return in[a.Block()] }); s != "" {
				m.no(ins, "in one mode only, the code %s", s)
			}
		}
	}
}

// ---- C27 ----

const modeRule = "mode-changes-the-outcome"

func checkC27(c *vctx) {
	c.rep.rule("the mode handed to the parser flows only into conditions of branches that print, and into what they print (nothing on them changes memory, can panic, ends differently or decides a value); where that cannot be seen, parsing is analysed in both modes over symbolic sources (malformed, refused, panicking, every declaration) and nothing the source says is lost or changed in trace mode only")
	m := &modeFlow{p: c.p, entry: map[*ssa.Function]bool{}}
	mt := c.p.typ("kfparser", "Mode")
	if mt == nil {
		c.rep.undecided("type kfparser.Mode not found")
		return
	}
	var seeds []ssa.Value
	for _, f := range c.p.repoFunctions() {
		if !strings.HasSuffix(fnPkgPath(f), "/kfparser") {
			continue
		}
		if f.Signature.Recv() == nil && token.IsExported(f.Name()) && strings.HasPrefix(f.Name(), "Parse") {
			m.entry[f] = true
		}
		for _, p := range f.Params {
			if types.Identical(p.Type(), mt) {
				seeds = append(seeds, p)
			}
		}
	}
	if len(seeds) == 0 {
		c.rep.undecided("no parameter of type kfparser.Mode")
		return
	}
	m.run(seeds)
	c.rep.add("mode_parameters", len(seeds))
	c.rep.add("dependent_values", len(m.vals))
	c.rep.add("branches_on_the_mode", m.regions)
	c.rep.add("functions_scanned", len(m.fns))
	for _, f := range m.fns {
		if p := fnPkgPath(f); strings.HasSuffix(p, "/kfgrammar") || strings.HasSuffix(p, "/cmd") {
			continue
		}
		c.rep.fns[shortFn(f.String())] = true
		switch f.Name() {
		case "Error", "String", "GoString", "Format", "Unwrap":
			if s := m.changes(f, map[*ssa.Function]bool{}); s != "" {
				m.why = append(m.why, "printing calls "+shortFn(f.String())+", which "+s)
			}
		}
	}
	for v := range m.vals {
		if ins, ok := v.(ssa.Instruction); ok {
			c.rep.runs = append(c.rep.runs, RunInfo{Name: "depends on the mode: " + shortFn(ins.Parent().String()) + " " + v.Name() + " " + c.p.pos(v.Pos())})
		}
	}
	sort.Slice(c.rep.runs, func(i, j int) bool { return c.rep.runs[i].Name < c.rep.runs[j].Name })
	if len(m.why) == 0 {
		return
	}
	c.rep.add("compared_by_exploration", 1)
	c.bothModes(m.why)
}

// bothModes compares the two modes over symbolic sources.
func (c *vctx) bothModes(why []string) {
	run := func(trace, all bool) (*Report, *sigSet) {
		r := newReport(c.rep.id, c.rep.tier)
		x := &vctx{p: c.p, base: c.base, rep: r, only: true, onlyTrace: trace, sigs: &sigSet{m: map[string]map[string][]string{}}}
		n := "Default"
		if trace {
			n = "Trace"
		}
		v, ok := modeConst(c.p, n)
		if !ok {
			r.undecided("kfparser.%s not found", n)
			return r, x.sigs
		}
		x.modeList = []modeName{{"", v}}
		x.mode = v
		sent := sentinel(c.base, "utils", "ErrInvalidSyntax")
		x.syntaxErrors(sent)
		x.panics()
		x.validated()
		x.refusals("refused", true)
		if all {
			x.declarations()
			x.keywords()
			x.modifiers()
			x.inits()
			x.tokenTexts()
		}
		x.flush()
		return r, x.sigs
	}
	t, ts := run(true, true)
	c.rep.runs = append(c.rep.runs, t.runs...)
	for k, n := range t.counts {
		c.rep.add(k, n)
	}
	d, ds := run(false, len(t.viols) > 0 || len(t.failures) > 0)
	for _, k := range sortedKeys(ds.m) {
		if ts.m[k] == nil {
			continue
		}
		c.rep.add("situations_compared", 1)
		for _, x := range []struct {
			in, not map[string][]string
			n       string
		}{{ts.m[k], ds.m[k], "in trace mode only"}, {ds.m[k], ts.m[k], "in default mode only"}} {
			for _, sig := range sortedKeys(x.in) {
				if _, ok := x.not[sig]; !ok {
					c.rep.viol(modeRule+"/ending", k+": "+x.in[sig][0], "the call "+sig+" "+x.n+" ("+strings.Join(why[:1], "")+")", x.in[sig][1:])
				}
			}
		}
	}
	seen := map[string]bool{}
	for _, v := range d.viols {
		seen[v.Rule+v.Detail] = true
	}
	for _, v := range t.viols {
		if !seen[v.Rule+v.Detail] {
			v.Detail += " (in trace mode only; " + strings.Join(why[:1], "") + ")"
			c.rep.viol(modeRule+"/"+v.Rule, v.Construct, v.Detail, v.Path)
		}
	}
	for _, f := range d.failures {
		seen[f] = true
	}
	for _, f := range t.failures {
		if !seen[f] {
			c.rep.undecided("%s (%s)", f, why[0])
		}
	}
}

// changes tells whether a function that printing calls has effects.
func (m *modeFlow) changes(f *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[f] {
		return ""
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch t := ins.(type) {
			case *ssa.Store:
				if !localAddr(t.Addr) {
					return "changes memory"
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go:
				return "changes memory"
			case *ssa.Call:
				cc := t.Common()
				if cc.IsInvoke() {
					switch cc.Method.Name() {
					case "Error", "String", "Unwrap":
						continue
					}
					return "calls method " + cc.Method.Name()
				}
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				g := cc.StaticCallee()
				if g == nil {
					return "calls an unknown function"
				}
				if purePkg(fnName(g)) || fnName(g) == "fmt.Fprintf" {
					continue
				}
				if isRepoPkg(fnPkgPath(g)) && len(g.Blocks) > 0 {
					if s := m.changes(g, seen); s != "" {
						return s
					}
					continue
				}
				if strings.HasPrefix(fnName(g), "(*strings.Builder).") || strings.HasPrefix(fnName(g), "(*bytes.Buffer).") {
					continue
				}
				return "calls " + fnName(g)
			}
		}
	}
	return ""
}

func localAddr(a ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.Alloc, *ssa.MakeSlice:
			return true
		default:
			return false
		}
	}
}
