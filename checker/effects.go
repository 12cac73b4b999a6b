package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a parse can change or depend on beyond its input: an effect analysis
// over every function of the repository a parse can reach. "Shared" is what
// can be reached from a package variable.

type effects struct {
	c       *vctx
	reach   map[*ssa.Function]string
	once    map[*ssa.Function]bool // run by sync.Once only
	vals    map[ssa.Value]bool
	cells   map[ssa.Value]bool
	fields  map[string]bool
	results map[*ssa.Function]bool
	changed bool
	said    map[string]bool
}

const purityRule = "parse-is-a-function-of-its-input"

func (e *effects) bad(at ssa.Instruction, f string, a ...interface{}) {
	fn := at.Parent()
	s := shortFn(fn.String()) + " " + e.c.p.pos(at.Pos())
	d := fmt.Sprintf(f, a...)
	if !e.said[s+d] {
		e.said[s+d] = true
		e.c.rep.viol(purityRule, s, d, []string{"reached from " + e.reach[fn]})
	}
}

// reaching lists the functions reachable from the given ones.
func (e *effects) reaching(roots []*ssa.Function) {
	all := e.c.p.repoFunctions()
	byName := map[string][]*ssa.Function{}
	for _, f := range all {
		if f.Signature.Recv() != nil && parsePkg(fnPkgPath(f)) {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	var q []*ssa.Function
	add := func(f *ssa.Function, from string) {
		if f == nil || len(f.Blocks) == 0 {
			return
		}
		if _, ok := e.reach[f]; ok {
			return
		}
		if o := f.Origin(); o == nil && !isRepoPkg(fnPkgPath(f)) || o != nil && !isRepoPkg(fnPkgPath(o)) {
			return
		}
		e.reach[f] = from
		q = append(q, f)
	}
	for _, r := range roots {
		add(r, "a caller")
	}
	meths := map[types.Type]bool{}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		from := shortFn(f.String())
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if cc := ci.Common(); cc.IsInvoke() {
						for _, g := range byName[cc.Method.Name()] {
							add(g, from)
						}
					}
				}
				if mi, ok := ins.(*ssa.MakeInterface); ok && !meths[mi.X.Type()] {
					meths[mi.X.Type()] = true
					ms := e.c.p.Prog.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						if g := e.c.p.Prog.MethodValue(ms.At(i)); g != nil && ms.At(i).Obj().Pkg() != nil && isRepoPkg(ms.At(i).Obj().Pkg().Path()) {
							add(g, from)
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						add(g, from)
					}
				}
			}
		}
	}
}

func parsePkg(p string) bool {
	for _, s := range []string{"/kfparser", "/kfparser/ast", "/schema", "/utils", "/kfgrammar"} {
		if p == modPath+s {
			return true
		}
	}
	return false
}

// refLike tells whether a value of the type gives access to memory.
func refLike(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	case *types.Interface:
		return !types.Identical(t, errType)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refLike(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refLike(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (e *effects) tv(v ssa.Value) {
	if v == nil || e.vals[v] {
		return
	}
	if _, ok := v.(*ssa.Const); ok || !refLike(v.Type()) {
		return
	}
	e.vals[v] = true
	e.changed = true
}

func (e *effects) shared(v ssa.Value) bool {
	if g, ok := v.(*ssa.Global); ok {
		return g.Name() != "init$guard"
	}
	return e.vals[v]
}

// content tells whether what a private address holds is shared.
func (e *effects) content(a ssa.Value) bool {
	if e.cells[a] {
		return true
	}
	if f, ok := a.(*ssa.FieldAddr); ok {
		return e.fields[fieldKey(f.X.Type(), f.Field)]
	}
	return false
}

var okPkgs = map[string]bool{"strings": true, "strconv": true, "fmt": true, "errors": true, "bytes": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true,
	"sort": true, "slices": true, "cmp": true, "regexp": true, "regexp/syntax": true, "reflect": true, "encoding/json": true, "encoding": true, "io": true, "math": true, "math/bits": true,
	"context": true, "iter": true, "text/tabwriter": true, "encoding/hex": true, "encoding/base64": true, "math/big": true, "container/list": true}

func extAllowed(f *ssa.Function) string {
	p := fnPkgPath(f)
	n := f.Name()
	switch {
	case p == antlrPkg:
		if n == "ConfigureRuntime" || strings.HasPrefix(n, "WithLRL") || strings.HasPrefix(n, "With") && f.Signature.Recv() == nil {
			return "changes the settings of the ANTLR runtime"
		}
		return ""
	case strings.HasPrefix(p, "github.com/kwilteam/kwil-db/"):
		return ""
	case p == "sync":
		if f.Signature.Recv() != nil && strings.Contains(f.Signature.Recv().Type().String(), "Pool") {
			return "uses objects left over by other calls"
		}
		return ""
	case p == "fmt" && (strings.HasPrefix(n, "Scan") || strings.HasPrefix(n, "Fscan")):
		return "reads what is not its input"
	case p == "maps" || p == "golang.org/x/exp/maps":
		if n == "Keys" || n == "Values" || n == "All" {
			return "depends on the order of a map"
		}
		return ""
	case okPkgs[p]:
		return ""
	case p == "time" || strings.HasPrefix(p, "math/rand") || strings.HasPrefix(p, "crypto/") || p == "hash/maphash":
		return "depends on time or chance"
	case p == "os" || strings.HasPrefix(p, "os/") || p == "syscall" || p == "net" || p == "runtime" || p == "runtime/debug":
		return "depends on the environment"
	case p == "log":
		return ""
	}
	return "may depend on more than its arguments"
}

// readers only look at what they are given.
func readsOnly(f *ssa.Function) bool {
	p := fnPkgPath(f)
	switch p {
	case "strings", "strconv", "fmt", "errors", "bytes", "unicode", "unicode/utf8", "reflect", "encoding/json", "math", "maps":
		return f.Name() != "Unmarshal" && !strings.HasPrefix(f.Name(), "Fprint")
	case "slices", "sort":
		switch f.Name() {
		case "Contains", "Index", "IndexFunc", "ContainsFunc", "Equal", "BinarySearch", "Search", "SearchStrings", "Clone", "Max", "Min", "Sorted", "Values", "All":
			return true
		}
		return false
	case "regexp":
		return f.Name() != "Longest"
	case "sync":
		return f.Signature.Recv() != nil && strings.HasSuffix(f.Signature.Recv().Type().String(), "sync.Once") && f.Name() == "Do"
	case antlrPkg:
		// the simulators share the automaton and its caches and guard them
		return strings.HasPrefix(f.Name(), "NewLexerATNSimulator") || strings.HasPrefix(f.Name(), "NewParserATNSimulator")
	}
	return false
}

func (e *effects) flow(ins ssa.Instruction) {
	switch t := ins.(type) {
	case *ssa.UnOp:
		if t.Op == token.MUL && (e.shared(t.X) || e.content(t.X)) {
			e.tv(t)
		}
	case *ssa.FieldAddr:
		if e.shared(t.X) {
			e.tv(t)
		}
	case *ssa.IndexAddr:
		if e.shared(t.X) {
			e.tv(t)
		}
	case *ssa.Field:
		if e.shared(t.X) {
			e.tv(t)
		}
	case *ssa.Index:
		if e.shared(t.X) {
			e.tv(t)
		}
	case *ssa.Lookup:
		if e.shared(t.X) {
			e.tv(t)
		}
	case *ssa.Slice:
		if e.shared(t.X) || e.content(t.X) {
			e.tv(t)
		}
	case *ssa.Phi:
		for _, x := range t.Edges {
			if e.shared(x) {
				e.tv(t)
			}
		}
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Convert, *ssa.Range, *ssa.Next:
		if e.shared(*ins.Operands(nil)[0]) {
			e.tv(ins.(ssa.Value))
		}
	case *ssa.MakeClosure:
		f := t.Fn.(*ssa.Function)
		for i, b := range t.Bindings {
			if e.shared(b) {
				e.tv(f.FreeVars[i])
			}
			if e.cells[b] && !e.cells[f.FreeVars[i]] {
				e.cells[f.FreeVars[i]] = true
				e.changed = true
			}
		}
	case *ssa.Store:
		if !e.shared(t.Val) || e.once[t.Parent()] {
			return
		}
		switch a := t.Addr.(type) {
		case *ssa.FieldAddr:
			if k := fieldKey(a.X.Type(), a.Field); !e.fields[k] {
				e.fields[k] = true
				e.changed = true
			}
		case *ssa.IndexAddr:
			if !e.cells[a.X] {
				e.cells[a.X] = true
				e.changed = true
			}
		default:
			if !e.cells[t.Addr] {
				e.cells[t.Addr] = true
				e.changed = true
			}
		}
	case *ssa.Return:
		for _, x := range t.Results {
			if e.shared(x) && !e.results[t.Parent()] {
				e.results[t.Parent()] = true
				e.changed = true
			}
		}
	case ssa.CallInstruction:
		cc := t.Common()
		v, _ := ins.(ssa.Value)
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" && v != nil && (e.shared(cc.Args[0]) || e.cells[cc.Args[0]]) {
				e.tv(v)
			}
			return
		}
		var fs []*ssa.Function
		if f := cc.StaticCallee(); f != nil {
			fs = append(fs, f)
		} else if m, ok := cc.Value.(*ssa.MakeClosure); ok {
			fs = append(fs, m.Fn.(*ssa.Function))
		} else if cc.IsInvoke() {
			for f := range e.reach {
				if f.Name() == cc.Method.Name() && f.Signature.Recv() != nil {
					if it, ok := under(cc.Value.Type()).(*types.Interface); ok && types.Implements(f.Signature.Recv().Type(), it) {
						fs = append(fs, f)
					}
				}
			}
		}
		for _, f := range fs {
			if _, ok := e.reach[f]; !ok {
				continue
			}
			k := 0
			if cc.IsInvoke() {
				if e.shared(cc.Value) && len(f.Params) > 0 {
					e.tv(f.Params[0])
				}
				k = 1
			}
			for i, a := range cc.Args {
				if e.shared(a) && i+k < len(f.Params) {
					e.tv(f.Params[i+k])
				}
			}
			if v != nil && e.results[f] {
				e.tv(v)
			}
		}
	}
}

// onceOnly finds the functions that only sync.Once runs.
func (e *effects) onceOnly() {
	users := map[*ssa.Function][]*ssa.Function{}
	byOnce := map[*ssa.Function]bool{}
	for f := range e.reach {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				do := false
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && fnPkgPath(g) == "sync" && g.Name() == "Do" && len(ci.Common().Args) == 2 && e.global(ci.Common().Args[0]) {
						do = true
						a := ci.Common().Args[1]
						if m, ok := a.(*ssa.MakeClosure); ok {
							a = m.Fn
						}
						if h, ok := a.(*ssa.Function); ok {
							byOnce[h] = true
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && !do {
						if _, isMk := ins.(*ssa.MakeClosure); !isMk {
							users[g] = append(users[g], f)
						}
					}
				}
			}
		}
	}
	for f := range byOnce {
		if len(users[f]) == 0 {
			e.once[f] = true
		}
	}
	for again := true; again; {
		again = false
		for f, us := range users {
			if e.once[f] || len(us) == 0 {
				continue
			}
			ok := true
			for _, u := range us {
				ok = ok && e.once[u]
			}
			if ok {
				e.once[f] = true
				again = true
			}
		}
	}
}

// global: the address is part of a package variable, on every path.
func (e *effects) global(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Global:
		return true
	case *ssa.FieldAddr:
		return e.global(x.X)
	}
	return false
}

func (e *effects) check(fn *ssa.Function) {
	e.c.rep.fns[shortFn(fn.String())] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			e.c.rep.add("instructions_checked", 1)
			switch t := ins.(type) {
			case *ssa.Store:
				e.c.rep.add("writes_checked", 1)
				if !e.once[fn] && e.shared(t.Addr) {
					e.bad(t, "memory other parses see is changed")
				}
				if !e.once[fn] && e.shared(t.Val) {
					if f, ok := t.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(f.X.Type(), f.Field)
						if strings.HasPrefix(k, modPath+"/schema.") && resultType(f.X.Type()) {
							e.bad(t, "the result gets a part that other results share (%s)", shortFn(k))
						}
					}
				}
			case *ssa.MapUpdate:
				e.c.rep.add("writes_checked", 1)
				if !e.once[fn] && e.shared(t.Map) {
					e.bad(t, "a map other parses see is changed")
				}
			case *ssa.Go:
				e.bad(t, "work is started that may still run when the parse is over")
			case *ssa.Select:
				e.bad(t, "the outcome depends on which channel is ready first")
			case *ssa.Send:
				if e.shared(t.Chan) {
					e.bad(t, "sends to a channel other parses see")
				}
			case *ssa.Convert:
				if bt, ok := under(t.Type()).(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
					e.bad(t, "memory is accessed behind the back of the type system")
				}
				if bt, ok := under(t.Type()).(*types.Basic); ok && bt.Kind() == types.Uintptr {
					if xt, ok := under(t.X.Type()).(*types.Basic); ok && xt.Kind() == types.UnsafePointer {
						e.bad(t, "the address of an object becomes a number")
					}
				}
			case *ssa.Range:
				if _, ok := under(t.X.Type()).(*types.Map); ok {
					if r := orderMatters(t); r != "" {
						e.bad(t, "the outcome can depend on the order of a map: %s", r)
					}
				}
			case *ssa.UnOp:
				if g, ok := t.X.(*ssa.Global); ok && t.Op == token.MUL && g.Pkg != nil {
					p := g.Pkg.Pkg.Path()
					if !isRepoPkg(p) && (p == "os" && g.Name() != "Stdout" && g.Name() != "Stderr" && !types.Identical(g.Type().(*types.Pointer).Elem(), errType) || strings.HasSuffix(p, "rand")) {
						e.bad(t, "%s.%s is not part of the input", p, g.Name())
					}
				}
			}
			if ci, ok := ins.(ssa.CallInstruction); ok {
				e.checkCall(ci, fn)
			}
		}
	}
}

// resultType: schemas and their parts, not what validates them.
func resultType(t types.Type) bool {
	n := deref(t).String()
	n = n[strings.LastIndex(n, ".")+1:]
	return !strings.Contains(strings.ToLower(n), "validator") && !strings.Contains(strings.ToLower(n), "context")
}

func (e *effects) checkCall(ci ssa.CallInstruction, fn *ssa.Function) {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if e.shared(cc.Args[0]) && !e.once[fn] {
				e.bad(ci, "a list other parses see is appended to")
			}
		case "copy", "delete", "clear", "close":
			if e.shared(cc.Args[0]) && !e.once[fn] {
				e.bad(ci, "what other parses see is changed")
			}
		}
		return
	}
	f := cc.StaticCallee()
	if f == nil {
		if cc.IsInvoke() && e.shared(cc.Value) && !e.once[fn] {
			ok := types.Identical(cc.Value.Type(), errType)
			switch cc.Method.Name() {
			case "Error", "String", "Unwrap", "Name", "Kind":
				ok = true
			}
			if !ok && len(e.impl(cc)) == 0 {
				e.bad(ci, "%s is called on what other parses see", cc.Method.Name())
			}
		}
		return
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if isRepoPkg(fnPkgPath(f)) || f.Synthetic != "" && len(f.Blocks) > 0 {
		return
	}
	e.c.rep.add("outside_calls_checked", 1)
	if s := extAllowed(f); s != "" {
		e.bad(ci, "%s %s", shortFn(fnName(f)), s)
		return
	}
	if e.once[fn] || readsOnly(f) {
		return
	}
	for _, a := range cc.Args {
		if e.shared(a) {
			e.bad(ci, "%s is given what other parses see and may change it", shortFn(fnName(f)))
			return
		}
	}
}

func (e *effects) impl(cc *ssa.CallCommon) (r []*ssa.Function) {
	it, _ := under(cc.Value.Type()).(*types.Interface)
	for f := range e.reach {
		if f.Name() == cc.Method.Name() && f.Signature.Recv() != nil && it != nil && types.Implements(f.Signature.Recv().Type(), it) {
			r = append(r, f)
		}
	}
	return
}

// orderMatters looks for effects in a loop over a map that show its order.
func orderMatters(r *ssa.Range) string {
	var head *ssa.BasicBlock
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			head = n.Block()
		}
	}
	if head == nil {
		return ""
	}
	body := map[*ssa.BasicBlock]bool{head: true}
	var q []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) {
			q = append(q, p)
		}
	}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if !body[x] {
			body[x] = true
			q = append(q, x.Preds...)
		}
	}
	exits := 0
	for b := range body {
		for _, s := range b.Succs {
			if !body[s] {
				exits++
			}
		}
		for _, ins := range b.Instrs {
			switch t := ins.(type) {
			case *ssa.Store:
				return "something is stored in the loop"
			case *ssa.MapUpdate:
			case *ssa.Phi:
				if b == head {
					if bt, ok := under(t.Type()).(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
						return "a value is built up in the loop"
					}
				}
			case ssa.CallInstruction:
				if bi, ok := t.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "delete") {
					continue
				}
				if f := t.Common().StaticCallee(); f != nil && (fnPkgPath(f) == "strings" || fnPkgPath(f) == "strconv") && f.Signature.Recv() == nil {
					continue
				}
				return "a function is called in the loop"
			}
		}
	}
	if exits > 1 {
		return "the loop can end early"
	}
	return ""
}

// pure checks what parsing can change or depend on.
func (c *vctx) pure() {
	e := &effects{c: c, reach: map[*ssa.Function]string{}, once: map[*ssa.Function]bool{}, vals: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}, fields: map[string]bool{}, results: map[*ssa.Function]bool{}, said: map[string]bool{}}
	var roots []*ssa.Function
	for _, n := range [][2]string{{"kfparser", "Parse"}, {"kfparser", "ParseKF"}, {"utils", "ParseAnnotation"}} {
		f := c.p.fn(n[0], n[1])
		if f == nil {
			c.rep.undecided("%s.%s not found", n[0], n[1])
			continue
		}
		roots = append(roots, f)
	}
	if t := c.p.typ("schema", "Schema"); t != nil {
		ms := c.p.Prog.MethodSets.MethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			roots = append(roots, c.p.Prog.MethodValue(ms.At(i)))
		}
	}
	e.reaching(roots)
	e.onceOnly()
	var fns []*ssa.Function
	for f := range e.reach {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for e.changed = true; e.changed; {
		e.changed = false
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					e.flow(ins)
				}
			}
		}
	}
	for _, f := range fns {
		e.check(f)
	}
	for _, r := range roots {
		if r.Signature.Recv() == nil && e.results[r] {
			for _, b := range r.Blocks {
				if t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, x := range t.Results {
						if e.shared(x) {
							e.bad(t, "what is returned is shared with other parses")
						}
					}
				}
			}
		}
	}
	c.rep.add("functions_reached", len(fns))
	c.rep.add("once_only_functions", len(e.once))
}

func checkC19(c *vctx) {
	c.rep.rule("no function a parse can reach writes memory reachable from a package variable (other than under sync.Once), appends to or hands it to code that may change it, puts it into a result, starts goroutines, selects, ranges over a map with visible order, or calls code that depends on time, chance or the environment")
	c.pure()
	c.rep.minimum("functions_reached", 300)
	c.rep.minimum("writes_checked", 300)
	c.rep.minimum("outside_calls_checked", 100)
}
