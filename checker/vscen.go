package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Worlds: abstract schema values handed to the validator.

type world struct {
	onOut func(*Interp, Outcome) bool
	p     *Program
	name  string
	cfg   map[string]ListCfg
	dflt  ListCfg
	alias map[string]Val
	keys  []*Term
	rules []func(in *Interp, st *State, t *Term) Tri
	first map[string]string // term key -> possible first characters
	focus map[string]int    // statement term key -> 1 when in focus
	// bad marks the call argument that holds the offending variable
	badArg   *Term
	badParam *Term
	okParam  Val
	clean    bool
	free     map[string]bool            // "Type.Field" of the lists of arbitrary content; others are empty
	kinds    map[string]map[string]bool // followed name -> kinds of names it is compared with
	narrow   bool                       // names of other kinds differ from followed names
	err      error
}

func newWorld(p *Program, name string) *world {
	return &world{p: p, name: name, cfg: map[string]ListCfg{}, dflt: ListCfg{Exact: -1}, alias: map[string]Val{}, first: map[string]string{}}
}

func (w *world) fail(f string, a ...interface{}) {
	if w.err == nil {
		w.err = fmt.Errorf(f, a...)
	}
}

// ---- term construction ----

// f builds the field name of v (a struct, or a pointer to one).
func (w *world) f(v *Term, name string) *Term {
	if v == nil {
		return nil
	}
	t := v.T
	if pt, ok := under(t).(*types.Pointer); ok {
		v = rawTerm("deref", pt.Elem(), v)
		t = pt.Elem()
	}
	s, ok := under(t).(*types.Struct)
	if !ok {
		w.fail("%s is not a struct", tkey(t))
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return rawTerm("."+name, s.Field(i).Type(), v)
		}
	}
	w.fail("%s has no field %s", tkey(t), name)
	return nil
}

func (w *world) path(v *Term, names ...string) *Term {
	for _, n := range names {
		v = w.f(v, n)
	}
	return v
}

// el is focus element k of list l.
func (w *world) el(l *Term, k int) *Term {
	if l == nil {
		return nil
	}
	s, ok := under(l.T).(*types.Slice)
	if !ok {
		w.fail("%s is not a list", l.key)
		return nil
	}
	return rawTerm("elem", s.Elem(), l, fidx(l, k))
}

// at is element i of a list of fixed length.
func (w *world) at(l *Term, i int) *Term {
	if l == nil {
		return nil
	}
	s, ok := under(l.T).(*types.Slice)
	if !ok {
		w.fail("%s is not a list", l.key)
		return nil
	}
	return rawTerm("elem", s.Elem(), l, intV(i))
}

func (w *world) lst(l *Term, focus int) {
	if l != nil {
		w.cfg[l.key] = ListCfg{Focus: focus, Segs: 7, Exact: -1}
	}
}

func (w *world) exact(l *Term, n int) {
	if l != nil {
		w.cfg[l.key] = ListCfg{Exact: n}
	}
}

// same makes b denote the same value as a.
func (w *world) same(a, b *Term) {
	if a != nil && b != nil {
		w.alias[b.key] = a
	}
}

func (w *world) set(a *Term, v Val) {
	if a != nil {
		w.alias[a.key] = v
	}
}

func (w *world) key(k *Term) {
	if k != nil {
		w.keys = append(w.keys, k)
	}
}

func (w *world) rule(f func(in *Interp, st *State, t *Term) Tri) { w.rules = append(w.rules, f) }

// never: the string x equals none of the values whose term satisfies m.
func (w *world) never(x *Term, m func(in *Interp, st *State, y Val) bool) {
	if x == nil {
		return
	}
	w.rule(func(in *Interp, st *State, t *Term) Tri {
		if t.Op != "eq" || len(t.A) != 2 {
			return Maybe
		}
		for i := 0; i < 2; i++ {
			if key(t.A[i]) == x.key && m(in, st, t.A[1-i]) {
				return No
			}
		}
		return Maybe
	})
}

// isElemField: y is field name of an element of list l.
func isElemField(y Val, name string, l *Term) bool {
	t, ok := y.(*Term)
	if !ok || l == nil {
		return false
	}
	if name != "" {
		if t.Op != "."+name {
			return false
		}
		t, ok = t.A[0].(*Term)
		if !ok {
			return false
		}
	}
	if t.Op != "elem" {
		return false
	}
	lt, ok := t.A[0].(*Term)
	return ok && lt.key == l.key
}

// ---- the schema under validation ----

const kwAct = "github.com/kwilteam/kwil-db/parse/action"
const kwSQL = "github.com/kwilteam/kwil-db/parse/sql"
const kwTree = "github.com/kwilteam/kwil-db/parse/sql/tree"

func (w *world) root() *Term { return rawTerm("in", w.p.typ("schema", "Schema")) }

func (w *world) extType(pkg, name string) types.Type {
	t := w.p.extTyp(pkg, name)
	if t == nil {
		w.fail("type %s.%s not found", pkg, name)
	}
	return t
}

// parsed is the statement parsed from text s.
func (w *world) parsed(s Val) *Term {
	fn := w.p.extFn(kwAct, "Parse")
	if fn == nil {
		w.fail("statement parser not found")
		return nil
	}
	return rawTerm("call:"+kwAct+".Parse.0", fn.Signature.Results().At(0).Type(), s)
}

func (w *world) as(x *Term, pkg, name string) *Term {
	t := w.extType(pkg, name)
	if t == nil || x == nil {
		return nil
	}
	pt := types.NewPointer(t)
	return rawTerm("as:"+tkey(pt), pt, x)
}

func (w *world) isTypeOp(pkg, name string) string {
	t := w.extType(pkg, name)
	if t == nil {
		return "?"
	}
	return "istype:" + tkey(types.NewPointer(t))
}

var stmtKinds = []string{"DMLStmt", "ActionCallStmt", "ExtensionCallStmt"}

// kind fixes what statement text s parses to.
func (w *world) kind(s *Term, kind string) {
	if s == nil {
		return
	}
	ps := w.parsed(s)
	w.rule(func(in *Interp, st *State, t *Term) Tri {
		if len(t.A) == 1 && ps != nil && key(t.A[0]) == ps.key && strings.HasPrefix(t.Op, "istype:") {
			return triOf(t.Op == w.isTypeOp(kwAct, kind))
		}
		return Maybe
	})
	w.failing(s, "Parse", false)
}

// failing fixes whether the named step fails for statement text s. A step
// is recognised by what it is given: text made from s.
func (w *world) failing(s *Term, step string, fails bool) {
	w.rule(func(in *Interp, st *State, t *Term) Tri {
		if !strings.HasPrefix(t.Op, "fails:") || !strings.HasSuffix(t.Op, "."+step) || len(t.A) == 0 {
			return Maybe
		}
		if step == "ParseSql" && !strings.Contains(t.Op, kwSQL) || step == "Parse" && !strings.Contains(t.Op, kwAct) {
			return Maybe
		}
		if a, ok := t.A[0].(*Term); ok && occurs(a, s.key) {
			return triOf(fails)
		}
		return Maybe
	})
}

func occurs(t *Term, k string) bool {
	if t.key == k {
		return true
	}
	for _, a := range t.A {
		if x, ok := a.(*Term); ok && occurs(x, k) {
			return true
		}
		if i, ok := a.(*Int); ok && i.B != nil && occurs(i.B, k) {
			return true
		}
	}
	return false
}

// ---- call arguments ----

// A bad expression that is the argument of a recursive call stands for every
// bad expression of its kind (and of its bad side).
const ancBad = "ancbad:"

func isAncBad(x *Term) bool { return strings.HasPrefix(x.Op, ancBad) }

func leftBad(x *Term) *Term { return rawTerm("leftbad", types.Typ[types.Bool], x) }

var argKinds = []string{"ExpressionBindParameter", "ExpressionUnary", "ExpressionArithmetic", "ExpressionBinaryComparison", "ExpressionFunction"}

// isBad: expression x is, or contains, the offending variable.
func (w *world) isBad(in *Interp, st *State, x *Term) bool {
	if w.badArg == nil {
		return false
	}
	if isAncBad(x) || x.key == w.badArg.key {
		return true
	}
	parent := func(f *Term) *Term { // .F(deref(as:K(x))) -> x
		d, ok := f.A[0].(*Term)
		if !ok || d.Op != "deref" {
			return nil
		}
		a, ok := d.A[0].(*Term)
		if !ok || !strings.HasPrefix(a.Op, "as:") {
			return nil
		}
		y, _ := a.A[0].(*Term)
		return y
	}
	switch x.Op {
	case ".Operand":
		if y := parent(x); y != nil {
			return w.isBad(in, st, y)
		}
	case ".Left", ".Right":
		if y := parent(x); y != nil && w.isBad(in, st, y) {
			return in.decide(st, leftBad(y)) == (x.Op == ".Left")
		}
	case "elem":
		l, ok := x.A[0].(*Term)
		if !ok || l.Op != ".Inputs" {
			return false
		}
		y := parent(l)
		if y == nil || !w.isBad(in, st, y) {
			return false
		}
		return key(x.A[1]) == key(fidx(l, 1))
	}
	return false
}

func (w *world) isExpr(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == kwTree && n.Obj().Name() == "Expression"
}

func exprParent(l *Term) *Term {
	d, ok := l.A[0].(*Term)
	if !ok || d.Op != "deref" {
		return nil
	}
	a, ok := d.A[0].(*Term)
	if !ok || !strings.HasPrefix(a.Op, "as:") {
		return nil
	}
	y, _ := a.A[0].(*Term)
	return y
}

// ---- the scenario ----

func (w *world) scenario() *Scenario {
	sc := &Scenario{name: w.name, mapKeys: w.keys, forgetLists: !w.clean}
	argOps := map[string]bool{}
	for _, k := range argKinds {
		argOps[w.isTypeOp(kwTree, k)] = true
	}
	bindAs := "as:" + tkey(types.NewPointer(w.extType(kwTree, "ExpressionBindParameter")))
	sc.cfgF = func(in *Interp, st *State, l *Term) (ListCfg, bool) {
		if c, ok := w.cfg[l.key]; ok {
			return c, true
		}
		if l.Op == ".Inputs" && w.badArg != nil {
			if y := exprParent(l); y != nil && w.isExpr(y.T) && w.isBad(in, st, y) {
				return ListCfg{Focus: 1, Segs: 3, Exact: -1}, true
			}
		}
		if w.clean {
			if y := exprParent(l); l.Op == ".Inputs" && y != nil && w.isExpr(y.T) {
				return ListCfg{Exact: 2}, true
			}
			return w.dflt, true
		}
		if w.free != nil && !w.free[listName(l)] {
			return ListCfg{Exact: 0}, true
		}
		return w.dflt, true
	}
	sc.resolveF = func(in *Interp, st *State, t *Term) Val {
		if v, ok := w.alias[t.key]; ok {
			for i := 0; i < 20; i++ {
				y, ok := v.(*Term)
				if !ok {
					break
				}
				z, ok := w.alias[y.key]
				if !ok {
					break
				}
				v = z
			}
			return v
		}
		if t.Op == ".Parameter" && len(t.A) == 1 {
			if d, ok := t.A[0].(*Term); ok && d.Op == "deref" {
				if a, ok := d.A[0].(*Term); ok && a.Op == bindAs {
					if x, ok := a.A[0].(*Term); ok {
						if w.badArg != nil && (isAncBad(x) || x.key == w.badArg.key || x.Op != "anc" && w.badNoFork(st, x)) {
							return w.badParam
						}
						if w.okParam != nil {
							return w.okParam
						}
					}
				}
			}
		}
		return nil
	}
	sc.decideF = func(in *Interp, st *State, t *Term) Tri {
		for _, r := range w.rules {
			if v := r(in, st, t); v != Maybe {
				return v
			}
		}
		if w.narrow && t.Op == "eq" && len(t.A) == 2 {
			for i := 0; i < 2; i++ {
				if ks, ok := w.kinds[key(t.A[i])]; ok {
					if y, ok := t.A[1-i].(*Term); ok && !ks[nameKind(y)] && w.kinds[y.key] == nil {
						return No
					}
				}
			}
		}
		if len(t.A) == 1 {
			if x, ok := t.A[0].(*Term); ok && isAncBad(x) {
				if strings.HasPrefix(t.Op, "istype:") {
					k := strings.Split(x.Op, ":")[1]
					if t.Op == w.isTypeOp(kwTree, k) {
						return Yes
					}
					return No
				}
				if t.Op == "leftbad" {
					if strings.HasSuffix(x.Op, ":L") {
						return Yes
					}
					return No
				}
			}
		}
		switch t.Op {
		case "isnil":
			if x, ok := t.A[0].(*Term); ok {
				if strings.HasPrefix(x.Op, "as:") || strings.HasPrefix(x.Op, "call:") || x.Op == "anc" || isAncBad(x) || w.isExpr(x.T) {
					return No
				}
			}
		}
		if strings.HasPrefix(t.Op, "istype:") && len(t.A) == 1 {
			if x, ok := t.A[0].(*Term); ok && w.isExpr(x.T) && w.badArg != nil && w.isBad(in, st, x) {
				if !argOps[t.Op] {
					return No
				}
				left := 0
				for op := range argOps {
					if op == t.Op {
						continue
					}
					if a, ok := st.atoms[rawTerm(op, types.Typ[types.Bool], x).key]; ok && !a.V {
						continue
					}
					left++
				}
				if left == 0 {
					return Yes
				}
			}
		}
		if w.clean && t.Op == "eq" && len(t.A) == 2 {
			return w.cleanEq(in, st, t)
		}
		return Maybe
	}
	sc.abstractArg = func(in *Interp, st *State, t *Term) (string, bool) {
		if !w.isExpr(t.T) || t.Op == "anc" || isAncBad(t) {
			return "", false
		}
		if w.isBad(in, st, t) {
			for _, k := range argKinds {
				if in.decide(st, rawTerm(w.isTypeOp(kwTree, k), types.Typ[types.Bool], t)) {
					op := ancBad + k
					if k == "ExpressionArithmetic" || k == "ExpressionBinaryComparison" {
						if in.decide(st, leftBad(t)) {
							op += ":L"
						} else {
							op += ":R"
						}
					}
					return op, true
				}
			}
		}
		return "anc", true
	}
	if w.clean {
		sc.abstractArg = nil // expressions have a fixed shape
	}
	sc.strFirst = func(in *Interp, st *State, t *Term) (string, bool) {
		if f, ok := w.first[t.key]; ok {
			return f, true
		}
		return "", false
	}
	return sc
}

// badNoFork is isBad restricted to what is already decided.
func (w *world) badNoFork(st *State, x *Term) bool {
	ok := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, f := r.(*forkReq); !f {
					panic(r)
				}
			}
		}()
		tmp := &Interp{Sc: &Scenario{}}
		ok = w.isBad(tmp, st, x)
	}()
	return ok
}

// cleanEq: in a clean world different names are different.
func (w *world) cleanEq(in *Interp, st *State, t *Term) Tri {
	if isName(t.A[0]) && isName(t.A[1]) {
		return No
	}
	return Maybe
}

// runValidator validates the world's schema with a fresh validator.
func (w *world) runValidator(base *Interp) ([]Outcome, *Interp) {
	in := base.fresh(w.scenario())
	st := in.start()
	p := w.p
	nv := p.fn("schema", "NewCtxValidator")
	schT := p.typ("schema", "Schema")
	acc := lookupMethod(p, types.NewPointer(schT), "Accept")
	if nv == nil || acc == nil {
		in.undecide("schema.NewCtxValidator or (*schema.Schema).Accept not found")
		return nil, in
	}
	if w.err != nil {
		in.undecide("%s: %v", w.name, w.err)
		return nil, in
	}
	var res []Outcome
	for _, o := range in.run(st, nv, nil, nil) {
		if o.Kind != oRet {
			res = append(res, o)
			continue
		}
		rt := nv.Signature.Results().At(0).Type()
		v := o.V
		if !types.IsInterface(rt) {
			v = &Iface{rt, o.V}
		}
		in.onOut = func(o Outcome) bool { return w.onOut != nil && w.onOut(in, o) }
		res = append(res, in.run(o.St, acc, []Val{&Ptr{O: 0, Path: []Val{w.root()}}, v}, nil)...)
	}
	return res, in
}

// sentinel is the value of the package variable name after initialisation.
func sentinel(base *Interp, pkg, name string) Val {
	sp := base.P.pkg(pkg)
	if sp == nil {
		return nil
	}
	g := sp.Var(name)
	if g == nil {
		return nil
	}
	id, ok := base.base.glob[g]
	if !ok {
		return nil
	}
	c, ok := base.base.heap[id].(*Cell)
	if !ok {
		return nil
	}
	return c.V
}

// sentinels lists the published error values of a package.
func sentinels(base *Interp, pkg string) map[string]Val {
	res := map[string]Val{}
	sp := base.P.pkg(pkg)
	for n, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok || g.Object() == nil || !g.Object().Exported() || !types.Identical(g.Type().(*types.Pointer).Elem(), errType) {
			continue
		}
		if v := sentinel(base, pkg, n); v != nil {
			res[n] = v
		}
	}
	return res
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// listName is "Type.Field" for a list-valued field.
func listName(l *Term) string {
	if len(l.A) != 1 || !strings.HasPrefix(l.Op, ".") {
		return l.Op
	}
	o, ok := l.A[0].(*Term)
	if !ok {
		return l.Op
	}
	return typeName(o.T) + l.Op
}

// nameKind is what a name is the name of.
func nameKind(t *Term) string {
	if t.Op == "elem" {
		if l, ok := t.A[0].(*Term); ok {
			return listName(l) + "[]"
		}
	}
	return listName(t)
}

// follow makes name k a key followed through every map; with narrow, it is
// only compared with names of the given kinds.
func (w *world) follow(k *Term, kinds ...string) {
	if k == nil {
		return
	}
	w.key(k)
	if w.kinds == nil {
		w.kinds = map[string]map[string]bool{}
	}
	m := map[string]bool{}
	for _, x := range kinds {
		m[x] = true
	}
	w.kinds[k.key] = m
}

var (
	tableNames  = []string{"Table.Name", "ForeignKey.ParentTable"}
	columnNames = []string{"Column.Name", "Index.Name", "Index.Columns[]", "ForeignKey.ChildKeys[]", "ForeignKey.ParentKeys[]"}
	actionNames = []string{"Action.Name", "ActionCallStmt.Method"}
	varNames    = []string{"Action.Inputs[]", "ExtensionCallStmt.Receivers[]", "ExpressionBindParameter.Parameter"}
	extNames    = []string{"Extension.Name", "Extension.Alias", "ExtensionCallStmt.Extension"}
)

func typeName(t types.Type) string {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// freeSets are the groups of lists given arbitrary content around the part
// of the schema a scenario is about.
var freeSets = []struct {
	name  string
	lists []string
}{
	{"nothing else", nil},
	{"columns and attributes", []string{"Schema.Tables", "Table.Columns", "Column.Attributes"}},
	{"columns and indexes", []string{"Schema.Tables", "Table.Columns", "Table.Indexes", "Index.Columns"}},
	{"columns and foreign keys", []string{"Schema.Tables", "Table.Columns", "Table.ForeignKeys", "ForeignKey.ChildKeys", "ForeignKey.ParentKeys", "ForeignKey.Actions"}},
	{"actions", []string{"Schema.Actions", "Action.Inputs", "Action.Statements"}},
	{"statements and results", []string{"Schema.Actions", "Action.Statements", "ExtensionCallStmt.Receivers"}},
	{"statements and arguments", []string{"Schema.Actions", "Action.Statements", "ActionCallStmt.Args", "ExtensionCallStmt.Args"}},
	{"extensions and tables", []string{"Schema.Extensions", "Extension.Config", "Schema.Tables"}},
	{"tables and actions", []string{"Schema.Tables", "Schema.Actions", "Action.Annotations", "Action.Auxiliaries"}},
}

func (w *world) setFree(i int) {
	w.free = map[string]bool{}
	for _, l := range freeSets[i].lists {
		w.free[l] = true
	}
}
