package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Clean worlds: schemas of fixed shape in which every rule is kept. Names are
// symbols, pairwise different unless said otherwise.

type shape struct {
	ext, tab, col, idx, idxCol, fk, act, in, stm, arg, rcv int
	at                                                     int // rotates types, attributes, references
}

type cTable struct {
	t    *Term
	name *Term
	cols []*Term
	idxs []*Term
	fks  []*Term
}

type cCall struct {
	stmt *Term
	kind string
	call *Term
	args []*Term
	rcvs []*Term
}

type cAction struct {
	t     *Term
	name  *Term
	ins   []*Term
	stmts []*cCall
}

type clean struct {
	w    *world
	s    *Term
	sh   shape
	exts []*Term
	tabs []*cTable
	acts []*cAction
}

var colTypes = []string{"int", "text", "blob", "null"}

// attributes a column of each type may carry
var fitting = map[string][]string{
	"int":  {"primary_key", "not_null", "unique", "default", "min", "max"},
	"text": {"primary_key", "not_null", "unique", "default", "min_length", "max_length"},
	"blob": {"primary_key", "not_null", "unique", "default", "min", "max", "min_length", "max_length"},
	"null": {"primary_key", "not_null", "unique", "default", "min", "max", "min_length", "max_length"},
}

func newClean(p *Program, name string, sh shape) *clean {
	w := newWorld(p, name)
	w.clean = true
	w.dflt = ListCfg{Exact: 0}
	c := &clean{w: w, s: w.root(), sh: sh}
	xl := w.f(c.s, "Extensions")
	w.exact(xl, sh.ext)
	for i := 0; i < sh.ext; i++ {
		e := w.at(xl, i)
		c.exts = append(c.exts, e)
		if (i+sh.at)%2 == 1 {
			w.set(w.f(e, "Alias"), strV(""))
		}
		w.exact(w.f(e, "Config"), i%2)
	}
	tl := w.f(c.s, "Tables")
	w.exact(tl, sh.tab)
	for i := 0; i < sh.tab; i++ {
		t := w.at(tl, i)
		ct := &cTable{t: t, name: w.f(t, "Name")}
		cl := w.f(t, "Columns")
		w.exact(cl, sh.col)
		for j := 0; j < sh.col; j++ {
			col := w.at(cl, j)
			ct.cols = append(ct.cols, w.f(col, "Name"))
			tt := w.f(col, "Type")
			ty := colTypes[(i+j+sh.at)%len(colTypes)]
			if tt != nil {
				w.set(tt, strConst(tt.T, ty))
			}
			at := w.f(col, "Attributes")
			as := fitting[ty]
			n := (j + sh.at) % (len(as) + 1)
			w.exact(at, n)
			for k := 0; k < n; k++ {
				a := w.f(w.at(at, k), "Type")
				if a != nil {
					w.set(a, strConst(a.T, as[(k+i)%len(as)]))
				}
			}
		}
		c.tabs = append(c.tabs, ct)
	}
	for i, ct := range c.tabs {
		il := w.f(ct.t, "Indexes")
		w.exact(il, sh.idx)
		for j := 0; j < sh.idx; j++ {
			x := w.at(il, j)
			ct.idxs = append(ct.idxs, x)
			l := w.f(x, "Columns")
			n := sh.idxCol
			if len(ct.cols) == 0 {
				n = 0
			}
			w.exact(l, n)
			for k := 0; k < n; k++ {
				w.same(ct.cols[(j+k+sh.at)%len(ct.cols)], w.at(l, k))
			}
		}
		fl := w.f(ct.t, "ForeignKeys")
		n := sh.fk
		if sh.col == 0 {
			n = 0
		}
		w.exact(fl, n)
		for j := 0; j < n; j++ {
			fk := w.at(fl, j)
			ct.fks = append(ct.fks, fk)
			p := c.tabs[(i+j+sh.at)%sh.tab]
			w.same(p.name, w.f(fk, "ParentTable"))
			ck, pk := w.f(fk, "ChildKeys"), w.f(fk, "ParentKeys")
			w.exact(ck, 2)
			w.exact(pk, 2)
			for k := 0; k < 2; k++ {
				w.same(ct.cols[(j+k)%sh.col], w.at(ck, k))
				w.same(p.cols[(j+k+1)%sh.col], w.at(pk, k))
			}
			al := w.f(fk, "Actions")
			na := (j + sh.at) % 3
			w.exact(al, na)
			for k := 0; k < na; k++ {
				a := w.at(al, k)
				if on := w.f(a, "On"); on != nil {
					w.set(on, strConst(on.T, []string{"UPDATE", "DELETE"}[(k+i)%2]))
				}
				if do := w.f(a, "Do"); do != nil {
					w.set(do, strConst(do.T, []string{"NO ACTION", "RESTRICT", "SET NULL", "SET DEFAULT", "CASCADE"}[(i+j+k)%5]))
				}
			}
		}
	}
	al := w.f(c.s, "Actions")
	w.exact(al, sh.act)
	for i := 0; i < sh.act; i++ {
		a := w.at(al, i)
		ca := &cAction{t: a, name: w.f(a, "Name")}
		il := w.f(a, "Inputs")
		w.exact(il, sh.in)
		for j := 0; j < sh.in; j++ {
			x := w.at(il, j)
			if x != nil {
				w.first[x.key] = "$"
			}
			ca.ins = append(ca.ins, x)
		}
		c.acts = append(c.acts, ca)
	}
	for i, ca := range c.acts {
		sl := w.f(ca.t, "Statements")
		w.exact(sl, sh.stm)
		var scope []*Term
		scope = append(scope, ca.ins...)
		for j := 0; j < sh.stm; j++ {
			st := w.at(sl, j)
			k := stmtKinds[(i+j+sh.at)%3]
			if k == "ExtensionCallStmt" && len(c.exts) == 0 {
				k = "DMLStmt"
			}
			w.kind(st, k)
			cc := &cCall{stmt: st, kind: k}
			ca.stmts = append(ca.stmts, cc)
			if k == "DMLStmt" {
				w.failing(st, "ParseSql", false)
				w.failing(st, "ToSQL", false)
				continue
			}
			cc.call = w.as(w.parsed(st), kwAct, k)
			args := w.f(cc.call, "Args")
			w.exact(args, sh.arg)
			for n := 0; n < sh.arg; n++ {
				x := w.at(args, n)
				cc.args = append(cc.args, x)
				c.okArg(x, scope, n+j+sh.at, 2)
			}
			if k == "ActionCallStmt" {
				w.same(c.acts[(i+j)%sh.act].name, w.f(cc.call, "Method"))
				continue
			}
			w.same(c.effName((i+j)%len(c.exts)), w.f(cc.call, "Extension"))
			rl := w.f(cc.call, "Receivers")
			w.exact(rl, sh.rcv)
			for n := 0; n < sh.rcv; n++ {
				r := w.at(rl, n)
				if r != nil {
					w.first[r.key] = "$"
				}
				cc.rcvs = append(cc.rcvs, r)
				scope = append(scope, r)
			}
		}
	}
	return c
}

// effName is what extension i goes by.
func (c *clean) effName(i int) *Term {
	e := c.exts[i]
	al := c.w.f(e, "Alias")
	if al == nil {
		return nil
	}
	if _, none := c.w.alias[al.key]; none {
		return c.w.f(e, "Name")
	}
	return al
}

// okArg makes x an argument that only mentions names of the scope.
func (c *clean) okArg(x *Term, scope []*Term, n, depth int) {
	w := c.w
	kinds := []string{"ExpressionBindParameter", "ExpressionLiteral", "@", "ExpressionArithmetic", "ExpressionUnary", "ExpressionFunction", "ExpressionBinaryComparison"}
	k := kinds[n%len(kinds)]
	if depth == 0 && n%len(kinds) > 2 {
		k = kinds[n%3]
	}
	switch k {
	case "@":
		c.param(x, strV("@caller"))
	case "ExpressionBindParameter":
		if len(scope) == 0 {
			c.expr(x, "ExpressionLiteral")
			return
		}
		c.param(x, scope[n%len(scope)])
	default:
		c.expr(x, k)
		for i, y := range c.subs(x, k) {
			c.okArg(y, scope, n+i+1, depth-1)
		}
	}
	_ = w
}

// expr fixes the kind of expression x.
func (c *clean) expr(x *Term, kind string) {
	w := c.w
	if x == nil {
		return
	}
	op := w.isTypeOp(kwTree, kind)
	w.rule(func(in *Interp, st *State, t *Term) Tri {
		if len(t.A) == 1 && key(t.A[0]) == x.key && strings.HasPrefix(t.Op, "istype:") {
			return triOf(t.Op == op)
		}
		return Maybe
	})
}

// param makes x a reference to the variable v.
func (c *clean) param(x *Term, v Val) {
	c.expr(x, "ExpressionBindParameter")
	w := c.w
	w.set(w.f(w.as(x, kwTree, "ExpressionBindParameter"), "Parameter"), v)
}

// subs are the operands of expression x of the given kind.
func (c *clean) subs(x *Term, kind string) []*Term {
	w := c.w
	y := w.as(x, kwTree, kind)
	switch kind {
	case "ExpressionUnary":
		return []*Term{w.f(y, "Operand")}
	case "ExpressionArithmetic", "ExpressionBinaryComparison":
		return []*Term{w.f(y, "Left"), w.f(y, "Right")}
	case "ExpressionFunction":
		l := w.f(y, "Inputs")
		w.exact(l, 2)
		// the elements are expressions
		return []*Term{w.at(l, 0), w.at(l, 1)}
	}
	return nil
}

// other is a name that denotes nothing in the schema.
func (c *clean) other(first string) *Term {
	t := rawTerm("othername", types.Typ[types.String], strV(first))
	if first != "" {
		c.w.first[t.key] = first
	}
	return t
}

// isName: t is a name of the schema as it stands.
func isName(v Val) bool {
	switch v := v.(type) {
	case *Const:
		return true
	case *Term:
		if v.Op == "othername" {
			return true
		}
		if v.Op == "elem" || strings.HasPrefix(v.Op, ".") {
			return true
		}
	}
	return false
}

var shapes = []shape{
	{},
	{tab: 1, col: 1, idx: 1, idxCol: 1, fk: 1, act: 1, in: 1, stm: 1, arg: 1, ext: 1, rcv: 1},
	{tab: 2, col: 2, idx: 1, idxCol: 2, fk: 1, act: 2, in: 2, stm: 2, arg: 2, ext: 2, rcv: 2, at: 1},
	{tab: 2, col: 3, idx: 2, idxCol: 2, fk: 2, act: 2, in: 0, stm: 3, arg: 3, ext: 2, rcv: 1, at: 2},
	{tab: 3, col: 3, idx: 2, idxCol: 3, fk: 3, act: 3, in: 2, stm: 3, arg: 4, ext: 3, rcv: 2, at: 3},
	{tab: 1, col: 0, idx: 0, act: 1, in: 3, stm: 0, at: 4},
	{tab: 2, col: 2, fk: 2, act: 0, ext: 2, at: 5},
	{act: 3, in: 1, stm: 3, arg: 7, ext: 1, rcv: 0, at: 6},
	{act: 2, in: 2, stm: 3, arg: 7, ext: 1, rcv: 3, at: 7},
	{tab: 3, col: 4, idx: 3, idxCol: 1, fk: 2, at: 8},
	{tab: 2, col: 4, idx: 1, idxCol: 2, fk: 3, at: 11},
	{tab: 1, col: 4, idx: 0, at: 6},
}

func (c *vctx) clean(what string, i int, prep func(k *clean)) *clean {
	k := newClean(c.p, fmt.Sprintf("%s, shape %d", what, i), shapes[i])
	if prep != nil {
		prep(k)
	}
	return k
}

// ---- C10 ----

// collisions make names of different scopes equal.
var collisions = []struct {
	what string
	f    func(k *clean)
}{
	{"all names differ", nil},
	{"a table named like its first column, columns of all tables alike", func(k *clean) {
		for i, t := range k.tabs {
			if i > 0 {
				for j := range t.cols {
					k.w.same(k.tabs[0].cols[j], t.cols[j])
				}
			}
		}
		if len(k.tabs) > 0 && len(k.tabs[0].cols) > 0 {
			k.w.same(k.tabs[0].cols[0], k.tabs[0].name)
		}
	}},
	{"actions named like tables, indexes of all tables alike", func(k *clean) {
		for i, a := range k.acts {
			if i < len(k.tabs) {
				k.w.same(k.tabs[i].name, a.name)
			}
		}
		for i, t := range k.tabs {
			if i > 0 {
				for j := range t.idxs {
					k.w.same(k.w.f(k.tabs[0].idxs[j], "Name"), k.w.f(t.idxs[j], "Name"))
				}
			}
		}
	}},
	{"parameters of all actions alike, extensions named like actions", func(k *clean) {
		for i, a := range k.acts {
			if i > 0 {
				for j := range a.ins {
					k.w.same(k.acts[0].ins[j], a.ins[j])
				}
			}
		}
		for i := range k.exts {
			if i < len(k.acts) {
				k.w.same(k.acts[i].name, k.effName(i))
			}
		}
	}},
	{"results named like parameters and earlier results", func(k *clean) {
		for _, a := range k.acts {
			var prev []*Term
			prev = append(prev, a.ins...)
			for _, s := range a.stmts {
				for j, r := range s.rcvs {
					if j < len(prev) {
						k.w.same(prev[j], r)
					}
				}
				prev = append(prev, s.rcvs...)
			}
		}
	}},
	{"extensions of one original name under different aliases", func(k *clean) {
		for i := range k.exts {
			if i > 0 && k.effName(i).Op == ".Alias" {
				k.w.same(k.w.f(k.exts[0], "Name"), k.w.f(k.exts[i], "Name"))
			}
		}
	}},
}

// scopes lists the names of each kind that have a scope of their own.
var scopes = []struct {
	what string
	f    func(k *clean) [][]*Term
}{
	{"the database", func(k *clean) [][]*Term { return [][]*Term{{k.w.f(k.s, "Name")}} }},
	{"extensions", func(k *clean) [][]*Term {
		var r []*Term
		for i := range k.exts {
			r = append(r, k.effName(i))
		}
		return [][]*Term{r}
	}},
	{"original names of extensions", func(k *clean) [][]*Term {
		var r []*Term
		for i := range k.exts {
			if n := k.effName((i + 1) % len(k.exts)); n != nil && n.Op == ".Alias" {
				r = append(r, k.w.f(k.exts[(i+1)%len(k.exts)], "Name"))
			}
		}
		return [][]*Term{r}
	}},
	{"tables", func(k *clean) [][]*Term {
		var r []*Term
		for _, t := range k.tabs {
			r = append(r, t.name)
		}
		return [][]*Term{r}
	}},
	{"columns", func(k *clean) (r [][]*Term) {
		for _, t := range k.tabs {
			r = append(r, t.cols)
		}
		return
	}},
	{"indexes", func(k *clean) (r [][]*Term) {
		for _, t := range k.tabs {
			var l []*Term
			for _, x := range t.idxs {
				l = append(l, k.w.f(x, "Name"))
			}
			r = append(r, l)
		}
		return
	}},
	{"actions", func(k *clean) [][]*Term {
		var r []*Term
		for _, a := range k.acts {
			r = append(r, a.name)
		}
		return [][]*Term{r}
	}},
}

// sameNames lets the names of two kinds coincide one by one.
func sameNames(k *clean, x, y int) {
	a, b := scopes[x].f(k), scopes[y].f(k)
	for i := 0; i < len(a) || i < len(b); i++ {
		if len(a) == 0 || len(b) == 0 {
			return
		}
		l, r := a[i%len(a)], b[i%len(b)]
		for j := 0; j < len(l) && j < len(r); j++ {
			k.w.same(l[j], r[j])
		}
	}
}

func checkC10v(c *vctx) {
	c.rep.rule("for schemas of fixed shapes (0 to 4 declarations of each kind) with symbolic, pairwise different names per scope in which every reference resolves, every path of the validator ends without an error")
	n := 0
	for i := range shapes {
		for _, col := range collisions {
			k := c.clean("valid schema, "+col.what, i, col.f)
			c.mustAccept(k)
		}
		for x := range scopes {
			for y := x + 1; y < len(scopes); y++ {
				x, y := x, y
				c.mustAccept(c.clean("valid schema, "+scopes[y].what+" named like "+scopes[x].what, i, func(k *clean) { sameNames(k, x, y) }))
				n++
			}
		}
	}
	c.flush()
	c.rep.minimum("accept_scenarios", n+len(shapes)*len(collisions))
}

func (c *vctx) mustAccept(k *clean) {
	c.job(func() {
		outs, in := k.w.runValidator(c.base)
		c.rep.absorb(k.w.name, in, outs)
		c.rep.add("accept_scenarios", 1)
		if len(outs) == 0 {
			c.rep.undecided("%s: no outcome", k.w.name)
		}
		n := 0
		for _, v := range verdicts(in, outs) {
			if v.nilErr && v.o.Kind == oRet {
				n++
				continue
			}
			what := "a valid schema is rejected on the path below"
			if v.err != nil {
				what += " (" + strings.Join(c.kinds(in, v), ",") + ")"
			}
			c.rep.viol("accept-valid", k.w.name+": "+c.anchor(in), what, v.o.St.trail.list(60))
		}
		c.rep.add("accepting_outcomes", n)
	})
}

// kinds lists the published error kinds an outcome's error is recognisable as.
func (c *vctx) kinds(in *Interp, v verdict) []string {
	m := map[string]bool{}
	ws := in.wraps(v.o.St, v.err)
	for _, pkg := range []string{"schema", "utils"} {
		for n, x := range sentinels(c.base, pkg) {
			for _, y := range ws {
				if key(y) == key(x) {
					m[n] = true
				}
			}
		}
	}
	return sortedKeys(m)
}
