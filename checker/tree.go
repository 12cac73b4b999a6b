package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The parse tree: nodes are symbolic, their possible children come from the
// published grammar. A query on a node is answered as the grammar promises
// (that the generated queries do so is decided separately).

const gramPkg = modPath + "/kfgrammar"
const antlrPkg = "github.com/antlr4-go/antlr/v4"

type treeModel struct {
	p     *Program
	g     *interpFile
	alt   map[string][]map[string]int
	rules map[string]bool
	w     *pworld
}

func newTree(p *Program, w *pworld) (*treeModel, error) {
	g, err := readInterp("KuneiformParser.interp")
	if err != nil {
		return nil, err
	}
	t := &treeModel{p: p, g: g, alt: map[string][]map[string]int{}, rules: map[string]bool{}, w: w}
	for i, r := range g.Rules {
		t.alt[r] = g.alts(i)
		t.rules[r] = true
	}
	return t, nil
}

func title(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

func (t *treeModel) ctxType(rule string) types.Type {
	n := t.p.typ("kfgrammar", title(rule)+"Context")
	if n == nil {
		return nil
	}
	return types.NewPointer(n)
}

// ruleOf is the grammar rule whose nodes have type tt.
func (t *treeModel) ruleOf(tt types.Type) string {
	p, ok := types.Unalias(tt).(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != gramPkg || !strings.HasSuffix(n.Obj().Name(), "Context") {
		return ""
	}
	nm := strings.TrimSuffix(n.Obj().Name(), "Context")
	nm = strings.ToLower(nm[:1]) + nm[1:]
	if t.rules[nm] {
		return nm
	}
	return ""
}

func (t *treeModel) root() *Term { return rawTerm("tree", t.ctxType("source_unit")) }

// kid is the only child of node n made by rule.
func (t *treeModel) kid(n *Term, rule string) *Term {
	return rawTerm("kid:"+rule, t.ctxType(rule), n)
}

// kids is the list of the children of node n made by rule.
func (t *treeModel) kids(n *Term, rule string) *Term {
	it := t.p.typ("kfgrammar", "I"+title(rule)+"Context")
	return rawTerm("kids:"+rule, types.NewSlice(it), n)
}

// nth is the node at focus k of list l.
func (t *treeModel) focus(l *Term, k int) *Term { return t.node(l, fidx(l, k)) }

func (t *treeModel) node(l *Term, idx Val) *Term {
	rule := strings.TrimPrefix(l.Op, "kids:")
	return rawTerm("node", t.ctxType(rule), l, idx)
}

func hasTerm(n *Term, sym string) *Term { return rawTerm("has:"+sym, types.Typ[types.Bool], n) }

// fit lists the alternatives of node n that agree with what is decided.
func (t *treeModel) fit(in *Interp, st *State, n *Term) []map[string]int {
	rule := t.ruleOf(n.T)
	var r []map[string]int
	pick := t.w.pick[rule]
	if t.w.has[n.key] != nil {
		pick = nil
	}
next:
	for _, v := range t.alt[rule] {
		for _, s := range pick {
			if v[s] == 0 {
				continue next
			}
		}
		for _, a := range st.atoms {
			if strings.HasPrefix(a.T.Op, "has:") && key(a.T.A[0]) == n.key {
				c := v[a.T.Op[4:]]
				if c < many && (c > 0) != a.V {
					continue next
				}
			}
		}
		for s, want := range t.w.has[n.key] {
			c := v[s]
			if c < many && (c > 0) != want {
				continue next
			}
		}
		r = append(r, v)
	}
	return r
}

// decideHas answers whether node n has a child sym, if that is settled.
func (t *treeModel) decideHas(in *Interp, st *State, tm *Term) Tri {
	n, ok := tm.A[0].(*Term)
	if !ok {
		return Maybe
	}
	sym := tm.Op[4:]
	if v, ok := t.w.has[n.key][sym]; ok {
		return triOf(v)
	}
	yes, no := false, false
	for _, v := range t.fit(in, st, n) {
		c := v[sym]
		if c >= many {
			return Maybe
		}
		if c > 0 {
			yes = true
		} else {
			no = true
		}
	}
	switch {
	case yes && no:
		return Maybe
	case yes:
		return Yes
	}
	return No
}

// listCfg is the shape of a list of children.
func (t *treeModel) listCfg(l *Term) (ListCfg, bool) {
	if !strings.HasPrefix(l.Op, "kids:") {
		return ListCfg{}, false
	}
	if c, ok := t.w.cfg[l.key]; ok {
		return c, true
	}
	n := l.A[0].(*Term)
	rule := t.ruleOf(n.T)
	lo, hi := t.g.counts(rule, l.Op[5:])
	if hi < many && lo == hi {
		return ListCfg{Exact: lo}, true
	}
	if k, ok := t.w.other[rule+"/"+l.Op[5:]]; ok {
		return ListCfg{Exact: k}, true
	}
	if k := t.w.around; k > 0 && rule != "source_unit" && hi >= many && !t.w.free[rule+"/"+l.Op[5:]] {
		if rule == "action_attr_list" {
			k = 1
		}
		if k < lo {
			k = lo
		}
		return ListCfg{Exact: k}, true
	}
	if !t.w.free[rule+"/"+l.Op[5:]] {
		return ListCfg{Exact: lo}, true
	}
	return ListCfg{Exact: -1, Min1: lo > 0}, true
}

// terminal node
func (t *treeModel) tokType() types.Type {
	n := t.p.extTyp(antlrPkg, "TerminalNodeImpl")
	return types.NewPointer(n)
}

var sigils = map[string]string{"INDEX_NAME": "#", "PARAM_OR_VAR": "$", "BLOCK_VAR_OR_ANNOTATION": "@"}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// tokText is the text of a token of kind sym found at n.
func (t *treeModel) tokText(sym string, n *Term) Val {
	if s, ok := t.g.lit(sym); ok {
		return strV(s)
	}
	if s, ok := sigils[sym]; ok {
		return catOf([]Val{strV(s), rawTerm("tail", strType, n)})
	}
	if sym == "STRING_LITERAL" {
		return catOf([]Val{strV("'"), rawTerm("body", strType, n), strV("'")})
	}
	return rawTerm("word", strType, n)
}

func (t *treeModel) symOf(in *Interp, st *State, n *Term) (string, bool) {
	// the only child of n, when it has just one
	rule := t.ruleOf(n.T)
	syms := map[string]bool{}
	for _, v := range t.alt[rule] {
		if len(v) != 1 {
			return "", false
		}
		for s, c := range v {
			if c != 1 {
				return "", false
			}
			syms[s] = true
		}
	}
	for _, s := range sortedKeys(syms) {
		if in.decide(st, hasTerm(n, s)) {
			return s, true
		}
	}
	panic(&infeasible{})
}

// text is the text of node n without white space and comments.
func (t *treeModel) text(in *Interp, st *State, n *Term) Val {
	if s, ok := t.symOf(in, st, n); ok {
		if t.rules[s] {
			return t.text(in, st, t.kid(n, s))
		}
		return t.tokText(s, n)
	}
	if sg := sigils[t.firstTok(t.ruleOf(n.T))]; sg != "" {
		return catOf([]Val{strV(sg), rawTerm("tail", strType, n)})
	}
	return rawTerm("text", strType, n)
}

// firstTok is the token every node of rule starts with, if it is always the
// same.
func (t *treeModel) firstTok(rule string) string {
	set := map[string]bool{}
	t.firsts(rule, set, map[string]bool{})
	if len(set) != 1 {
		return ""
	}
	return sortedKeys(set)[0]
}

func (t *treeModel) firsts(rule string, set, seen map[string]bool) {
	if seen[rule] {
		return
	}
	seen[rule] = true
	ri := t.g.ruleIndex(rule)
	vis := map[int]bool{}
	var walk func(s int)
	walk = func(s int) {
		if vis[s] {
			return
		}
		vis[s] = true
		if s == t.g.stop[ri] {
			set[""] = true
			return
		}
		for _, e := range t.g.out[s] {
			switch e.Type {
			case eRULE:
				t.firsts(t.g.Rules[e.A2], set, seen)
			case eATOM, eRANGE, eSET, eNSET, eWILD:
				for _, k := range t.g.edgeToks(e, len(t.g.Symbolic)-1) {
					set[t.g.sym(k)] = true
				}
			default:
				walk(e.Trg)
			}
		}
	}
	walk(t.g.atn.Rules[ri][0])
}

// nodeOf finds the tree node v denotes: the node itself or a pointer to a
// part of it.
func (t *treeModel) nodeOf(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		for x != nil {
			if t.ruleOf(x.T) != "" && isNodeOp(x) {
				return x
			}
			if len(x.A) == 0 {
				return nil
			}
			x, _ = x.A[0].(*Term)
		}
	case *Ptr:
		if x.O == 0 && len(x.Path) > 0 {
			return t.nodeOf(x.Path[0])
		}
	case *Iface:
		return t.nodeOf(x.V)
	}
	return nil
}

func isNodeOp(x *Term) bool {
	return x.Op == "tree" || x.Op == "node" || strings.HasPrefix(x.Op, "kid:")
}

func (t *treeModel) iface(n *Term) Val { return &Iface{n.T, n} }

// resolve turns elements of child lists into nodes.
func (t *treeModel) resolve(tm *Term) Val {
	if tm.Op == "elem" {
		if l, ok := tm.A[0].(*Term); ok && strings.HasPrefix(l.Op, "kids:") {
			return t.iface(rawTerm("node", t.ctxType(l.Op[5:]), l, tm.A[1]))
		}
	}
	return nil
}

// call answers the queries of the generated code and of the ANTLR runtime.
func (t *treeModel) call(in *Interp, st *State, fn *ssa.Function, args []Val) ([]Outcome, bool) {
	if len(args) == 0 || fn.Signature.Recv() == nil && fn.Synthetic == "" {
		return nil, false
	}
	if tok, ok := args[0].(*Term); ok && strings.HasPrefix(tok.Op, "tok:") {
		if fn.Name() == "GetText" {
			n, _ := tok.A[0].(*Term)
			return retv(st, t.tokText(tok.Op[4:], n)), true
		}
		if fn.Name() == "GetSymbol" {
			return nil, false
		}
	}
	n := t.nodeOf(args[0])
	if n == nil {
		return nil, false
	}
	rule := t.ruleOf(n.T)
	if fn.Name() == "Accept" {
		return nil, false
	}
	p := fnPkgPath(fn)
	if p != gramPkg && p != antlrPkg && fn.Synthetic == "" {
		return nil, false
	}
	switch fn.Name() {
	case "GetText":
		return retv(st, t.text(in, st, n)), true
	case "GetParser":
		return retv(st, &Iface{types.NewPointer(t.p.typ("kfgrammar", "KuneiformParser")), t.w.parserTerm()}), true
	case "GetStart", "GetStop":
		return t.w.boundary(in, st, n, fn.Name()), true
	}
	name := fn.Name()
	all := strings.HasPrefix(name, "All")
	if all {
		name = name[3:]
	}
	low := strings.ToLower(name[:1]) + name[1:]
	res := fn.Signature.Results()
	switch {
	case t.rules[low] && title(low) == name && res.Len() == 1:
		if t.w.onKid != nil {
			if o := t.w.onKid(in, st, n, low); o != nil {
				return o, true
			}
		}
		if all {
			return retv(st, t.kids(n, low)), true
		}
		if len(args) == 2 {
			l := t.kids(n, low)
			ln := in.lenOf(st, l)
			if !in.compare(st, token.LSS, args[1], ln) {
				return retv(st, nilV(res.At(0).Type())), true
			}
			if c, ok := constInt(args[1]); ok && c < 0 {
				return retv(st, nilV(res.At(0).Type())), true
			}
			return retv(st, in.elemTerm(st, l, args[1])), true
		}
		if !in.decide(st, hasTerm(n, low)) {
			return retv(st, nilV(res.At(0).Type())), true
		}
		return retv(st, t.iface(t.kid(n, low))), true
	case !all && len(args) == 1 && isTok(t.g, name):
		if !in.decide(st, hasTerm(n, name)) {
			return retv(st, nilV(res.At(0).Type())), true
		}
		tt := t.tokType()
		return retv(st, &Iface{tt, rawTerm("tok:"+name, tt, n)}), true
	}
	in.fail("tree query %s on %s is not modelled", fn.Name(), rule)
	return nil, false
}

func isTok(g *interpFile, name string) bool {
	for _, s := range g.Symbolic {
		if s == name && s != "null" {
			return true
		}
	}
	return false
}
