package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Worlds of the parse entry points: what the recogniser reports, what tree it
// yields, and how validation ends.

// ways a step can fail
const (
	okStep      = ""
	retError    = "returns an error"
	panicString = "panics with a string"
	panicError  = "panics with an error"
	panicOther  = "panics with another value"
	panicFault  = "hits a run-time fault"
)

var panicKinds = []string{panicString, panicError, panicOther, panicFault}

type pworld struct {
	way  string // how the parser is invoked
	p    *Program
	name string
	t    *treeModel
	err  error

	has    map[string]map[string]bool
	cfg    map[string]ListCfg
	grp    string // group of lists of any length; others are as short as possible
	free   map[string]bool
	pick   map[string][]string // what the nodes around are made of
	around int                 // length of the lists below the declarations around
	other  map[string]int      // exact lengths of lists around
	onKid  func(in *Interp, st *State, n *Term, rule string) []Outcome
	rules  []func(in *Interp, st *State, t *Term) Tri
	same   map[string]Val

	lexErr, parErr int    // errors the recogniser reports
	recog          string // how recognition ends
	conv           string // how conversion ends
	valid          string // how validation ends
	realValidator  bool
	mode           int
	listener       string // "default", "own"
	direct         bool   // call Parse

	toks    *Term        // tokens of the only statement
	edge    map[bool]Val // index of its first and last token
	spelt   []Val
	bounded bool   // the statement has six tokens
	steps   int    // limit of the exploration (0: the usual one)
	prints  bool   // record whether something is printed
	lead    string // first character of the tokens around
	onOut   func(in *Interp, o Outcome) bool
	sc      *Scenario
}

func newPWorld(p *Program, name string) *pworld {
	w := &pworld{p: p, name: name, has: map[string]map[string]bool{}, cfg: map[string]ListCfg{}, free: map[string]bool{}, other: map[string]int{}, same: map[string]Val{}, mode: 1, direct: true}
	t, err := newTree(p, w)
	if err != nil {
		w.err = err
	}
	w.t = t
	return w
}

func (w *pworld) fail(f string, a ...interface{}) {
	if w.err == nil {
		w.err = fmt.Errorf(f, a...)
	}
}

func (w *pworld) set(n *Term, sym string, v bool) {
	if w.has[n.key] == nil {
		w.has[n.key] = map[string]bool{}
	}
	w.has[n.key][sym] = v
}

// focus makes one child of n by rule the child under inspection.
func (w *pworld) focus(n *Term, rule string, k int) *Term {
	l := w.t.kids(n, rule)
	lo, hi := w.t.g.counts(w.t.ruleOf(n.T), rule)
	if hi < many {
		_ = lo
		w.fail("%s has no list of %s", n.key, rule)
	}
	w.cfg[l.key] = ListCfg{Focus: k, Segs: 7, Exact: -1}
	return w.t.focus(l, 1)
}

func (w *pworld) exact(n *Term, rule string, k int) *Term {
	l := w.t.kids(n, rule)
	w.cfg[l.key] = ListCfg{Exact: k}
	return l
}

// any lets the list have any length.
func (w *pworld) any(n *Term, rule string) *Term {
	l := w.t.kids(n, rule)
	lo, _ := w.t.g.counts(w.t.ruleOf(n.T), rule)
	w.cfg[l.key] = ListCfg{Exact: -1, Min1: lo > 0}
	return l
}

func (w *pworld) parserTerm() Val {
	return rawTerm("parser", types.NewPointer(w.p.typ("kfgrammar", "KuneiformParser")), rawTerm("stream", nil))
}

func rootOf(v Val, ops ...string) *Term {
	switch x := v.(type) {
	case *Term:
		for x != nil {
			for _, o := range ops {
				if x.Op == o {
					return x
				}
			}
			if len(x.A) == 0 {
				return nil
			}
			switch y := x.A[0].(type) {
			case *Term:
				x = y
			case *Iface:
				x, _ = y.V.(*Term)
			default:
				return nil
			}
		}
	case *Ptr:
		if x.O == 0 && len(x.Path) > 0 {
			return rootOf(x.Path[0], ops...)
		}
	case *Iface:
		return rootOf(x.V, ops...)
	}
	return nil
}

// stepEnd ends a step of the world in the given way.
func (w *pworld) stepEnd(in *Interp, st *State, kind, what string) []Outcome {
	switch kind {
	case panicString:
		in.push(st, what+" "+kind)
		st.event(rawTerm("failed", nil))
		return []Outcome{{oPanic, &Iface{types.Typ[types.String], rawTerm("panictext", strType)}, st}}
	case panicError:
		in.push(st, what+" "+kind)
		st.event(rawTerm("failed", nil))
		return []Outcome{{oPanic, panicErr, st}}
	case panicOther:
		in.push(st, what+" "+kind)
		st.event(rawTerm("failed", nil))
		return []Outcome{{oPanic, &Iface{types.Typ[types.Int], intV(17)}, st}}
	case panicFault:
		in.push(st, what+" "+kind)
		st.event(rawTerm("failed", nil))
		return []Outcome{{oPanic, rawTerm("rtpanic", errType, strV("fault in "+what)), st}}
	}
	return nil
}

var panicErr = rawTerm("errnew", errType, strV("error that was the panic value"))

// event records what happened on the path.
func (st *State) event(t *Term) { st.events = append(st.events[:len(st.events):len(st.events)], t) }

func (st *State) happened(op string) *Term {
	for _, e := range st.events {
		if t, ok := e.(*Term); ok && t.Op == op {
			return t
		}
	}
	return nil
}

var validErr = rawTerm("errnew", errType, strV("validation error"))

func (w *pworld) scenario() *Scenario {
	if w.sc != nil {
		return w.sc
	}
	sc := &Scenario{name: w.name, inline: true}
	w.sc = sc
	if w.prints {
		sc.onPrint = func(in *Interp, st *State, fn *ssa.Function, a []Val) {
			if st.happened("printed") == nil {
				st.event(rawTerm("printed", nil))
			}
		}
	}
	sc.resolveF = func(in *Interp, st *State, t *Term) Val {
		if v, ok := w.same[t.key]; ok {
			return v
		}
		if v := w.t.resolve(t); v != nil {
			return v
		}
		return nil
	}
	sc.cfgF = func(in *Interp, st *State, l *Term) (ListCfg, bool) {
		if c, ok := w.cfg[l.key]; ok {
			return c, true
		}
		if l.Op == "toks" {
			return ListCfg{Focus: 1, Segs: 7, Exact: -1}, true
		}
		return w.t.listCfg(l)
	}
	sc.decideF = func(in *Interp, st *State, t *Term) Tri {
		for _, r := range w.rules {
			if x := r(in, st, t); x != Maybe {
				return x
			}
		}
		if strings.HasPrefix(t.Op, "has:") {
			return w.t.decideHas(in, st, t)
		}
		if t.Op == "eq" && len(t.A) == 2 {
			for i := 0; i < 2; i++ {
				if s, ok := constStr(t.A[i]); ok && s == "" {
					if x, ok := t.A[1-i].(*Term); ok && (x.Op == "word" || x.Op == "text") {
						return No // tokens are never empty
					}
				}
			}
		}
		if t.Op == "isnil" {
			if x, ok := t.A[0].(*Term); ok {
				switch {
				case isNodeOp(x), x.Op == "tokat", x.Op == "stok", x.Op == "lexer", x.Op == "parser", x.Op == "stream", x.Op == "tstream", x.Op == "panictext":
					return No
				case strings.HasPrefix(x.Op, "call:"+antlrPkg+".New"):
					return No
				case rootOf(x, "lexer", "parser") != nil:
					return No
				}
			}
		}
		return Maybe
	}
	if w.toks != nil {
		sc.absorb = func(s string) bool { return strings.Trim(s, " "+w.lead) == "" }
	}
	sc.trimmed = func(in *Interp, st *State, t *Term) bool {
		return t.Op == "word" || t.Op == "tail" || t.Op == "text"
	}
	sc.strFirst = func(in *Interp, st *State, t *Term) (string, bool) {
		switch t.Op {
		case "word":
			return w.wordFirst(t), true
		case "tail":
			if n, ok := t.A[0].(*Term); ok && isNodeOp(n) {
				return letters, true
			}
		}
		return "", false
	}
	sc.fn = func(in *Interp, st *State, fn *ssa.Function, name string, args []Val) ([]Outcome, bool) {
		return w.call(in, st, fn, name, args)
	}
	return sc
}

// wordFirst: the characters a token spelled by the source may start with
// ("" if any).
func (w *pworld) wordFirst(t *Term) string {
	n, ok := t.A[0].(*Term)
	if !ok || !isNodeOp(n) {
		return ""
	}
	switch w.t.firstTok(w.t.ruleOf(n.T)) {
	case "IDENTIFIER":
		return letters
	case "UNSIGNED_NUMBER_LITERAL":
		return "0123456789"
	}
	return ""
}

func (w *pworld) call(in *Interp, st *State, fn *ssa.Function, name string, args []Val) ([]Outcome, bool) {
	switch name {
	case gramPkg + ".NewKuneiformLexer":
		return retv(st, rawTerm("lexer", fn.Signature.Results().At(0).Type(), args[0])), true
	case gramPkg + ".NewKuneiformParser":
		return retv(st, rawTerm("parser", fn.Signature.Results().At(0).Type(), args[0])), true
	case antlrPkg + ".NewCommonTokenStream":
		if rootOf(args[0], "lexer") == nil {
			in.fail("token stream made from %s", key(args[0]))
		}
		return retv(st, rawTerm("tstream", fn.Signature.Results().At(0).Type(), args...)), true
	}
	if len(args) > 0 && fn.Signature.Recv() != nil || fn.Synthetic != "" && len(args) > 0 {
		if r := rootOf(args[0], "lexer", "parser"); r != nil {
			return w.recogCall(in, st, fn, r, args)
		}
	}
	if fn.Name() == "VisitSchema" && fn.Signature.Recv() != nil && len(args) == 2 && !w.realValidator {
		if it := w.p.typ("schema", "Validator"); it != nil && types.Implements(fn.Signature.Recv().Type(), under(it).(*types.Interface)) {
			return w.validate(in, st, args), true
		}
	}
	if len(args) > 0 && (fn.Signature.Recv() != nil || fn.Synthetic != "") && rootOf(args[0], "tstream", "stok", "tokat") != nil {
		return w.tokenCall(in, st, fn, args)
	}
	return w.t.call(in, st, fn, args)
}

func (w *pworld) recogCall(in *Interp, st *State, fn *ssa.Function, r *Term, args []Val) ([]Outcome, bool) {
	switch fn.Name() {
	case "RemoveErrorListeners":
		st.event(rawTerm("remove", nil, r))
		return retv(st, &Tuple{}), true
	case "AddErrorListener":
		st.event(rawTerm("add", nil, r, args[1]))
		return retv(st, &Tuple{}), true
	case "Source_unit":
		if r.Op == "parser" {
			return w.recognise(in, st, r), true
		}
	case "GetTokenStream", "GetInputStream":
		if fn.Name() == "GetTokenStream" && rootOf(r, "tstream") == nil && r.Op == "parser" {
			tt := types.NewPointer(w.p.extTyp(antlrPkg, "CommonTokenStream"))
			return retv(st, &Iface{tt, rawTerm("tstream", tt)}), true
		}
		if ts := rootOf(r, "tstream"); ts != nil && r.Op == "parser" && fn.Name() == "GetTokenStream" {
			return retv(st, &Iface{ts.T, ts}), true
		}
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Pkg == nil {
		return nil, false // a wrapper: run it
	}
	in.fail("%s on the %s is not modelled", fn.Name(), r.Op)
	return nil, false
}

var keepsText = map[string]bool{"call:" + antlrPkg + ".NewInputStream": true, "call:" + antlrPkg + ".NewIoStream": true, "call:strings.NewReader": true}

// textRead tells what text the character stream delivers.
func textRead(v Val) string {
	for {
		switch x := v.(type) {
		case *Iface:
			v = x.V
			continue
		case *Term:
			switch {
			case x.Op == "in":
				return "in"
			case len(x.A) > 0 && keepsText[strings.TrimSuffix(x.Op, ".0")]:
				v = x.A[0]
				continue
			}
		case *Tuple:
			if len(x.V) > 0 {
				v = x.V[0]
				continue
			}
		}
		return key(v)
	}
}

// listeners replays the registrations for the recogniser r.
func (w *pworld) listeners(st *State, r *Term) []Val {
	var ls []Val
	for _, e := range st.events {
		t, ok := e.(*Term)
		if !ok || len(t.A) == 0 || key(t.A[0]) != r.key {
			continue
		}
		switch t.Op {
		case "remove":
			ls = nil
		case "add":
			ls = append(ls, t.A[1])
		}
	}
	return ls
}

func (w *pworld) recognise(in *Interp, st *State, p *Term) []Outcome {
	type pend struct {
		st   *State
		left []report
	}
	var todo []report
	lx := rootOf(p, "lexer")
	if lx == nil {
		in.fail("the recogniser does not read from the tokenizer")
	}
	if fresh := rootOf(lx, "in"); fresh == nil {
		in.fail("the tokenizer does not read the given text: %s", lx.key)
	}
	if x := textRead(lx.A[0]); x != "in" {
		st.event(rawTerm("front", nil, strV("the text read is not the given one: "+x)))
	}
	if ts := rootOf(p, "tstream"); ts == nil || len(ts.A) != 2 || key(ts.A[1]) != "0" {
		st.event(rawTerm("front", nil, strV("the recogniser does not read the default channel of the tokenizer")))
	}
	for i := 0; i < w.lexErr; i++ {
		for _, l := range w.listeners(st, lx) {
			todo = append(todo, report{lx, l, i, "tokenizer"})
		}
	}
	for i := 0; i < w.parErr; i++ {
		for _, l := range w.listeners(st, p) {
			todo = append(todo, report{p, l, i, "grammar"})
		}
	}
	cur := []*State{st}
	var outs []Outcome
	for _, r := range todo {
		var next []*State
		for _, s := range cur {
			in.push(s, fmt.Sprintf("the %s reports error #%d", r.what, r.n+1))
			for _, o := range in.tryCall(s, func(s *State) []Outcome { return w.report(in, s, r) }) {
				if o.Kind == oRet {
					next = append(next, o.St)
				} else {
					outs = append(outs, o)
				}
			}
		}
		cur = next
	}
	for _, s := range cur {
		if w.recog != "" {
			outs = append(outs, in.tryCall(s, func(s *State) []Outcome { return w.stepEnd(in, s, w.recog, "recognition") })...)
			continue
		}
		root := w.t.root()
		outs = append(outs, Outcome{oRet, &Iface{root.T, root}, s})
	}
	return outs
}

type report struct {
	rec  *Term
	l    Val
	n    int
	what string
}

func (w *pworld) report(in *Interp, st *State, r report) []Outcome {
	i, ok := r.l.(*Iface)
	if !ok {
		in.fail("error listener %s", key(r.l))
	}
	fn := lookupMethod(w.p, i.T, "SyntaxError")
	if fn == nil {
		in.fail("no SyntaxError on %s", tkey(i.T))
	}
	ps := fn.Signature.Params()
	args := []Val{i.V}
	for k := 0; k < ps.Len(); k++ {
		t := ps.At(k).Type()
		a := Val(rawTerm(fmt.Sprintf("rep:%s:%d:%d", r.what, r.n, k), t))
		if k == 0 {
			a = &Iface{r.rec.T, r.rec}
		}
		args = append(args, a)
	}
	return in.callFunc(st, fn, args, nil, 0)
}

// validate records what is validated and ends as the world says.
func (w *pworld) validate(in *Interp, st *State, args []Val) []Outcome {
	st.event(rawTerm("validated", nil, args...))
	if s := w.sharedObj(in, st, args[0]); s != "" {
		st.event(rawTerm("sharedctx", nil, strV(s)))
	}
	set := reachable(st, args[1])
	old := st.onWrite
	st.onWrite = func(s *State, id int) {
		if set[id] {
			if s.happened("changed") == nil {
				s.event(rawTerm("changed", nil))
			}
		}
		if old != nil {
			old(s, id)
		}
	}
	switch w.valid {
	case "":
		return retv(st, nilV(errType))
	case retError:
		return retv(st, validErr)
	}
	return w.stepEnd(in, st, w.valid, "validation")
}

// reachable lists the heap objects v refers to.
func reachable(st *State, vs ...Val) map[int]bool {
	seen := map[int]bool{}
	var visit func(id int)
	visit = func(id int) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		switch o := st.heap[id].(type) {
		case *Cell:
			objsOf(o.V, visit)
		case *ListObj:
			objsOf(o.Len, visit)
			for _, s := range o.At {
				objsOf(s.V, visit)
			}
			objsOf(o.Rest, visit)
		case *MapObj:
			for _, e := range o.E {
				objsOf(e.K, visit)
				objsOf(e.V, visit)
			}
			for _, x := range o.Others {
				objsOf(x, visit)
			}
		}
	}
	for _, v := range vs {
		objsOf(v, visit)
	}
	return seen
}

// sharedObj names a part of v that existed before this parse.
func (w *pworld) sharedObj(in *Interp, st *State, v Val) string {
	for id := range reachable(st, v) {
		if id <= in.baseMax {
			return fmt.Sprintf("object %d existed before the parse", id)
		}
	}
	if rootOf(v, "in") != nil {
		return "not made by the parse"
	}
	return ""
}

// run parses with the world's settings.
func (w *pworld) run(base *Interp) ([]Outcome, *Interp) {
	in := base.fresh(w.scenario())
	if w.steps > 0 {
		in.maxSteps = w.steps
	}
	st := in.start()
	if w.err != nil {
		in.undecide("%s: %v", w.name, w.err)
		return nil, in
	}
	input := rawTerm("in", strType)
	nm := "ParseKF"
	if w.direct {
		nm = "Parse"
	}
	fn := w.p.fn("kfparser", nm)
	if fn == nil {
		in.undecide("kfparser.%s not found", nm)
		return nil, in
	}
	args := []Val{input}
	starts := []*State{st}
	if !w.direct {
		ps := fn.Signature.Params()
		if ps.Len() != 3 {
			in.undecide("kfparser.ParseKF takes %d arguments", ps.Len())
			return nil, in
		}
		lv := nilV(ps.At(1).Type())
		if w.listener == "own" {
			nl := w.p.fn("utils", "NewErrorListener")
			if nl == nil {
				in.undecide("utils.NewErrorListener not found")
				return nil, in
			}
			os := in.run(st, nl, nil, nil)
			if len(os) != 1 || os[0].Kind != oRet {
				in.undecide("utils.NewErrorListener has %d outcomes", len(os))
				return nil, in
			}
			lv, starts = os[0].V, []*State{os[0].St}
		}
		args = append(args, lv, &Const{constant.MakeInt64(int64(w.mode)), ps.At(2).Type()})
	}
	for _, s := range starts {
		s.onWrite = func(s *State, id int) {
			if id <= in.baseMax && s.happened("global") == nil {
				s.event(rawTerm("global", nil, strV(in.P.pos(in.curPos))))
			}
		}
	}
	in.onOut = func(o Outcome) bool { return w.onOut != nil && w.onOut(in, o) }
	var res []Outcome
	for _, s := range starts {
		res = append(res, in.run(s, fn, args, nil)...)
	}
	if os.Getenv("KF_DEBUG") != "" {
		for _, o := range res {
			if os.Getenv("KF_OUT") != "" {
				fmt.Println("OUT", w.name, o.Kind, key(o.V))
			}
		}
	}
	return res, in
}

// modeConst is the value of a mode constant of the parser package.
func modeConst(p *Program, name string) (int, bool) {
	sp := p.pkg("kfparser")
	if sp == nil {
		return 0, false
	}
	c, ok := sp.Members[name].(*ssa.NamedConst)
	if !ok {
		return 0, false
	}
	i, ok := constant.Int64Val(c.Value.Value)
	return int(i), ok
}

type parseWay struct {
	name     string
	direct   bool
	listener string
	mode     int
	trace    bool
}

// ways lists the ways parsing can be invoked.
func ways(c *vctx) []parseWay {
	d, ok1 := modeConst(c.p, "Default")
	t, ok2 := modeConst(c.p, "Trace")
	if !ok1 || !ok2 {
		c.rep.undecided("kfparser.Default or kfparser.Trace not found")
	}
	r := []parseWay{{"Parse", true, "default", d, false}}
	for _, l := range []string{"default", "own"} {
		for _, m := range []struct {
			n string
			v int
			t bool
		}{{"Default", d, false}, {"Trace", t, true}, {"Default|Trace", d | t, true}, {"0", 0, false}} {
			r = append(r, parseWay{fmt.Sprintf("ParseKF(%s listener, mode %s)", l, m.n), false, l, m.v, m.t})
		}
	}
	return r
}

// ---- tokens of statements ----

// Statements are made of one token each, except in worlds about token
// sequences (w.toks), whose only statement is made of the tokens of a list.

func (w *pworld) tokenType() types.Type {
	tt := w.p.extTyp(antlrPkg, "CommonToken")
	if tt == nil {
		return nil
	}
	return types.NewPointer(tt)
}

func (w *pworld) token(op string, a ...Val) Val {
	pt := w.tokenType()
	return &Iface{pt, rawTerm(op, pt, a...)}
}

// boundary is the first or last token of node n.
func (w *pworld) boundary(in *Interp, st *State, n *Term, what string) []Outcome {
	if w.t.ruleOf(n.T) != "action_stmt" {
		in.fail("%s of %s is not modelled", what, w.t.ruleOf(n.T))
	}
	if w.toks == nil {
		return retv(st, w.token("stok", n))
	}
	return retv(st, w.token("tokat", w.edge[what == "GetStop"]))
}

// stmtToks is the list of all tokens, seen from statement n: its own token
// is the focus.
func (w *pworld) stmtToks(n *Term) *Term {
	return rawTerm("toks", types.NewSlice(w.tokenType()), n)
}

// stmtAt finds the statement whose token stands at idx.
func (w *pworld) stmtAt(in *Interp, st *State, idx Val) *Term {
	i, ok := idx.(*Int)
	if !ok {
		return nil
	}
	of := func(l *Term) *Term {
		if l != nil && l.Op == "toks" && in.regionMask(st, idx, l) == 1<<rW1 {
			n, _ := l.A[0].(*Term)
			return n
		}
		return nil
	}
	if i.B != nil && i.B.Op == "focus" {
		l, _ := i.B.A[0].(*Term)
		return of(l)
	}
	for _, k := range sortedKeys(st.regs) {
		f := st.regs[k]
		if fi, ok := f.I.(*Int); ok && sameBase(fi, i) {
			if n := of(f.L); n != nil {
				return n
			}
		}
	}
	return nil
}

// tokenCall answers calls on tokens and token streams.
func (w *pworld) tokenCall(in *Interp, st *State, fn *ssa.Function, args []Val) ([]Outcome, bool) {
	if len(args) == 0 {
		return nil, false
	}
	if ts := rootOf(args[0], "tstream", "stok", "tokat"); ts != nil {
		if fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Pkg == nil {
			return nil, false // a wrapper: run it
		}
		switch ts.Op + "." + fn.Name() {
		case "tstream.Get":
			if w.toks != nil {
				in.bounds(st, args[1], in.lenOf(st, w.toks))
				return retv(st, w.tokElem(in, st, args[1])), true
			}
			if n := w.stmtAt(in, st, args[1]); n != nil {
				return retv(st, w.token("stok", n)), true
			}
		case "stok.GetTokenIndex":
			return retv(st, fidx(w.stmtToks(ts.A[0].(*Term)), 1)), true
		case "stok.GetChannel":
			return retv(st, intV(0)), true
		case "stok.GetText":
			return retv(st, rawTerm("word", strType, ts.A[0])), true
		case "tokat.GetTokenIndex":
			return retv(st, ts.A[0]), true
		case "tokat.GetChannel":
			return retv(st, w.tokChannel(in, st, ts.A[0])), true
		case "tokat.GetText":
			return retv(st, w.tokAt(in, st, ts.A[0])), true
		}
		in.fail("%s on the token stream is not modelled (%s)", fn.Name(), key(args[len(args)-1]))
	}
	return nil, false
}

// treeGroups are the groups of lists given any length around the part of
// the tree a world is about.
var treeGroups = []struct {
	name  string
	lists []string
}{
	{"extensions", []string{"source_unit/extension_directive", "ext_config_list/ext_config"}},
	{"columns", []string{"source_unit/table_decl", "column_def_list/column_def", "column_def/column_constraint"}},
	{"indexes", []string{"source_unit/table_decl", "table_decl/index_def", "column_name_list/column_name"}},
	{"foreign keys", []string{"source_unit/table_decl", "table_decl/foreign_key_def", "foreign_key_def/foreign_key_action", "column_name_list/column_name"}},
	{"actions", []string{"source_unit/action_decl", "action_decl/annotation_decl", "param_list/parameter"}},
	{"modifiers", []string{"source_unit/action_decl", "action_attr_list/action_visibility", "action_attr_list/action_mutability", "action_attr_list/action_auxiliary"}},
	{"statements", []string{"source_unit/action_decl", "source_unit/init_decl", "action_stmt_list/action_stmt"}},
	{"declarations", []string{"source_unit/extension_directive", "source_unit/table_decl", "source_unit/action_decl", "source_unit/init_decl"}},
}

func (w *pworld) group(name string) {
	w.grp = name
	for _, g := range treeGroups {
		if g.name == name {
			for _, l := range g.lists {
				w.free[l] = true
			}
		}
	}
}

// tokenWorld: the only statement is made of tokens around two neighbours
// spelled sp.a and sp.b; between them stands nothing but hidden tokens.
func (w *pworld) tokenWorld(sp spacing, single, outside bool) {
	root := w.t.root()
	w.exact(root, "action_decl", 1)
	act := w.t.node(w.t.kids(root, "action_decl"), intV(0))
	sl := w.t.kid(act, "action_stmt_list")
	w.exact(sl, "action_stmt", 1)
	tok := w.p.extTyp(antlrPkg, "Token")
	if tok == nil {
		w.fail("antlr.Token not found")
		return
	}
	l := rawTerm("toks", types.NewSlice(tok), root)
	w.toks = l
	f := 2
	if single {
		f = 1
	}
	w.cfg[l.key] = ListCfg{Focus: f, Segs: 7, Exact: -1}
	if w.bounded {
		w.cfg[l.key] = ListCfg{Exact: 6}
	}
	w.edge = map[bool]Val{false: intV(0), true: &Int{B: lenTerm(l), Off: -1}}
	if outside {
		w.edge = map[bool]Val{false: fidx(l, 1), true: fidx(l, f)}
	}
	spell := func(k int, s string) Val {
		if len(s) == 1 {
			return strV(s)
		}
		return catOf([]Val{strV(s[:1]), rawTerm("tail", strType, fidx(l, k)), strV(s[len(s)-1:])})
	}
	w.spelt = []Val{spell(1, sp.a), spell(2, sp.b)}
}

func (w *pworld) tokElem(in *Interp, st *State, idx Val) Val {
	if _, ok := idx.(*Top); ok {
		in.fail("token at an unknown position")
	}
	return w.token("tokat", w.tokPos(in, st, idx))
}

// tokPos names the focus tokens by their focus index.
func (w *pworld) tokPos(in *Interp, st *State, idx Val) Val {
	if w.bounded {
		return idx
	}
	switch in.region(st, idx, w.toks) {
	case rW1:
		return fidx(w.toks, 1)
	case rW2:
		return fidx(w.toks, 2)
	}
	return idx
}

func (w *pworld) tokChannel(in *Interp, st *State, idx Val) Val {
	if w.bounded {
		// visible, maybe hidden, first, hidden, second, visible
		e, ok := in.exactOf(st, idx)
		if !ok {
			in.fail("token at an unknown position")
		}
		if e == 3 || e == 1 && !in.decide(st, rawTerm("visible", types.Typ[types.Bool], intV(1))) {
			return intV(1)
		}
		return intV(0)
	}
	switch in.region(st, idx, w.toks) {
	case rW1, rW2:
		return intV(0)
	case rS1:
		return intV(1)
	}
	if in.decide(st, rawTerm("visible", types.Typ[types.Bool], idx)) {
		return intV(0)
	}
	return intV(1)
}

func (w *pworld) tokAt(in *Interp, st *State, idx Val) Val {
	if e, ok := in.exactOf(st, idx); ok && w.bounded {
		switch e {
		case 2:
			return w.spelt[0]
		case 4:
			return w.spelt[1]
		}
		return catOf([]Val{strV(w.lead), rawTerm("word", strType, rawTerm("tokat", nil, intV(e)))})
	}
	switch in.region(st, idx, w.toks) {
	case rW1:
		return w.spelt[0]
	case rW2:
		return w.spelt[1]
	}
	t := rawTerm("word", strType, rawTerm("tokat", nil, idx))
	if w.lead != "" {
		return catOf([]Val{strV(w.lead), t})
	}
	return t
}
