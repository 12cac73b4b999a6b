package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The recogniser against the published automaton: each generated rule
// function is walked together with the automaton of its rule, over every
// lookahead token and every predicted alternative.

const (
	tEnd  = -2 // the rule ends
	tNone = -9 // lookahead not looked at
)

type firsts struct {
	f      *interpFile
	null   []bool
	first  []map[int]bool // of rules
	follow []map[int]bool
}

func moves(e atnEdge) bool {
	return e.Type >= eRANGE && e.Type != ePRED && e.Type != eACT && e.Type != ePREC
}

// closure lists the states reached without consuming anything.
func (f *interpFile) closure(s int) map[int]bool {
	seen := map[int]bool{s: true}
	for q := []int{s}; len(q) > 0; {
		x := q[0]
		q = q[1:]
		for _, e := range f.out[x] {
			if !moves(e) && !seen[e.Trg] {
				seen[e.Trg] = true
				q = append(q, e.Trg)
			}
		}
	}
	return seen
}

func newFirsts(f *interpFile) *firsts {
	n := len(f.atn.Rules)
	fs := &firsts{f: f, null: make([]bool, n), first: make([]map[int]bool, n), follow: make([]map[int]bool, n)}
	for i := range fs.first {
		fs.first[i], fs.follow[i] = map[int]bool{}, map[int]bool{}
	}
	for again := true; again; {
		again = false
		for r := range fs.first {
			x := fs.of(f.atn.Rules[r][0])
			if x[tEnd] && !fs.null[r] {
				fs.null[r], again = true, true
			}
			for t := range x {
				if t != tEnd && !fs.first[r][t] {
					fs.first[r][t], again = true, true
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, e := range f.Edges {
			if e.Type != eRULE {
				continue
			}
			for t := range fs.of(e.Trg) {
				if t == tEnd {
					for u := range fs.follow[f.States[e.Src].Rule] {
						if !fs.follow[e.A2][u] {
							fs.follow[e.A2][u], again = true, true
						}
					}
				} else if !fs.follow[e.A2][t] {
					fs.follow[e.A2][t], again = true, true
				}
			}
		}
	}
	return fs
}

// via is what can come first when edge e is taken.
func (fs *firsts) via(e atnEdge) map[int]bool {
	r := map[int]bool{}
	if e.Type != eRULE {
		for _, t := range fs.f.edgeToks(e, fs.f.Max) {
			r[t] = true
		}
		return r
	}
	for t := range fs.first[e.A2] {
		r[t] = true
	}
	if fs.null[e.A2] {
		for t := range fs.of(e.Trg) {
			r[t] = true
		}
	}
	return r
}

// of is what can come first from a state.
func (fs *firsts) of(s int) map[int]bool {
	r := map[int]bool{}
	for x := range fs.f.closure(s) {
		if fs.f.States[x].Type == 7 {
			r[tEnd] = true
		}
		for _, e := range fs.f.out[x] {
			if moves(e) {
				for t := range fs.via(e) {
					r[t] = true
				}
			}
		}
	}
	return r
}

// withFollow adds what can come after the rule.
func (fs *firsts) withFollow(s int) map[int]bool {
	r := fs.of(s)
	if r[tEnd] {
		for t := range fs.follow[fs.f.States[s].Rule] {
			r[t] = true
		}
	}
	return r
}

type rwalk struct {
	c     *vctx
	fs    *firsts
	f     *interpFile
	fn    *ssa.Function
	rule  int
	rules map[*ssa.Function]int
	wraps map[*ssa.Function]*ssa.Function
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	seen  map[string]bool
	said  map[string]bool
	what  string
}

type rstate struct {
	b        *ssa.BasicBlock
	i        int
	env      map[ssa.Value]int
	cur      int // state of the automaton
	base     int // where it was after the last token
	la       int // next token, if looked at
	err      bool
	reported bool
	entered  bool
	left     bool
	stack    []rframe // calls of helpers under way
}

type rframe struct {
	call *ssa.Call
	i    int
	env  map[ssa.Value]int
}

func (s *rstate) clone() *rstate {
	n := *s
	n.env = map[ssa.Value]int{}
	for k, v := range s.env {
		n.env[k] = v
	}
	return &n
}

func (w *rwalk) tok(t int) string {
	switch t {
	case -1:
		return "EOF"
	case tEnd:
		return "the end of the rule"
	}
	return w.f.sym(t)
}

func (w *rwalk) bad(at ssa.Instruction, f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if w.said[s] {
		return
	}
	w.said[s] = true
	w.c.rep.viol("recogniser-is-the-grammar", shortFn(w.fn.String())+" "+w.c.p.pos(at.Pos()), s, nil)
}

// liveIn computes the values needed from the start of each block on.
func liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	r := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		r[b] = map[ssa.Value]bool{}
	}
	for again := true; again; {
		again = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range r[s] {
					l[v] = true
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(l, ph)
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b {
							l[ph.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					delete(l, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					l[ins.(ssa.Value)] = true
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						l[*op] = true
					}
				}
			}
			if len(l) != len(r[b]) {
				r[b], again = l, true
			}
		}
	}
	return r
}

func (s *rstate) get(v ssa.Value) (int, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return 0, false
		}
		if x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return 1, true
			}
			return 0, true
		}
		if x.Value.Kind() == constant.Int {
			if i, ok := constant.Int64Val(x.Value); ok {
				return int(i), true
			}
			if u, ok := constant.Uint64Val(x.Value); ok {
				return int(u), true
			}
		}
		return 0, false
	}
	i, ok := s.env[v]
	return i, ok
}

func (w *rwalk) run() {
	w.seen, w.said = map[string]bool{}, map[string]bool{}
	w.live = liveIn(w.fn)
	start := w.f.atn.Rules[w.rule][0]
	q := []*rstate{{b: w.fn.Blocks[0], env: map[ssa.Value]int{}, cur: start, base: start, la: tNone}}
	steps := 0
	for len(q) > 0 {
		s := q[len(q)-1]
		q = q[:len(q)-1]
		if steps++; steps > 400000 {
			w.c.rep.undecided("%s: too many states", w.fn)
			return
		}
		q = append(q, w.step(s)...)
	}
	w.c.rep.add("recogniser_states", len(w.seen))
}

func (w *rwalk) goTo(s *rstate, from, to *ssa.BasicBlock) []*rstate {
	n := s.clone()
	n.b, n.i = to, 0
	vals := map[ssa.Value]int{}
	var gone []ssa.Value
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		n.i++
		for k, p := range to.Preds {
			if p == from {
				if v, ok := s.get(ph.Edges[k]); ok {
					vals[ph] = v
				} else {
					gone = append(gone, ph)
				}
			}
		}
	}
	for _, g := range gone {
		delete(n.env, g)
	}
	for k, v := range vals {
		n.env[k] = v
	}
	for v := range n.env {
		if !w.live[to][v] {
			delete(n.env, v)
		}
	}
	var ks []string
	for v, x := range n.env {
		ks = append(ks, fmt.Sprintf("%s=%d", v.Name(), x))
	}
	sort.Strings(ks)
	for _, f := range n.stack {
		ks = append(ks, fmt.Sprintf("%p", f.call))
		var l []string
		for v, x := range f.env {
			l = append(l, fmt.Sprintf("%s=%d", v.Name(), x))
		}
		sort.Strings(l)
		ks = append(ks, l...)
	}
	key := to.Parent().String() + fmt.Sprintf("%d|%d|%d|%d|%v%v%v%v|%s", to.Index, n.cur, n.base, n.la, n.err, n.reported, n.entered, n.left, strings.Join(ks, ","))
	if w.seen[key] {
		return nil
	}
	w.seen[key] = true
	return []*rstate{n}
}

// refused: an error is raised although the input could go on.
func (w *rwalk) refused(at ssa.Instruction, s *rstate) {
	ok := w.fs.withFollow(s.base)
	for _, t := range sortedInts(ok) {
		if t != tEnd && (s.la == tNone || s.la == t) {
			w.bad(at, "%s is refused although the grammar allows it here (after state %d of rule %s)", w.tok(t), s.base, w.f.atn0(w.rule))
			return
		}
	}
	if ok[tEnd] && s.la == tNone {
		w.bad(at, "the rule is refused although it could end here")
	}
}

func (f *interpFile) atn0(r int) string { return f.interpRules()[r] }

func (f *interpFile) interpRules() []string { return f.Rules }

func sortedInts(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// within: every way the input can go on is still open after taking one way.
func (w *rwalk) within(at ssa.Instruction, s *rstate, via map[int]bool, what string) {
	all := w.fs.withFollow(s.base)
	follow := map[int]bool{}
	if via[tEnd] {
		follow = w.fs.follow[w.rule]
	}
	for _, t := range sortedInts(all) {
		if s.la != tNone && t != s.la {
			continue
		}
		if !via[t] && !follow[t] {
			w.bad(at, "%s cannot come here, where %s is required (after state %d of rule %s)", w.tok(t), what, s.base, w.f.Rules[w.rule])
			return
		}
	}
}

func (w *rwalk) match(at ssa.Instruction, s *rstate, t int) (next []*rstate) {
	w.c.rep.add("tokens_matched", 1)
	fail := func(x *rstate) {
		x.err, x.reported = true, false
	}
	via := map[int]bool{t: true}
	w.within(at, s, via, w.tok(t))
	trg := map[int]bool{}
	for x := range w.f.closure(s.cur) {
		for _, e := range w.f.out[x] {
			if moves(e) && e.Type != eRULE {
				for _, y := range w.f.edgeToks(e, w.f.Max) {
					if y == t {
						trg[e.Trg] = true
					}
				}
			}
		}
	}
	if len(trg) == 0 {
		w.bad(at, "token %s is accepted although the grammar does not allow it here (state %d of rule %s)", w.tok(t), s.cur, w.f.Rules[w.rule])
	}
	if s.la == tNone || s.la == t {
		for _, x := range sortedInts(trg) {
			n := s.clone()
			n.cur, n.base, n.la = x, x, tNone
			next = append(next, n)
		}
	}
	if s.la != t {
		n := s.clone()
		fail(n)
		next = append(next, n)
	}
	return
}

func (w *rwalk) setState(at ssa.Instruction, s *rstate, n int) {
	if s.err {
		return
	}
	if !w.f.closure(s.cur)[n] {
		w.bad(at, "state %d does not follow state %d in the automaton of rule %s", n, s.cur, w.f.Rules[w.rule])
		if n < 0 || n >= len(w.f.States) || w.f.States[n].Rule != w.rule {
			return
		}
	}
	s.cur = n
}

// helper returns the function of the repository a call is of, other than the
// functions of rules.
func (w *rwalk) helper(t *ssa.Call) *ssa.Function {
	f := t.Common().StaticCallee()
	if f == nil || len(f.Blocks) == 0 || f.Synthetic != "" || !isRepoPkg(fnPkgPath(f)) {
		return nil
	}
	if _, ok := w.rules[f]; ok || w.wraps[f] != nil {
		return nil
	}
	n := f.Name()
	if strings.HasPrefix(n, "New") && strings.HasSuffix(n, "Context") {
		return nil
	}
	return f
}

// step runs until the next branch.
func (w *rwalk) step(s *rstate) []*rstate {
	for ; ; s.i++ {
		ins := s.b.Instrs[s.i]
		switch t := ins.(type) {
		case *ssa.Jump:
			return w.goTo(s, s.b, s.b.Succs[0])
		case *ssa.If:
			v, ok := s.get(t.Cond)
			var r []*rstate
			if !ok || v != 0 {
				r = append(r, w.goTo(s, s.b, s.b.Succs[0])...)
			}
			if !ok || v == 0 {
				r = append(r, w.goTo(s, s.b, s.b.Succs[1])...)
			}
			return r
		case *ssa.Return:
			if k := len(s.stack) - 1; k >= 0 {
				f := s.stack[k]
				env := map[ssa.Value]int{}
				for v, x := range f.env {
					env[v] = x
				}
				delete(env, f.call)
				if len(t.Results) == 1 {
					if x, ok := s.get(t.Results[0]); ok {
						env[f.call] = x
					}
				}
				s.b, s.i, s.env, s.stack = f.call.Block(), f.i, env, s.stack[:k:k]
				continue
			}
			w.end(t, s)
			return nil
		case *ssa.Panic:
			w.bad(t, "the rule can panic")
			return nil
		case *ssa.BinOp:
			x, ok1 := s.get(t.X)
			y, ok2 := s.get(t.Y)
			if ok1 && ok2 {
				if v, ok := arith(t.Op, x, y, t.X.Type()); ok {
					s.env[t] = v
					continue
				}
			}
			delete(s.env, t)
		case *ssa.UnOp:
			if x, ok := s.get(t.X); ok && t.Op == token.NOT {
				s.env[t] = 1 - x
			} else if ok && t.Op == token.SUB {
				s.env[t] = -x
			} else if g, ok := t.X.(*ssa.Global); ok && t.Op == token.MUL && g.String() == antlrPkg+".ATNInvalidAltNumber" {
				s.env[t] = 0 // never assigned
			} else {
				delete(s.env, t)
			}
		case *ssa.Convert:
			if x, ok := s.get(t.X); ok {
				s.env[t] = x
			} else {
				delete(s.env, t)
			}
		case *ssa.ChangeType:
			if x, ok := s.get(t.X); ok {
				s.env[t] = x
			} else {
				delete(s.env, t)
			}
		case *ssa.Call:
			if f := w.helper(t); f != nil {
				if len(s.stack) > 4 {
					w.c.rep.undecided("%s: helpers nested too deep", shortFn(w.fn.String()))
					return nil
				}
				fr := rframe{t, s.i, s.env}
				env := map[ssa.Value]int{}
				for k, a := range t.Common().Args {
					if x, ok := s.get(a); ok {
						env[f.Params[k]] = x
					}
				}
				if w.live[f.Blocks[0]] == nil {
					for b, l := range liveIn(f) {
						w.live[b] = l
					}
				}
				n := s.clone()
				n.env = env
				n.stack = append(append([]rframe{}, s.stack...), fr)
				n.b, n.i = f.Blocks[0], -1
				s = n
				continue
			}
			next, again := w.call(t, s)
			if again {
				continue
			}
			for _, n := range next {
				n.i = s.i + 1
			}
			return next
		case *ssa.Defer, *ssa.Go:
			w.bad(ins, "a deferred call or goroutine in a rule")
			return nil
		}
	}
}

func arith(op token.Token, x, y int, t types.Type) (int, bool) {
	b := func(v bool) (int, bool) {
		if v {
			return 1, true
		}
		return 0, true
	}
	if bt, ok := under(t).(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		t = bt
	}
	switch op {
	case token.EQL:
		return b(x == y)
	case token.NEQ:
		return b(x != y)
	case token.LSS:
		return b(x < y)
	case token.LEQ:
		return b(x <= y)
	case token.GTR:
		return b(x > y)
	case token.GEQ:
		return b(x >= y)
	case token.ADD:
		return x + y, true
	case token.SUB:
		return x - y, true
	case token.AND:
		return x & y, true
	case token.OR:
		return x | y, true
	case token.XOR:
		return x ^ y, true
	case token.AND_NOT:
		return x &^ y, true
	case token.SHL:
		if y < 0 || y > 63 {
			return 0, y > 63
		}
		return x << uint(y), true
	case token.SHR:
		if y < 0 || y > 63 {
			return 0, false
		}
		return x >> uint(y), true
	}
	return 0, false
}

func (w *rwalk) end(at ssa.Instruction, s *rstate) {
	w.c.rep.add("rule_endings", 1)
	if !s.entered || !s.left {
		w.bad(at, "the rule is not entered and left")
	}
	if r := at.(*ssa.Return).Results; len(r) != 1 || !w.ownNode(r[0], map[ssa.Value]bool{}) {
		w.bad(at, "what is returned is not the node made")
	}
	if s.err {
		if !s.reported {
			w.bad(at, "a recognition error is not reported")
		}
		return
	}
	if !w.f.closure(s.cur)[w.f.stop[w.rule]] {
		w.bad(at, "the rule can end in state %d, before what the grammar requires next", s.cur)
		return
	}
	w.within(at, s, map[int]bool{tEnd: true}, "the end of the rule")
}

func leaf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		default:
			return v
		}
	}
}

// ownNode tells whether the value is the node the rule made.
func (w *rwalk) ownNode(v ssa.Value, seen map[ssa.Value]bool) bool {
	v = leaf(v)
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !w.ownNode(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := x.Common().StaticCallee()
		return f != nil && f.Name() == "New"+title(w.f.Rules[w.rule])+"Context"
	}
	return false
}

func (w *rwalk) call(t *ssa.Call, s *rstate) (next []*rstate, again bool) {
	cc := t.Common()
	arg := func(i int) (int, bool) {
		if i >= len(cc.Args) {
			return 0, false
		}
		return s.get(cc.Args[i])
	}
	delete(s.env, t)
	if cc.IsInvoke() {
		switch cc.Method.Name() {
		case "LA":
			if k, ok := arg(0); !ok || k != 1 {
				w.bad(t, "looks further ahead than one token")
				return nil, false
			}
			if s.err {
				return nil, true
			}
			if s.la != tNone {
				s.env[t] = s.la
				return nil, true
			}
			for _, tk := range w.tokens() {
				n := s.clone()
				n.la = tk
				n.env[t] = tk
				next = append(next, n)
			}
			return next, false
		case "Sync":
			if s.err {
				return nil, true
			}
			here := w.fs.withFollow(s.cur)
			for _, x := range sortedInts(w.fs.withFollow(s.base)) {
				if (s.la == tNone || s.la == x) && !here[x] {
					w.bad(t, "%s is refused by the synchronisation in state %d although the grammar allows it", w.tok(x), s.cur)
					break
				}
			}
			return nil, true
		case "ReportError":
			s.reported = true
			return nil, true
		case "RecoverInline":
			w.refused(t, s)
			n := s.clone()
			n.err, n.reported = true, false
			return []*rstate{n}, false
		}
		return nil, true
	}
	f := cc.StaticCallee()
	if f == nil {
		return nil, true
	}
	r, ok := w.rules[f]
	prec := 0
	if f2 := w.wraps[f]; f2 != nil {
		r, ok = w.rules[f2]
	} else if ok && w.f.recursive(r) {
		if prec, ok = arg(1); !ok {
			w.bad(t, "rule %s is used with an unknown precedence", w.f.Rules[r])
			return nil, false
		}
	}
	if ok {
		if s.err {
			return nil, true
		}
		w.c.rep.add("rule_calls", 1)
		for x := range w.f.closure(s.cur) {
			for _, e := range w.f.out[x] {
				if e.Type == eRULE && e.A2 == r {
					if e.A3 != prec {
						w.bad(t, "rule %s is used with precedence %d, the grammar has %d", w.f.Rules[r], prec, e.A3)
					}
					w.within(t, s, w.fs.via(e), "rule "+w.f.Rules[r])
					n := s.clone()
					n.cur, n.base, n.la = e.Trg, e.Trg, tNone
					next = append(next, n)
				}
			}
		}
		if len(next) == 0 {
			w.bad(t, "rule %s is used where the grammar does not have it (state %d of rule %s)", w.f.Rules[r], s.cur, w.f.Rules[w.rule])
		}
		return next, false
	}
	n := f.Name()
	if isRepoPkg(fnPkgPath(f)) && n != "HasError" && f.Synthetic == "" {
		if strings.HasPrefix(n, "New") && strings.HasSuffix(n, "Context") {
			if n != "New"+title(w.f.Rules[w.rule])+"Context" {
				w.bad(t, "the node made for rule %s comes from %s", w.f.Rules[w.rule], n)
			} else if p, ok := leaf(cc.Args[1]).(*ssa.Call); !ok || p.Common().StaticCallee() == nil || p.Common().StaticCallee().Name() != "GetParserRuleContext" || p.Block() != w.fn.Blocks[0] {
				w.bad(t, "the node made is not put under the one being recognised")
			}
			return nil, true
		}
		w.c.rep.undecided("%s calls %s, which cannot be followed", shortFn(w.fn.String()), shortFn(f.String()))
		return nil, false
	}
	switch n {
	case "SetState":
		if k, ok := arg(1); ok {
			w.setState(t, s, k)
		} else {
			w.bad(t, "an unknown state is set")
		}
	case "EnterRule", "EnterRecursionRule":
		st, ok1 := arg(2)
		ru, ok2 := arg(3)
		if !ok1 || !ok2 || st != w.f.atn.Rules[w.rule][0] || ru != w.rule {
			w.bad(t, "the rule is entered as state %d, rule %d instead of %d, %d", st, ru, w.f.atn.Rules[w.rule][0], w.rule)
		}
		if s.entered || (n == "EnterRecursionRule") != w.f.recursive(w.rule) {
			w.bad(t, "the rule is entered the wrong way")
		}
		if n == "EnterRecursionRule" && cc.Args[4] != ssa.Value(w.fn.Params[1]) {
			w.bad(t, "the rule is entered with another precedence than it is called with")
		}
		s.entered = true
	case "PushNewRecursionContext":
		st, ok1 := arg(2)
		ru, ok2 := arg(3)
		if !ok1 || !ok2 || st != w.f.atn.Rules[w.rule][0] || ru != w.rule {
			w.bad(t, "the recursion is entered as state %d, rule %d instead of %d, %d", st, ru, w.f.atn.Rules[w.rule][0], w.rule)
		}
	case "ExitRule", "UnrollRecursionContexts":
		if s.left || (n != "ExitRule") != w.f.recursive(w.rule) {
			w.bad(t, "the rule is left the wrong way")
		}
		s.left = true
	case "Precpred":
		k, ok := arg(2)
		trg := -1
		for x := range w.f.closure(s.cur) {
			for _, e := range w.f.out[x] {
				if e.Type == ePREC && ok && e.A1 == k {
					trg = e.Trg
				}
			}
		}
		if trg < 0 && !s.err {
			w.bad(t, "the precedence asked for is not the one of the grammar (state %d of rule %s)", s.cur, w.f.Rules[w.rule])
			return nil, false
		}
		// the prediction has asked already
		s.env[t] = 1
		if !s.err {
			s.cur = trg
		}
	case "Match":
		k, ok := arg(1)
		if !ok {
			w.bad(t, "an unknown token is matched")
			return nil, false
		}
		if s.err {
			return nil, true
		}
		return w.match(t, s, k), false
	case "Consume":
		if s.err {
			return nil, true
		}
		if s.la == tNone {
			w.bad(t, "a token is taken without looking at it")
			return nil, false
		}
		return w.match(t, s, s.la), false
	case "MatchWildcard":
		w.bad(t, "any token is accepted")
	case "AdaptivePredict":
		if s.err {
			return nil, true
		}
		k, ok := arg(3)
		if !ok || k < 0 || k >= len(w.f.Decisions) {
			w.bad(t, "unknown decision")
			return nil, false
		}
		d := w.f.Decisions[k]
		if !w.f.closure(s.cur)[d] {
			w.bad(t, "decision %d is not the one in state %d of rule %s", k, s.cur, w.f.Rules[w.rule])
			return nil, false
		}
		dall := w.fs.withFollow(d)
		for _, x := range sortedInts(w.fs.withFollow(s.base)) {
			if !dall[x] {
				w.bad(t, "%s cannot come here, where a decision is made that leaves it out", w.tok(x))
				break
			}
		}
		for a, e := range w.f.out[d] {
			n := s.clone()
			n.cur, n.base, n.la = e.Trg, e.Trg, tNone
			n.env[t] = a + 1
			next = append(next, n)
		}
		return next, false
	case "HasError":
		s.env[t] = 0
		if s.err {
			s.env[t] = 1
		}
	case "SetError":
		if c, ok := cc.Args[1].(*ssa.Const); ok && c.Value == nil {
			if s.err && !s.reported {
				w.bad(t, "a recognition error is dropped without a report")
			}
			if !s.err {
				return nil, true
			}
			// the caller sees no error; what remains is the end of the rule
			s.env[t] = 0
			return nil, true
		}
		w.refused(t, s)
		s.err, s.reported = true, false
	}
	return nil, true
}

// recursive tells whether the rule refers to itself at its left end.
func (f *interpFile) recursive(r int) bool {
	for s := range f.States {
		if f.States[s].Rule == r {
			for _, e := range f.out[s] {
				if e.Type == ePREC {
					return true
				}
			}
		}
	}
	return false
}

// starts: f is nothing but a call of g with precedence 0.
func starts(f, g *ssa.Function) bool {
	if len(f.Blocks) != 1 {
		return false
	}
	for _, ins := range f.Blocks[0].Instrs {
		switch t := ins.(type) {
		case *ssa.Call:
			a := t.Common().Args
			if t.Common().StaticCallee() != g || len(a) != 2 || a[0] != ssa.Value(f.Params[0]) {
				return false
			}
			if k, ok := a[1].(*ssa.Const); !ok || k.Int64() != 0 {
				return false
			}
		case *ssa.Return:
			return len(t.Results) == 1
		case *ssa.Store, *ssa.MapUpdate, *ssa.Panic:
			return false
		}
	}
	return false
}

// tokens lists every token the tokenizer can deliver.
func (w *rwalk) tokens() []int {
	r := []int{-1}
	for i := 1; i <= w.f.Max; i++ {
		r = append(r, i)
	}
	return r
}

// recogniser compares the generated recogniser with the published grammar.
func (c *vctx) recogniser() {
	pf, err := readInterp("KuneiformParser.interp")
	lf, err2 := readInterp("KuneiformLexer.interp")
	if err != nil || err2 != nil {
		c.rep.undecided("published grammar: %v %v", err, err2)
		return
	}
	c.tables("KuneiformParser", pf)
	c.tables("KuneiformLexer", lf)
	for i, s := range pf.Symbolic {
		if i >= len(lf.Symbolic) || lf.Symbolic[i] != s {
			c.rep.viol("recogniser-is-the-grammar", "kfgrammar/*.interp", fmt.Sprintf("token %d is %s to the recogniser only", i, s), nil)
		}
	}
	sp := c.p.pkg("kfgrammar")
	if sp == nil {
		c.rep.undecided("package kfgrammar not found")
		return
	}
	pt, _ := sp.Members["KuneiformParser"].(*ssa.Type)
	if pt == nil {
		c.rep.undecided("type KuneiformParser not found")
		return
	}
	rules := map[*ssa.Function]int{}
	wraps := map[*ssa.Function]*ssa.Function{}
	var fns []*ssa.Function
	for i, r := range pf.Rules {
		f := c.p.method(types.NewPointer(pt.Type()), strings.ToUpper(r[:1])+r[1:])
		if f == nil {
			c.rep.viol("recogniser-is-the-grammar", "kf/kfgrammar.KuneiformParser", "no function for rule "+r, nil)
			continue
		}
		if pf.recursive(i) {
			g := c.p.method(types.NewPointer(pt.Type()), r)
			if g == nil || !starts(f, g) {
				c.rep.viol("recogniser-is-the-grammar", shortFn(f.String()), "does not start rule "+r+" with precedence 0", nil)
				continue
			}
			wraps[f] = g
			c.rep.fns[shortFn(f.String())] = true
			f = g
		}
		rules[f] = i
		fns = append(fns, f)
	}
	fs := newFirsts(pf)
	for _, f := range fns {
		w := &rwalk{c: c, fs: fs, f: pf, fn: f, rule: rules[f], rules: rules, wraps: wraps}
		w.run()
		c.rep.add("rules_walked", 1)
		c.rep.fns[shortFn(f.String())] = true
	}
	for _, n := range []string{"KuneiformParser", "KuneiformLexer"} {
		c.wiring(sp, n)
	}
}

// tables compares the tables compiled into the code with the published ones.
func (c *vctx) tables(name string, f *interpFile) {
	pk := c.p.All[modPath+"/kfgrammar"]
	if pk == nil {
		return
	}
	const rule = "recogniser-is-the-grammar"
	strs := map[string][]string{}
	var nums []int
	got := false
	low := strings.ToLower(name)
	for _, file := range pk.Syntax {
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || !strings.HasPrefix(strings.ToLower(fd.Name.Name), low) || !strings.HasSuffix(fd.Name.Name, "Init") || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				as, ok := n.(*ast.AssignStmt)
				if !ok || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
					return true
				}
				sel, ok1 := as.Lhs[0].(*ast.SelectorExpr)
				cl, ok2 := as.Rhs[0].(*ast.CompositeLit)
				if !ok1 || !ok2 {
					return true
				}
				for _, e := range cl.Elts {
					v := pk.TypesInfo.Types[e].Value
					if v == nil {
						c.rep.undecided("%s: table %s has an element that is no constant", name, sel.Sel.Name)
						continue
					}
					if sel.Sel.Name == "serializedATN" {
						i, _ := constant.Int64Val(constant.ToInt(v))
						nums = append(nums, int(i))
						got = true
					} else if v.Kind() == constant.String {
						strs[sel.Sel.Name] = append(strs[sel.Sel.Name], constant.StringVal(v))
					}
				}
				return true
			})
		}
	}
	if !got {
		c.rep.undecided("%s: no table serializedATN found", name)
		return
	}
	where := "kf/kfgrammar." + name
	for i := 0; i < len(nums) || i < len(f.Numbers); i++ {
		if i >= len(nums) || i >= len(f.Numbers) || nums[i] != f.Numbers[i] {
			c.rep.viol(rule, where+" serializedATN", fmt.Sprintf("the automaton in the code differs from the published one at number %d of %d", i, len(f.Numbers)), nil)
			break
		}
	}
	c.rep.add("table_entries", len(nums))
	cmp := func(field string, want []string) {
		g := strs[field]
		if len(g) == 0 && len(want) == 0 {
			return
		}
		n := len(want)
		for n > 0 && (want[n-1] == "" || want[n-1] == "null") {
			n--
		}
		m := len(g)
		for m > 0 && g[m-1] == "" {
			m--
		}
		if m != n {
			c.rep.viol(rule, where+" "+field, fmt.Sprintf("%d entries instead of %d", m, n), nil)
			return
		}
		for i := 0; i < n; i++ {
			w := want[i]
			if w == "null" {
				w = ""
			}
			if g[i] != w {
				c.rep.viol(rule, where+" "+field, fmt.Sprintf("entry %d is %q instead of %q", i, g[i], w), nil)
				return
			}
		}
		c.rep.add("table_entries", n)
	}
	cmp("LiteralNames", f.Literal)
	cmp("SymbolicNames", f.Symbolic)
	cmp("RuleNames", f.Rules)
	if strings.HasSuffix(name, "Lexer") {
		cmp("ChannelNames", f.Channels)
		cmp("ModeNames", f.Modes)
	}
	sp := c.p.pkg("kfgrammar")
	con := func(n string, want int) {
		k, ok := sp.Members[n].(*ssa.NamedConst)
		if !ok {
			return
		}
		if i, ok := constant.Int64Val(k.Value.Value); !ok || int(i) != want {
			c.rep.viol(rule, "kf/kfgrammar."+n, fmt.Sprintf("the constant is %s instead of %d", k.Value.Value, want), nil)
		}
		c.rep.add("table_entries", 1)
	}
	for i, s := range f.Symbolic {
		if s != "" && s != "null" {
			con(name+s, i)
		}
	}
	con(name+"EOF", -1)
	if strings.HasSuffix(name, "Parser") {
		for i, r := range f.Rules {
			con(name+"RULE_"+r, i)
		}
	}
}

// wiring checks that the recogniser is built from its own tables.
func (c *vctx) wiring(sp *ssa.Package, name string) {
	const rule = "recogniser-is-the-grammar"
	kind := strings.TrimPrefix(name, "Kuneiform")
	var fns []*ssa.Function
	for n, m := range sp.Members {
		f, ok := m.(*ssa.Function)
		if ok && (n == "New"+name || strings.HasPrefix(strings.ToLower(n), strings.ToLower(name)) && strings.HasSuffix(n, "Init")) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	isField := func(v ssa.Value, want string) bool {
		l, ok := v.(*ssa.UnOp)
		if !ok || l.Op != token.MUL {
			return false
		}
		fa, ok := l.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		k := fieldKey(fa.X.Type(), fa.Field)
		return strings.HasSuffix(k, "."+want)
	}
	saw := map[string]int{}
	for _, f := range fns {
		c.rep.fns[shortFn(f.String())] = true
		bad := func(at ssa.Instruction, s string, a ...interface{}) {
			c.rep.viol(rule, shortFn(f.String())+" "+c.p.pos(at.Pos()), fmt.Sprintf(s, a...), nil)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && strings.HasSuffix(g.Name(), "StaticData") && g.Name() != name+kind+"StaticData" {
						bad(ins, "the tables of %s are used", g.Name())
					}
				}
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				g := cc.StaticCallee()
				if g == nil || cc.IsInvoke() {
					c.rep.undecided("%s: a call that is not followed", shortFn(f.String()))
					continue
				}
				saw[g.Name()]++
				switch g.Name() {
				case "Deserialize":
					if !isField(cc.Args[1], "serializedATN") {
						bad(ins, "another automaton is loaded")
					}
				case "NewDFA":
					ok := false
					l, isLoad := cc.Args[0].(*ssa.UnOp)
					if isLoad {
						if ia, is := l.X.(*ssa.IndexAddr); is && ia.Index == cc.Args[1] && isField(ia.X, "DecisionToState") {
							for _, r := range *ins.(*ssa.Call).Referrers() {
								if s, is := r.(*ssa.Store); is {
									if ia2, is := s.Addr.(*ssa.IndexAddr); is && ia2.Index == cc.Args[1] {
										ok = true
									}
								}
							}
						}
					}
					if !ok {
						bad(ins, "the decisions are not numbered as in the automaton")
					}
				case "New" + kind + "ATNSimulator":
					for i, w := range []string{"atn", "decisionToDFA", "PredictionContextCache"} {
						if !isField(cc.Args[i+1], w) {
							bad(ins, "the simulator is not given table %s", w)
						}
					}
				case "NewBase" + kind:
					if cc.Args[0] != ssa.Value(f.Params[0]) {
						bad(ins, "another input is read")
					}
				case "NewATNDeserializer", "NewPredictionContextCache", name + "Init":
				case "Do":
					if fn, ok := cc.Args[1].(*ssa.Function); !ok || strings.ToLower(fn.Name()) != strings.ToLower(name+kind+"Init") {
						bad(ins, "the tables are not loaded by their own function")
					}
				default:
					c.rep.undecided("%s calls %s, which is not followed", shortFn(f.String()), shortFn(g.String()))
				}
			}
		}
	}
	for _, n := range []string{"Deserialize", "NewDFA", "New" + kind + "ATNSimulator", "NewBase" + kind, "Do"} {
		if saw[n] == 0 {
			c.rep.undecided("%s: no call of %s found", name, n)
		}
	}
}

func checkC25(c *vctx) {
	c.rep.rule("the tables compiled into the tokenizer and recogniser equal the published ones entry by entry and are the ones they are built from; each rule function, walked together with the published automaton of its rule over every lookahead token and every predicted alternative, takes a token, uses a rule, makes a decision, passes a state or ends exactly where the automaton does, raises an error only where the automaton cannot go on, and reports every error; every way of invoking the parser reads the whole given text through this tokenizer and recogniser from the start rule, and returns an error if they report one")
	c.recogniser()
	c.syntaxErrors(sentinel(c.base, "utils", "ErrInvalidSyntax"))
	c.flush()
	c.rep.minimum("rules_walked", 40)
	c.rep.minimum("tokens_matched", 100)
	c.rep.minimum("table_entries", 2000)
}
