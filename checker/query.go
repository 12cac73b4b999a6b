package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Queries on parse-tree nodes. Each is interpreted over a child list of any
// length: per loop, the position k in the list, the number m of children of
// the wanted kind before it, and what the current child is; integers are
// kept as the linear forms (in k, m, the argument i, the length n of the
// list and the total number t of children of the kind) they are equal to.

type lin struct{ c, k, m, i, n, t int }

func (a lin) add(b lin, s int) lin {
	return lin{a.c + s*b.c, a.k + s*b.k, a.m + s*b.m, a.i + s*b.i, a.n + s*b.n, a.t + s*b.t}
}

// qv is an abstract value of a query.
type qv struct {
	kind  string // int bool nil kids cur match other self visitor param list tok toks visit obj field elem tuple top
	forms []lin
	b     bool
	first bool // match: the first of its kind
	ith   bool // match: the i-th of its kind
	s     string
	n     int
	tup   []qv
}

func qint(f ...lin) qv { return qv{kind: "int", forms: f} }

func (v qv) String() string {
	var t []string
	for _, x := range v.tup {
		t = append(t, x.String())
	}
	return fmt.Sprintf("%s%v%v%v%v%s%d%v", v.kind, v.forms, v.b, v.first, v.ith, v.s, v.n, t)
}

type qlist struct {
	len, filled []lin
	bad         bool
}

type qframe struct {
	call *ssa.Call
	i    int
	env  map[ssa.Value]qv
}

type qstate struct {
	b     *ssa.BasicBlock
	i     int
	env   map[ssa.Value]qv
	stack []qframe
	lists []qlist
	cells []qv
	loop  *ssa.BasicBlock // loop under way
	depth int             // frames when it was entered
	cand  map[ssa.Value][]lin
	lcand []qlist
	pos   int        // 0 unknown, 1 there is a current child, 2 past the last
	kinds *[2]uint64 // what the current child can be
	zero  bool       // m == 0
	rel   int        // sign of m - i
	isgn  int        // sign of i
	n0    int        // 0 unknown, 1 no children, 2 some
	tz    int        // 0 unknown, 1 none of the kind, 2 some
	trel  int        // sign of t - i, valid if tknown
	tk    bool
	ibig  bool // i is beyond the last
	vis   int  // visitor: 0 unknown, 1 of the grammar, 2 another
}

func (s *qstate) clone() *qstate {
	n := *s
	n.env = map[ssa.Value]qv{}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.lists = append([]qlist{}, s.lists...)
	n.cells = append([]qv{}, s.cells...)
	return &n
}

type qwalk struct {
	c     *vctx
	g     *interpFile
	sp    *ssa.Package
	ctxs  []types.Type // pointer types of the nodes, by rule
	fn    *ssa.Function
	want  int // rule looked for, -1 none
	seen  map[string]bool
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	lived map[*ssa.Function]bool
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	slots map[ssa.Instruction]int
	why   string
	ends  int
	ret   func(s *qstate, v qv, at ssa.Instruction)
}

func (w *qwalk) fail(at ssa.Instruction, f string, a ...interface{}) {
	if w.why == "" {
		w.why = fmt.Sprintf(f, a...)
		if at != nil {
			w.why = w.c.p.pos(at.Pos()) + ": " + w.why
		}
	}
}

func (w *qwalk) enter(fn *ssa.Function) {
	if w.lived[fn] {
		return
	}
	w.lived[fn] = true
	for b, l := range liveIn(fn) {
		w.live[b] = l
	}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := w.loops[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				w.loops[h] = body
			}
			for q := []*ssa.BasicBlock{b}; len(q) > 0; {
				x := q[0]
				q = q[1:]
				if !body[x] {
					body[x] = true
					q = append(q, x.Preds...)
				}
			}
		}
	}
}

func (s *qstate) get(v ssa.Value) qv {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			if _, ok := under(c.Type()).(*types.Slice); ok {
				return qv{kind: "nil"}
			}
			return qv{kind: "nil"}
		}
		switch c.Value.Kind() {
		case constant.Bool:
			return qv{kind: "bool", b: constant.BoolVal(c.Value)}
		case constant.Int:
			if x, ok := constant.Int64Val(c.Value); ok {
				return qint(lin{c: int(x)})
			}
		}
		return qv{kind: "top"}
	}
	if x, ok := s.env[v]; ok {
		return x
	}
	return qv{kind: "top"}
}

func hasLin(fs []lin, f lin) bool {
	for _, x := range fs {
		if x == f {
			return true
		}
	}
	return false
}

func mapForms(fs []lin, f func(lin) (lin, bool)) []lin {
	var r []lin
	for _, x := range fs {
		if y, ok := f(x); ok && !hasLin(r, y) && len(r) < 12 {
			r = append(r, y)
		}
	}
	return r
}

// each rewrites every value of the state.
func (s *qstate) each(f func(qv) qv) {
	for k, v := range s.env {
		s.env[k] = f(v)
	}
	for i := range s.cells {
		s.cells[i] = f(s.cells[i])
	}
	st := make([]qframe, len(s.stack))
	for i, fr := range s.stack {
		env := map[ssa.Value]qv{}
		for k, v := range fr.env {
			env[k] = f(v)
		}
		st[i] = qframe{fr.call, fr.i, env}
	}
	s.stack = st
	for i := range s.lists {
		l := s.lists[i]
		l.len = f(qint(l.len...)).forms
		l.filled = f(qint(l.filled...)).forms
		s.lists[i] = l
	}
}

// settle makes sure it is known whether the current child is of the kind.
func (w *qwalk) settle(s *qstate) []*qstate {
	if s.pos != 1 || w.want < 0 {
		return []*qstate{s}
	}
	yes, no := w.split(s, func(k int) bool { return k == w.want })
	var r []*qstate
	if yes != nil {
		r = append(r, yes)
	}
	if no != nil {
		r = append(r, no)
	}
	return r
}

func (w *qwalk) split(s *qstate, is func(k int) bool) (yes, no *qstate) {
	var y, n [2]uint64
	for k := 0; k <= len(w.ctxs); k++ {
		if s.kinds[k/64]>>(k%64)&1 == 1 {
			if is(k) {
				y[k/64] |= 1 << (k % 64)
			} else {
				n[k/64] |= 1 << (k % 64)
			}
		}
	}
	if y != [2]uint64{} {
		yes = s.clone()
		yes.kinds = &y
	}
	if n != [2]uint64{} {
		no = s.clone()
		no.kinds = &n
	}
	return
}

func (w *qwalk) matched(s *qstate) bool {
	if w.want < 0 || s.pos != 1 {
		return false
	}
	var only [2]uint64
	only[w.want/64] = 1 << (w.want % 64)
	return *s.kinds == only
}

func (w *qwalk) all() *[2]uint64 {
	var a [2]uint64
	for k := 0; k <= len(w.ctxs); k++ {
		a[k/64] |= 1 << (k % 64)
	}
	return &a
}

// past turns the current child into one passed.
func (w *qwalk) past(s *qstate, v qv) qv {
	if v.kind == "cur" {
		if w.matched(s) {
			return qv{kind: "match", first: s.zero, ith: s.rel == 0}
		}
		return qv{kind: "other"}
	}
	if len(v.tup) > 0 {
		t := append([]qv{}, v.tup...)
		for i := range t {
			t[i] = w.past(s, t[i])
		}
		v.tup = t
	}
	return v
}

func (w *qwalk) goTo(s *qstate, to *ssa.BasicBlock) []*qstate {
	from := s.b
	inLoop := s.loop != nil && s.depth == len(s.stack)
	var sts []*qstate
	switch {
	case inLoop && to == s.loop && w.loops[to][from]: // the next child
		for _, x := range w.settle(s) {
			d := 0
			if w.matched(x) {
				d = 1
			}
			x = x.clone()
			x.each(func(v qv) qv {
				v = w.past(x, v)
				v.forms = mapForms(v.forms, func(f lin) (lin, bool) {
					f.c -= f.k + d*f.m
					return f, true
				})
				return v
			})
			x.pos, x.kinds = 0, w.all()
			if d == 1 {
				x.zero = false
				switch x.rel {
				case -1:
					y := x.clone()
					y.rel = 0
					sts = append(sts, y)
				case 0:
					x.rel = 1
				}
			}
			sts = append(sts, x)
		}
	case inLoop && !w.loops[s.loop][to]: // the loop is left
		for _, x := range w.settle(s) {
			x = x.clone()
			end := x.pos == 2
			x.each(func(v qv) qv {
				v = w.past(x, v)
				v.forms = mapForms(v.forms, func(f lin) (lin, bool) {
					if end {
						f.n, f.t, f.k, f.m = f.n+f.k, f.t+f.m, 0, 0
					}
					return f, f.k == 0 && f.m == 0
				})
				return v
			})
			if end {
				tz := 2
				if x.zero {
					tz = 1
				}
				if x.tz != 0 && x.tz != tz || x.tk && x.trel != x.rel {
					continue // not the same children
				}
				x.tz, x.tk, x.trel = tz, true, x.rel
			}
			x.loop, x.pos, x.cand, x.lcand = nil, 0, nil, nil
			sts = append(sts, x)
		}
	default:
		sts = []*qstate{s.clone()}
	}
	var r []*qstate
	for _, n := range sts {
		n.b, n.i = to, 0
		start := w.loops[to] != nil && !w.loops[to][from]
		if start {
			if n.loop != nil {
				w.fail(to.Instrs[0], "nested loops")
				return nil
			}
			n.loop, n.depth, n.pos, n.kinds, n.zero = to, len(n.stack), 0, w.all(), true
			n.rel = -n.isgn
			n.cand = map[ssa.Value][]lin{}
			more := func(fs []lin) []lin {
				r := append([]lin{}, fs...)
				for _, f := range fs {
					for _, d := range []lin{{k: 1}, {m: 1}, {m: -1}} {
						if x := f.add(d, 1); !hasLin(r, x) {
							r = append(r, x)
						}
					}
				}
				return r
			}
			for i := range n.lists {
				l := n.lists[i]
				l.len, l.filled = more(l.len), more(l.filled)
				n.lists[i] = l
			}
			n.lcand = append([]qlist{}, n.lists...)
			defer func() {}()
			for _, ins := range to.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				for k, p := range to.Preds {
					if p == from {
						if v := n.get(ph.Edges[k]); v.kind == "int" {
							n.cand[ph] = more(v.forms)
						}
					}
				}
			}
		} else if n.loop == to {
			for i := range n.lcand {
				if i < len(n.lists) {
					l := n.lists[i]
					l.len, l.filled = both(l.len, n.lcand[i].len), both(l.filled, n.lcand[i].filled)
					n.lists[i] = l
				}
			}
		}
		vals := map[ssa.Value]qv{}
		for _, ins := range to.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			n.i++
			for k, p := range to.Preds {
				if p != from {
					continue
				}
				v := n.get(ph.Edges[k])
				if v.kind == "int" && n.loop == to {
					if start {
						v.forms = n.cand[ph]
					} else if c, ok := n.cand[ph]; ok {
						v.forms = both(v.forms, c)
					}
				}
				vals[ph] = v
			}
		}
		for k, v := range vals {
			n.env[k] = v
		}
		for v := range n.env {
			if !w.live[to][v] {
				delete(n.env, v)
			}
		}
		if k := w.key(n); !w.seen[k] {
			w.seen[k] = true
			r = append(r, n)
		}
	}
	return r
}

func both(a, b []lin) []lin {
	return mapForms(a, func(f lin) (lin, bool) { return f, hasLin(b, f) })
}

func (w *qwalk) key(s *qstate) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%d|%d|%v|%v%v%v%v%v%v%v%v%v%v|%v|%v", s.b.Parent(), s.b.Index, s.depth, s.loop != nil, s.pos, s.kinds, s.zero, s.rel, s.isgn, s.n0, s.tz, s.trel, s.tk, s.ibig, s.lists, s.vis)
	env := func(e map[ssa.Value]qv) {
		var ks []string
		for v, x := range e {
			ks = append(ks, v.Name()+"="+x.String())
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ";"))
	}
	env(s.env)
	for _, f := range s.stack {
		fmt.Fprintf(&b, "|%p", f.call)
		env(f.env)
	}
	for _, c := range s.cells {
		b.WriteString("|" + c.String())
	}
	return b.String()
}

// compare tells the possible signs of x - y, refining the state for each.
func (w *qwalk) compare(s *qstate, x, y []lin) map[int]*qstate {
	r := map[int]*qstate{}
	var ds []lin
	for _, a := range x {
		for _, b := range y {
			ds = append(ds, a.add(b, -1))
		}
	}
	sign := func(i int) int {
		switch {
		case i < 0:
			return -1
		case i > 0:
			return 1
		}
		return 0
	}
	// what depends on the position first: it is what moves
	for _, d := range ds {
		for _, sg := range []int{1, -1} {
			if d == (lin{k: sg, n: -sg}) && s.loop != nil {
				if s.pos != 2 && s.n0 != 1 {
					n := s.clone()
					n.pos, n.n0 = 1, 2
					r[-sg] = n
				}
				if s.pos != 1 {
					n := s.clone()
					n.pos = 2
					r[0] = n
				}
				return r
			}
		}
	}
	for _, d := range ds {
		if d == (lin{c: d.c}) {
			r[sign(d.c)] = s
			return r
		}
	}
	for _, d := range ds {
		for _, sg := range []int{1, -1} {
			switch {
			case s.loop != nil && d == (lin{m: sg, i: -sg}):
				r[sg*s.rel] = s
				return r
			case s.tk && d == (lin{t: sg, i: -sg}):
				r[sg*s.trel] = s
				return r
			case s.loop != nil && d == (lin{m: sg}):
				if s.zero {
					r[0] = s
				} else {
					r[sg] = s
				}
				return r
			case s.tz != 0 && d == (lin{t: sg}):
				if s.tz == 1 {
					r[0] = s
				} else {
					r[sg] = s
				}
				return r
			case d == (lin{i: sg}):
				r[sg*s.isgn] = s
				return r
			case d == (lin{i: sg, c: sg}) && s.isgn >= 0:
				r[sg] = s
				return r
			}
		}
	}
	for _, d := range ds {
		for _, sg := range []int{1, -1} {
			switch {
			case d == (lin{n: sg}):
				if s.n0 != 2 {
					n := s.clone()
					n.n0 = 1
					r[0] = n
				}
				if s.n0 != 1 {
					n := s.clone()
					n.n0 = 2
					r[sg] = n
				}
				return r
			case d == (lin{i: sg, n: -sg}):
				for _, q := range []int{-1, 0, 1} {
					n := s.clone()
					n.ibig = q >= 0
					r[sg*q] = n
				}
				return r
			}
		}
	}
	for _, q := range []int{-1, 0, 1} {
		r[q] = s.clone()
	}
	return r
}

func (w *qwalk) run(fn *ssa.Function, args []qv, isgn []int) {
	w.fn, w.seen, w.why, w.ends, w.slots = fn, map[string]bool{}, "", 0, map[ssa.Instruction]int{}
	w.loops, w.live, w.lived = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]map[ssa.Value]bool{}, map[*ssa.Function]bool{}
	if len(fn.Blocks) == 0 {
		w.fail(nil, "no code")
		return
	}
	w.enter(fn)
	var q []*qstate
	for _, sg := range isgn {
		s := &qstate{b: fn.Blocks[0], env: map[ssa.Value]qv{}, isgn: sg, kinds: w.all()}
		for k, p := range fn.Params {
			if k < len(args) {
				s.env[p] = args[k]
			}
		}
		q = append(q, s)
	}
	steps := 0
	for len(q) > 0 && w.why == "" {
		s := q[len(q)-1]
		q = q[:len(q)-1]
		if steps++; steps > 20000 {
			w.fail(nil, "too many states")
			return
		}
		q = append(q, w.step(s)...)
	}
	if w.ends == 0 && w.why == "" {
		w.fail(nil, "it never returns")
	}
}

// slot numbers what an instruction makes.
func (w *qwalk) slot(ins ssa.Instruction) int {
	n, ok := w.slots[ins]
	if !ok {
		n = len(w.slots)
		w.slots[ins] = n
	}
	return n
}

// list makes a list.
func (w *qwalk) list(s *qstate, ins ssa.Instruction, l qlist) qv {
	n := w.slot(ins)
	s.lists = append([]qlist{}, s.lists...)
	for len(s.lists) <= n {
		s.lists = append(s.lists, qlist{})
	}
	s.lists[n] = l
	return qv{kind: "list", n: n}
}

func (w *qwalk) step(s *qstate) []*qstate {
	for ; ; s.i++ {
		ins := s.b.Instrs[s.i]
		set := func(v qv) { s.env[ins.(ssa.Value)] = v }
		switch t := ins.(type) {
		case *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.Jump:
			return w.goTo(s, s.b.Succs[0])
		case *ssa.If:
			v := s.get(t.Cond)
			var r []*qstate
			if v.kind != "bool" || v.b {
				r = append(r, w.goTo(s.clone(), s.b.Succs[0])...)
			}
			if v.kind != "bool" || !v.b {
				r = append(r, w.goTo(s.clone(), s.b.Succs[1])...)
			}
			return r
		case *ssa.Return:
			v := qv{kind: "none"}
			if len(t.Results) == 1 {
				v = s.get(t.Results[0])
			} else if len(t.Results) > 1 {
				v = qv{kind: "tuple"}
				for _, r := range t.Results {
					v.tup = append(v.tup, s.get(r))
				}
			}
			if k := len(s.stack) - 1; k >= 0 {
				f := s.stack[k]
				env := map[ssa.Value]qv{}
				for x, y := range f.env {
					env[x] = y
				}
				env[f.call] = v
				s.b, s.i, s.env, s.stack = f.call.Block(), f.i, env, s.stack[:k:k]
				continue
			}
			w.ends++
			w.ret(s, v, t)
			return nil
		case *ssa.Panic:
			w.fail(t, "it can panic")
			return nil
		case *ssa.Alloc:
			n := w.slot(ins)
			s.cells = append([]qv{}, s.cells...)
			for len(s.cells) <= n {
				s.cells = append(s.cells, qv{kind: "nil"})
			}
			s.cells[n] = qv{kind: "nil"}
			set(qv{kind: "obj", n: n})
		case *ssa.FieldAddr:
			x := s.get(t.X)
			if x.kind == "self" && under(deref(t.X.Type())).(*types.Struct).Field(t.Field).Embedded() {
				set(qv{kind: "self"})
			} else {
				set(qv{kind: "field", s: x.kind + "." + under(deref(t.X.Type())).(*types.Struct).Field(t.Field).Name()})
			}
		case *ssa.UnOp:
			x := s.get(t.X)
			switch {
			case t.Op == token.MUL && x.kind == "obj":
				set(s.cells[x.n])
			case t.Op == token.MUL && x.kind == "elem":
				set(x.tup[0])
			case t.Op == token.MUL && x.kind == "self":
				set(qv{kind: "self"})
			case t.Op == token.MUL && x.kind == "field":
				set(qv{kind: "load", s: x.s})
			case t.Op == token.NOT && x.kind == "bool":
				set(qv{kind: "bool", b: !x.b})
			case t.Op == token.SUB && x.kind == "int":
				set(qint(mapForms(x.forms, func(f lin) (lin, bool) { return lin{}.add(f, -1), true })...))
			default:
				set(qv{kind: "top"})
			}
		case *ssa.BinOp:
			x, y := s.get(t.X), s.get(t.Y)
			if x.kind == "int" && y.kind == "int" {
				sg := 0
				switch t.Op {
				case token.ADD:
					sg = 1
				case token.SUB:
					sg = -1
				}
				if sg != 0 {
					var fs []lin
					for _, a := range x.forms {
						for _, b := range y.forms {
							if f := a.add(b, sg); !hasLin(fs, f) && len(fs) < 12 {
								fs = append(fs, f)
							}
						}
					}
					set(qint(fs...))
					continue
				}
				var r []*qstate
				for sign, n := range w.compare(s, x.forms, y.forms) {
					var b, ok bool = false, true
					switch t.Op {
					case token.LSS:
						b = sign < 0
					case token.LEQ:
						b = sign <= 0
					case token.GTR:
						b = sign > 0
					case token.GEQ:
						b = sign >= 0
					case token.EQL:
						b = sign == 0
					case token.NEQ:
						b = sign != 0
					default:
						ok = false
					}
					n = n.clone()
					n.i++
					n.env[t] = qv{kind: "bool", b: b}
					if !ok {
						n.env[t] = qv{kind: "top"}
					}
					r = append(r, n)
				}
				return r
			}
			if t.Op == token.EQL || t.Op == token.NEQ {
				nilness := func(v qv) int {
					switch v.kind {
					case "nil":
						return 1
					case "cur", "match", "other", "self", "list", "obj":
						return 2
					}
					return 0
				}
				a, b := nilness(x), nilness(y)
				if a+b > 0 && a*b != 0 && a*b < 4 {
					set(qv{kind: "bool", b: (a*b == 1) == (t.Op == token.EQL)})
					continue
				}
			}
			set(qv{kind: "top"})
		case *ssa.ChangeInterface:
			set(s.get(t.X))
		case *ssa.ChangeType:
			set(s.get(t.X))
		case *ssa.MakeInterface:
			set(s.get(t.X))
		case *ssa.Convert:
			set(s.get(t.X))
		case *ssa.Extract:
			x := s.get(t.Tuple)
			if x.kind == "tuple" && t.Index < len(x.tup) {
				set(x.tup[t.Index])
			} else {
				set(qv{kind: "top"})
			}
		case *ssa.TypeAssert:
			return w.assert(s, t)
		case *ssa.IndexAddr:
			x, i := s.get(t.X), s.get(t.Index)
			v := w.index(s, x, i)
			if v.kind == "top" {
				v = qv{kind: "slot", n: x.n, forms: i.forms, s: x.kind}
				if x.kind == "obj" {
					v = qv{kind: "arg", n: x.n}
				}
			} else {
				v = qv{kind: "elem", tup: []qv{v}, n: x.n, forms: i.forms, s: x.kind}
			}
			set(v)
		case *ssa.Slice:
			x := s.get(t.X)
			arr, _ := under(deref(t.X.Type())).(*types.Array)
			if x.kind == "obj" && t.Low == nil && t.High == nil && arr != nil && arr.Len() == 1 {
				set(qv{kind: "args", n: x.n})
			} else if x.kind == "obj" && arr != nil && (arr.Len() == 0 || t.High != nil && len(s.get(t.High).forms) == 1 && s.get(t.High).forms[0] == (lin{})) && s.loop == nil {
				set(w.list(s, ins, qlist{len: []lin{{}}, filled: []lin{{}}}))
			} else if x.kind == "list" && t.Low == nil && t.High != nil && len(s.get(t.High).forms) == 1 && s.get(t.High).forms[0] == (lin{}) {
				if s.loop != nil {
					w.fail(t, "a list is made in a loop")
				}
				set(w.list(s, ins, qlist{len: []lin{{}}, filled: []lin{{}}}))
			} else {
				set(qv{kind: "top"})
			}
		case *ssa.MakeSlice:
			n := s.get(t.Len)
			if s.loop != nil {
				w.fail(t, "a list is made in a loop")
			}
			set(w.list(s, ins, qlist{len: n.forms, filled: []lin{{}}}))
		case *ssa.Store:
			a, v := s.get(t.Addr), s.get(t.Val)
			switch a.kind {
			case "obj":
				s.cells = append([]qv{}, s.cells...)
				s.cells[a.n] = v
			case "arg":
				s.cells = append([]qv{}, s.cells...)
				s.cells[a.n] = v
			case "slot", "elem":
				if a.s != "list" {
					w.fail(t, "something else is changed")
					return nil
				}
				w.fill(s, a.n, a.forms, v)
			case "field":
				set := qv{kind: "stored", s: a.s, tup: []qv{v}}
				s.cells = append(append([]qv{}, s.cells...), set)
			default:
				w.fail(t, "something else is changed")
				return nil
			}
		case *ssa.Call:
			next, again := w.call(s, t)
			if !again {
				return next
			}
		default:
			w.fail(ins, "%T is not understood", ins)
			return nil
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (w *qwalk) index(s *qstate, x, i qv) qv {
	switch x.kind {
	case "kids":
		if s.loop != nil && s.pos == 1 && hasLin(i.forms, lin{k: 1}) {
			return qv{kind: "cur"}
		}
		return qv{kind: "other?"}
	case "list":
		l := s.lists[x.n]
		if !l.bad && hasLin(l.filled, lin{t: 1}) && hasLin(i.forms, lin{i: 1}) && s.tk && s.trel > 0 {
			return qv{kind: "match", ith: true, first: s.isgn == 0}
		}
		if !l.bad && hasLin(l.filled, lin{t: 1}) && hasLin(i.forms, lin{}) && s.tz == 2 {
			return qv{kind: "match", first: true, ith: s.isgn == 0}
		}
	}
	return qv{kind: "top"}
}

// fill stores a child in a result list.
func (w *qwalk) fill(s *qstate, n int, at []lin, v qv) {
	s.lists = append([]qlist{}, s.lists...)
	l := s.lists[n]
	ok := v.kind == "cur" && w.matched(s) && len(both(at, l.filled)) > 0 && hasLin(l.filled, lin{m: 1})
	if !ok {
		l.bad = true
	}
	l.filled = mapForms(l.filled, func(f lin) (lin, bool) { f.c++; return f, true })
	s.lists[n] = l
}

// assert handles type assertions on children and visitors.
func (w *qwalk) assert(s *qstate, t *ssa.TypeAssert) []*qstate {
	x := s.get(t.X)
	ifc, isI := under(t.AssertedType).(*types.Interface)
	is := func(k int) bool {
		if k == len(w.ctxs) { // a token
			tn := w.c.p.extTyp(antlrPkg, "TerminalNodeImpl")
			if tn == nil {
				return false
			}
			if isI {
				return types.Implements(types.NewPointer(tn), ifc)
			}
			return types.Identical(t.AssertedType, types.NewPointer(tn))
		}
		if isI {
			return types.Implements(w.ctxs[k], ifc)
		}
		return types.Identical(t.AssertedType, w.ctxs[k])
	}
	res := func(n *qstate, v qv, ok bool) *qstate {
		n = n.clone()
		n.i++
		if t.CommaOk {
			if !ok {
				v = qv{kind: "nil"}
			}
			n.env[t] = qv{kind: "tuple", tup: []qv{v, {kind: "bool", b: ok}}}
		} else {
			n.env[t] = v
		}
		return n
	}
	var r []*qstate
	no := func(n *qstate) {
		if !t.CommaOk {
			w.fail(t, "the type assertion can panic")
			return
		}
		r = append(r, res(n, x, false))
	}
	switch x.kind {
	case "cur":
		y, n := w.split(s, is)
		if y != nil {
			r = append(r, res(y, x, true))
		}
		if n != nil {
			no(n)
		}
	case "match":
		if is(w.want) {
			r = append(r, res(s, x, true))
		} else {
			no(s)
		}
	case "nil":
		no(s)
	case "self":
		r = append(r, res(s, x, types.Identical(t.AssertedType, w.fn.Params[0].Type()) || isI && types.Implements(w.fn.Params[0].Type(), ifc)))
	case "visitor":
		if !strings.HasSuffix(t.AssertedType.String(), "/kfgrammar.KuneiformParserVisitor") {
			w.fail(t, "the visitor is asked for %s", t.AssertedType)
			return nil
		}
		if s.vis != 2 {
			n := s.clone()
			n.vis = 1
			r = append(r, res(n, x, true))
		}
		if s.vis != 1 {
			n := s.clone()
			n.vis = 2
			no(n)
		}
	default:
		if t.CommaOk {
			r = append(r, res(s, qv{kind: "top"}, true), res(s, x, false))
		} else {
			r = append(r, res(s, qv{kind: "top"}, true))
		}
	}
	return r
}

func (w *qwalk) call(s *qstate, t *ssa.Call) (next []*qstate, again bool) {
	cc := t.Common()
	set := func(v qv) ([]*qstate, bool) {
		s.env[t] = v
		return nil, true
	}
	var args []qv
	if cc.IsInvoke() {
		args = append(args, s.get(cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, s.get(a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			switch args[0].kind {
			case "kids":
				return set(qint(lin{n: 1}))
			case "list":
				return set(qint(s.lists[args[0].n].len...))
			case "nil":
				return set(qint(lin{}))
			}
			return set(qv{kind: "top"})
		case "append":
			x := args[0]
			if x.kind == "nil" {
				l := qlist{len: []lin{{}}, filled: []lin{{}}}
				if s.loop != nil {
					if s.zero { // as if it had been empty from the start
						l = qlist{len: []lin{{m: 1}}, filled: []lin{{m: 1}}}
					} else {
						l.bad = true
					}
				}
				x = w.list(s, t, l)
				if s.loop != nil {
					s.lcand = append([]qlist{}, s.lcand...)
					for len(s.lcand) <= x.n {
						s.lcand = append(s.lcand, qlist{})
					}
					s.lcand[x.n] = qlist{len: []lin{{m: 1}}, filled: []lin{{m: 1}}}
				}
			}
			if x.kind != "list" || len(args) != 2 || args[1].kind != "args" {
				return set(qv{kind: "top"})
			}
			v := s.cells[args[1].n]
			l := s.lists[x.n]
			if len(both(l.len, l.filled)) == 0 {
				l.bad = true
				s.lists = append([]qlist{}, s.lists...)
				s.lists[x.n] = l
			}
			w.fill(s, x.n, l.filled, v)
			l = s.lists[x.n]
			l.len = l.filled
			s.lists[x.n] = l
			return set(x)
		}
		w.fail(t, "%s is not understood", b.Name())
		return nil, false
	}
	name := ""
	f := cc.StaticCallee()
	if cc.IsInvoke() {
		name = cc.Method.Name()
	} else if f != nil {
		name = f.Name()
	}
	anyArg := func(k string) bool {
		for _, a := range args {
			if a.kind == k {
				return true
			}
		}
		return false
	}
	if len(args) > 0 && args[0].kind == "visitor" {
		v := qv{kind: "visit", s: name}
		if len(args) != 2 || args[1].kind != "self" {
			v.s += " of something else"
		}
		return set(v)
	}
	if len(args) > 0 && args[0].kind == "self" && (f == nil || !isRepoPkg(fnPkgPath(f)) || len(f.Blocks) == 0 || f.Synthetic != "") {
		switch name {
		case "GetChildren":
			return set(qv{kind: "kids"})
		case "GetChildCount":
			return set(qint(lin{n: 1}))
		case "GetChild":
			v := w.index(s, qv{kind: "kids"}, args[1])
			return set(v)
		case "GetToken", "GetTokens":
			if len(args[1].forms) == 1 && args[1].forms[0] == (lin{c: args[1].forms[0].c}) {
				v := qv{kind: "tok", n: args[1].forms[0].c}
				if name == "GetTokens" {
					v.kind = "toks"
				} else {
					v.forms = args[2].forms
				}
				return set(v)
			}
		}
	}
	if f != nil && isRepoPkg(fnPkgPath(f)) && len(f.Blocks) > 0 {
		if len(s.stack) > 3 || len(cc.Args) != len(f.Params) {
			w.fail(t, "calls nested too deep")
			return nil, false
		}
		w.enter(f)
		fr := qframe{t, s.i, s.env}
		env := map[ssa.Value]qv{}
		for k, a := range args {
			env[f.Params[k]] = a
		}
		n := s.clone()
		n.env, n.stack = env, append(append([]qframe{}, s.stack...), fr)
		n.b, n.i = f.Blocks[0], 0
		return []*qstate{n}, false
	}
	v := qv{kind: "call", s: name, tup: args}
	if anyArg("list") || anyArg("obj") && name != "InitBaseParserRuleContext" {
		w.fail(t, "%s is not understood", name)
		return nil, false
	}
	s.cells = append(append([]qv{}, s.cells...), qv{kind: "did", s: name, tup: args})
	return set(v)
}

// tokenNumber is the number the code gives the token.
func (w *qwalk) tokenNumber(name string) (int, bool) {
	for i, s := range w.g.Symbolic {
		if s == name && s != "null" {
			return i, true
		}
	}
	return -1, name == "EOF"
}

const queryRule = "query-returns-the-children-asked-for"

// queries decides every method the generated code adds to nodes. only
// restricts it to some methods (nil: all).
func (c *vctx) queries(only func(fn *ssa.Function) bool) {
	g, err := readInterp("KuneiformParser.interp")
	sp := c.p.pkg("kfgrammar")
	if err != nil || sp == nil {
		c.rep.undecided("published grammar: %v", err)
		return
	}
	w := &qwalk{c: c, g: g, sp: sp}
	byName := map[string]int{}
	for i, r := range g.Rules {
		n := c.p.typ("kfgrammar", title(r)+"Context")
		if n == nil {
			c.rep.viol(queryRule, "kfgrammar", "no node type for rule "+r, nil)
			return
		}
		w.ctxs = append(w.ctxs, types.NewPointer(n))
		byName[title(r)] = i
	}
	// node types are told apart by their interfaces
	for i, r := range g.Rules {
		it := c.p.typ("kfgrammar", "I"+title(r)+"Context")
		if it == nil {
			c.rep.viol(queryRule, "kfgrammar", "no interface for rule "+r, nil)
			continue
		}
		ifc, _ := under(it).(*types.Interface)
		for k, t := range w.ctxs {
			if ifc == nil || types.Implements(t, ifc) != (i == k) {
				c.rep.viol(queryRule, shortFn(t.String()), fmt.Sprintf("nodes of rule %s pass for nodes of rule %s or do not pass for their own", g.Rules[k], r), nil)
			}
		}
	}
	for i, r := range g.Rules {
		ms := c.p.Prog.MethodSets.MethodSet(w.ctxs[i])
		for k := 0; k < ms.Len(); k++ {
			fn := c.p.Prog.MethodValue(ms.At(k))
			if fn == nil || fnPkgPath(fn) != gramPkg || fn.Synthetic != "" || len(ms.At(k).Index()) != 1 {
				continue
			}
			if only != nil && !only(fn) {
				continue
			}
			w.method(r, i, fn, byName)
		}
		if only == nil {
			w.makers(r, i)
		}
	}
	if only == nil {
		w.base()
	}
}

func (w *qwalk) wrong(fn *ssa.Function, f string, a ...interface{}) {
	w.c.rep.viol(queryRule, shortFn(fn.String())+" "+w.c.p.pos(fn.Pos()), fmt.Sprintf(f, a...), nil)
}

func (w *qwalk) method(rule string, self int, fn *ssa.Function, byName map[string]int) {
	w.c.rep.add("queries_decided", 1)
	w.c.rep.fns[shortFn(fn.String())] = true
	name := fn.Name()
	sig := fn.Signature
	np, nr := sig.Params().Len(), sig.Results().Len()
	all := strings.HasPrefix(name, "All") && np == 0 && nr == 1
	kind := name
	if all {
		kind = name[3:]
	}
	args := []qv{{kind: "self"}}
	signs := []int{1}
	w.want = -1
	isInt := np == 1 && types.Identical(sig.Params().At(0).Type(), types.Typ[types.Int])
	if isInt {
		args = append(args, qint(lin{i: 1}))
		signs = []int{0, 1}
	}
	bad := func(at ssa.Instruction, f string, a ...interface{}) {
		w.c.rep.viol(queryRule, shortFn(fn.String())+" "+w.c.p.pos(at.Pos()), fmt.Sprintf(f, a...), nil)
	}
	target, isRule := byName[kind]
	tok, isToken := w.tokenNumber(kind)
	quiet := func(s *qstate, at ssa.Instruction) bool {
		for _, c := range s.cells {
			if c.kind == "did" || c.kind == "stored" {
				bad(at, "it does more than look: %s", c.s)
				return false
			}
		}
		return true
	}
	switch {
	case isRule && nr == 1 && (np == 0 || isInt):
		w.want = target
		w.ret = func(s *qstate, v qv, at ssa.Instruction) {
			if !quiet(s, at) {
				return
			}
			r := w.g.Rules[target]
			switch {
			case all && v.kind == "list":
				l := s.lists[v.n]
				if l.bad || !hasLin(l.len, lin{t: 1}) && !(s.tz == 1 && hasLin(l.len, lin{})) || !hasLin(l.filled, lin{t: 1}) && !(s.tz == 1 && hasLin(l.filled, lin{})) {
					bad(at, "the list returned is not every child of rule %s in order", r)
				}
			case all && v.kind == "nil" && (s.tz == 1 || s.n0 == 1):
			case all:
				bad(at, "what is returned is not the list of the children of rule %s", r)
			case v.kind == "match" && (isInt && v.ith || !isInt && v.first):
			case v.kind == "nil" && (s.n0 == 1 || s.tz == 1 || isInt && (s.ibig || s.tk && s.trel <= 0)):
			case v.kind == "nil":
				bad(at, "nothing is returned although there is such a child of rule %s", r)
			default:
				bad(at, "what is returned is not the child of rule %s asked for", r)
			}
		}
	case isToken && nr == 1 && (np == 0 || isInt):
		w.ret = func(s *qstate, v qv, at ssa.Instruction) {
			if !quiet(s, at) {
				return
			}
			want := lin{}
			if isInt {
				want = lin{i: 1}
			}
			if all && (v.kind != "toks" || v.n != tok) || !all && (v.kind != "tok" || v.n != tok || !hasLin(v.forms, want)) {
				bad(at, "what is returned is not the token %s asked for", kind)
			}
		}
	case name == "Accept" && np == 1:
		args = append(args, qv{kind: "visitor"})
		w.ret = func(s *qstate, v qv, at ssa.Instruction) {
			want := "Visit" + title(rule)
			if s.vis == 2 {
				want = "VisitChildren"
			}
			if v.kind != "visit" || v.s != want || !quiet(s, at) {
				bad(at, "visiting a node of rule %s returns %s%s, not %s", rule, v.kind, v.s, want)
			}
		}
	case name == "GetRuleContext":
		w.ret = func(s *qstate, v qv, at ssa.Instruction) {
			if v.kind != "self" {
				bad(at, "another node is returned")
			}
		}
	case name == "GetParser":
		w.ret = func(s *qstate, v qv, at ssa.Instruction) {
			if v.kind != "load" || v.s != "self.parser" {
				bad(at, "another parser is returned")
			}
		}
	case name == "ToStringTree":
		args = append(args, qv{kind: "param", n: 1}, qv{kind: "param", n: 2})
		w.ret = func(s *qstate, v qv, at ssa.Instruction) {
			if v.kind != "call" || v.s != "TreesStringTree" || len(v.tup) != 3 || v.tup[0].kind != "self" || v.tup[1].n != 1 || v.tup[2].n != 2 {
				bad(at, "the text form is not that of the node")
			}
		}
	case strings.HasPrefix(name, "Is") && strings.HasSuffix(name, "Context") && np == 0 && nr == 0:
		w.ret = func(s *qstate, v qv, at ssa.Instruction) { quiet(s, at) }
	case strings.HasPrefix(name, "Get") && np == 0 && nr == 1: // a labelled child
		w.ret = func(s *qstate, v qv, at ssa.Instruction) {
			if v.kind != "load" || v.s != "self."+strings.ToLower(name[3:4])+name[4:] {
				bad(at, "another field is returned")
			}
		}
	case strings.HasPrefix(name, "Set") && np == 1 && nr == 0:
		args = append(args, qv{kind: "param", n: 1})
		w.ret = func(s *qstate, v qv, at ssa.Instruction) {
			if len(s.cells) != 1 || s.cells[0].kind != "stored" || s.cells[0].s != "self."+strings.ToLower(name[3:4])+name[4:] || s.cells[0].tup[0].kind != "param" {
				bad(at, "it does not set its field")
			}
		}
	default:
		w.c.rep.add("methods_not_queries", 1)
		return
	}
	w.run(fn, args, signs)
	if w.why != "" {
		w.c.rep.undecided("%s: %s", shortFn(fn.String()), w.why)
	}
}

// makers checks the functions making nodes.
func (w *qwalk) makers(rule string, self int) {
	want := -1
	for i, r := range w.g.Rules {
		if r == rule {
			want = i
		}
	}
	for _, n := range []string{"New" + title(rule) + "Context", "NewEmpty" + title(rule) + "Context", "InitEmpty" + title(rule) + "Context"} {
		fn, _ := w.sp.Members[n].(*ssa.Function)
		if fn == nil {
			if !strings.Contains(n, "Empty") {
				w.c.rep.viol(queryRule, "kfgrammar", n+" not found", nil)
			}
			continue
		}
		w.c.rep.fns[shortFn(fn.String())] = true
		w.c.rep.add("constructors_decided", 1)
		if len(fn.Blocks) != 1 {
			w.c.rep.undecided("%s has branches", shortFn(fn.String()))
			continue
		}
		full := !strings.Contains(n, "Empty")
		var obj ssa.Value
		if strings.HasPrefix(n, "InitEmpty") {
			obj = fn.Params[0]
		}
		field := func(v ssa.Value) string {
			var path []string
			for {
				f, ok := v.(*ssa.FieldAddr)
				if !ok {
					break
				}
				st, _ := under(deref(f.X.Type())).(*types.Struct)
				path = append([]string{st.Field(f.Field).Name()}, path...)
				v = f.X
			}
			if v != obj || obj == nil {
				return "?"
			}
			return path[len(path)-1]
		}
		index, inited, parser := -2, false, false
		for _, ins := range fn.Blocks[0].Instrs {
			switch t := ins.(type) {
			case *ssa.Alloc:
				if obj == nil && types.Identical(t.Type(), w.ctxs[self]) {
					obj = t
				}
			case *ssa.Call:
				f := t.Common().StaticCallee()
				if f != nil && f.Name() == "InitBaseParserRuleContext" {
					a := t.Common().Args
					ok := len(a) == 3 && field(a[0]) == "BaseParserRuleContext"
					if ok && full {
						ok = a[1] == ssa.Value(fn.Params[1]) && a[2] == ssa.Value(fn.Params[2])
					}
					if !ok {
						w.wrong(fn, "the node is not set up with its parent and state")
					}
					inited = true
					index = -2
				} else {
					w.c.rep.undecided("%s calls something unknown", shortFn(fn.String()))
				}
			case *ssa.Store:
				switch field(t.Addr) {
				case "RuleIndex":
					index = -3
					if k, ok := t.Val.(*ssa.Const); ok {
						index = int(k.Int64())
					}
				case "parser":
					parser = full && t.Val == ssa.Value(fn.Params[0])
				default:
					w.c.rep.undecided("%s sets %s", shortFn(fn.String()), field(t.Addr))
				}
			case *ssa.Return:
				if len(t.Results) == 1 && t.Results[0] != obj {
					w.wrong(fn, "it returns something else than the new node")
				}
			}
		}
		if index != want {
			w.wrong(fn, "nodes of rule %s get rule number %d, not %d", rule, index, want)
		}
		if !inited || full && !parser {
			w.wrong(fn, "the node is not set up")
		}
	}
}

// base checks that the visitor others build on treats every node alike.
func (w *qwalk) base() {
	t := w.c.p.typ("kfgrammar", "BaseKuneiformParserVisitor")
	if t == nil {
		w.c.rep.undecided("kfgrammar.BaseKuneiformParserVisitor not found")
		return
	}
	for i, r := range w.g.Rules {
		fn := w.c.p.method(types.NewPointer(t), "Visit"+title(r))
		if fn == nil || fnPkgPath(fn) != gramPkg {
			w.c.rep.viol(queryRule, "kf/kfgrammar.BaseKuneiformParserVisitor", "no handler for nodes of rule "+r, nil)
			continue
		}
		w.c.rep.fns[shortFn(fn.String())] = true
		w.c.rep.add("handlers_decided", 1)
		ok := len(fn.Params) == 2 && types.Identical(fn.Params[1].Type(), w.ctxs[i]) && len(fn.Blocks) == 1
		var call *ssa.Call
		if ok {
			for _, ins := range fn.Blocks[0].Instrs {
				switch t := ins.(type) {
				case *ssa.Call:
					cc := t.Common()
					f := cc.StaticCallee()
					last := cc.Args[len(cc.Args)-1]
					if m, ok := last.(*ssa.MakeInterface); ok {
						last = m.X
					}
					if (f == nil || f.Name() != "VisitChildren") && !(cc.IsInvoke() && cc.Method.Name() == "VisitChildren") || last != ssa.Value(fn.Params[1]) || call != nil {
						ok = false
					}
					call = t
				case *ssa.Return:
					ok = ok && call != nil && len(t.Results) == 1 && t.Results[0] == ssa.Value(call)
				case *ssa.Store, *ssa.Go, *ssa.Defer, *ssa.MapUpdate:
					ok = false
				}
			}
		}
		if !ok {
			w.wrong(fn, "a node of rule %s is not passed on to VisitChildren", r)
		}
	}
}

func checkC26(c *vctx) {
	c.rep.rule("each query of each node type, interpreted over a child list of any length with any kinds of children, returns exactly the first, the i-th or all children of the kind its name and result type announce, or nothing if there is none; token queries ask for the token they are named after; visiting reaches the handler of the node's own kind and returns its result; nodes are made with their own rule number; the base visitor treats every kind alike")
	c.queries(nil)
	c.rep.minimum("queries_decided", 400)
	c.rep.minimum("constructors_decided", 50)
	c.rep.minimum("handlers_decided", 50)
}

// usedQueries decides the queries the package kfparser makes.
func (c *vctx) usedQueries() {
	used := map[string]bool{}
	sp := c.p.pkg("kfparser")
	if sp == nil {
		c.rep.undecided("package kfparser not found")
		return
	}
	for _, fn := range c.p.repoFunctions() {
		if fnPkgPath(fn) != modPath+"/kfparser" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				t, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if cc := t.Common(); cc.IsInvoke() {
					used[cc.Method.Name()] = true
				} else if f := cc.StaticCallee(); f != nil && fnPkgPath(f) == gramPkg {
					used[f.Name()] = true
				}
			}
		}
	}
	c.queries(func(fn *ssa.Function) bool { return used[fn.Name()] })
}
