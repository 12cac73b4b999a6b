package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

// Reading the schema a parse returned.

type reader struct {
	in *Interp
	st *State
}

// field reads a field of a struct value or of what a pointer points to.
func (r reader) field(v Val, name string) Val {
	v = r.deref(v)
	t := typeOf(v)
	s, ok := under(t).(*types.Struct)
	if !ok {
		r.in.fail("%s is not a struct", key(v))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return r.in.field(r.st, v, i, s.Field(i).Type())
		}
	}
	r.in.fail("%s has no field %s", tkey(t), name)
	return nil
}

func (r reader) deref(v Val) Val {
	for {
		switch x := v.(type) {
		case *Iface:
			v = x.V
		case *Ptr:
			if x.O == 0 {
				v = r.in.load(r.st, x, nil)
				continue
			}
			c, ok := r.st.heap[x.O].(*Cell)
			if ok {
				t := c.T
				for _, p := range x.Path {
					if i, ok := p.(int); ok {
						t = under(t).(*types.Struct).Field(i).Type()
					}
				}
				v = r.in.load(r.st, x, t)
				continue
			}
			if l, ok := r.st.heap[x.O].(*ListObj); ok {
				v = r.in.load(r.st, x, l.Elem)
				continue
			}
			r.in.fail("result refers to %s", key(x))
		default:
			return v
		}
	}
}

func (r reader) path(v Val, names ...string) Val {
	for _, n := range names {
		v = r.field(v, n)
	}
	return v
}

func (r reader) len(v Val) Val {
	if isNil(v) {
		return intV(0)
	}
	return r.in.lenOf(r.st, v)
}

// at reads element idx.
func (r reader) at(l Val, idx Val) Val {
	s, ok := l.(*Slice)
	if !ok {
		if t, ok := l.(*Term); ok {
			return r.in.elemTerm(r.st, t, idx)
		}
		r.in.fail("element of %s", key(l))
	}
	o, ok := r.st.heap[s.O].(*ListObj)
	if !ok {
		r.in.fail("element of an unknown list")
	}
	p := r.in.indexAddr(r.st, l, idx, o.Elem)
	return r.in.load(r.st, p, o.Elem)
}

// mismatch is a difference between a result and what it has to be.
type mismatch struct{ msg string }

func (r reader) bad(f string, a ...interface{}) { panic(&mismatch{fmt.Sprintf(f, a...)}) }

// same requires got to be the value want.
func (r reader) same(what string, got, want Val) {
	if key(r.in.renorm(r.st, got)) != key(r.in.renorm(r.st, want)) {
		if cg, ok := got.(*Const); ok {
			if cw, ok := want.(*Const); ok && cg.V != nil && cw.V != nil && cg.V.ExactString() == cw.V.ExactString() {
				return
			}
		}
		r.bad("%s is %s, not %s", what, short(got), short(want))
	}
}

func short(v Val) string {
	s := key(v)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// count requires the list to have n elements.
func (r reader) count(what string, l Val, n Val) {
	g := r.len(l)
	if _, ok := g.(*Top); ok {
		r.bad("the number of %s is not determined", what)
	}
	if !r.in.compare(r.st, token.EQL, g, n) {
		r.bad("there are %s %s, not %s", short(g), what, short(n))
	}
}

func (r reader) text(w *pworld, n *Term) Val { return w.t.text(r.in, r.st, n) }

// compare checks the results of all successful outcomes of a world.
func (c *vctx) result(w *pworld, rule string, check func(r reader, schema Val)) {
	c.job(func() {
		vs, in := c.parseRun(w)
		if in == nil {
			return
		}
		c.rep.add("tree_scenarios", 1)
		n := 0
		for _, v := range vs {
			con := w.name + ": " + c.parseAnchor(in)
			if c.rep.found() >= enough && !c.only {
				return
			}
			if v.o.Kind != oRet {
				c.rep.viol(rule, con, "the call "+okind(v.o), trailOf(v))
				continue
			}
			if !v.nilErr {
				c.rep.viol(rule, con, "the source is refused: "+short(v.err), trailOf(v))
				continue
			}
			n++
			res := v.o.V
			if t, ok := res.(*Tuple); ok {
				res = t.V[0]
			}
			st := v.o.St
			depth := len(st.frames)
			for _, o := range in.tryUntil(st, func(s *State) (outs []Outcome) {
				defer func() {
					if x := recover(); x != nil {
						m, ok := x.(*mismatch)
						if !ok {
							panic(x)
						}
						s.frames = s.frames[:depth]
						outs = []Outcome{{oRet, strV(m.msg), s}}
					}
				}()
				if os.Getenv("KF_DUMP") != "" {
					fmt.Println("RESULT", w.name, dump(s, res))
				}
				check(reader{in, s}, res)
				return []Outcome{{oRet, nil, s}}
			}, func(o Outcome) bool { return o.V != nil }) {
				c.rep.add("results_checked", 1)
				if o.Kind != oRet {
					c.rep.viol(rule, con, "the result lacks a part: "+short(o.V), o.St.trail.list(60))
				} else if m, ok := constStr(o.V); ok {
					c.rep.viol(rule, con, m, o.St.trail.list(60))
				}
			}
		}
		for u := range in.undecided {
			c.rep.undecided("%s: %s", w.name, u)
		}
		if n == 0 {
			c.rep.undecided("%s: no successful outcome", w.name)
		}
	})
}

// ---- C16 ----

// feasible tells whether the world can be explored within its limit.
func (c *vctx) feasible(w *pworld) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(*budgetErr); !is {
				panic(x)
			}
			ok = false
		}
	}()
	_, in := w.run(c.base)
	return len(in.undecided) == 0
}

// holds requires text to be made of the tokens in order.
func (r reader) holds(text Val, toks []Val, fused, alone bool, lead string) {
	for {
		t, ok := text.(*Term)
		if !ok || t.Op != "strings.TrimSpace" {
			break
		}
		text = t.A[0]
	}
	if _, ok := text.(*Top); ok {
		r.bad("the text of the statement is not determined")
	}
	type unit struct {
		c byte
		t *Term
	}
	units := func(v Val) []unit {
		var us []unit
		for _, p := range parts(v) {
			if s, ok := constStr(p); ok {
				for i := 0; i < len(s); i++ {
					us = append(us, unit{c: s[i]})
				}
			} else if t, ok := p.(*Term); ok {
				us = append(us, unit{t: t})
			} else {
				r.bad("the text of the statement is not determined: %s", key(v))
			}
		}
		return us
	}
	us := units(text)
	eq := func(a, b unit) bool {
		return a.c == b.c && (a.t == nil) == (b.t == nil) && (a.t == nil || a.t.key == b.t.key)
	}
	space := func(u unit) bool { return u.t == nil && (u.c == ' ' || u.c == '\n' || u.c == '\t') }
	other := func(u unit) bool {
		return space(u) || !alone && (u.t == nil && lead != "" && u.c == lead[0] || u.t != nil && (u.t.Op == "any" || u.t.Op == "word"))
	}
	match := func(i int) (int, bool) { // the tokens stand at i
		for k, t := range toks {
			if k > 0 {
				n := 0
				for i < len(us) && space(us[i]) {
					i, n = i+1, n+1
				}
				if n == 0 && fused {
					return 0, false
				}
			}
			for _, u := range units(t) {
				if i >= len(us) || !eq(us[i], u) {
					return 0, false
				}
				i++
			}
		}
		return i, true
	}
	for i := range us {
		if j, ok := match(i); ok {
			for _, u := range append(append([]unit(nil), us[:i]...), us[j:]...) {
				if !other(u) {
					r.bad("the text %s has more in it than the tokens of the statement", short(text))
				}
			}
			return
		}
		if !other(us[i]) {
			break
		}
	}
	if fused {
		r.bad("the text %s does not keep apart %s and %s", short(text), short(toks[0]), short(toks[1]))
	}
	var ts []string
	for _, t := range toks {
		ts = append(ts, short(t))
	}
	r.bad("the text %s lacks %s", short(text), strings.Join(ts, " followed by "))
}

func checkC16(c *vctx) {
	c.rep.rule("for every two neighbouring tokens the grammar allows in a statement (texts with every combination of first and last character kinds, arbitrary middle), whatever tokens surround them and whatever hidden tokens separate them, the statement in the schema contains the two in order, separated exactly where the published tokenizer would read them as something else")
	c.usedQueries()
	c.tokenTexts()
	c.flush()
	c.rep.minimum("results_checked", 100)
}

func (c *vctx) tokenTexts() {
	inMode := func(w *pworld) {
		if c.mode != 0 {
			w.mode, w.direct = c.mode, c.mode == 1
		}
	}
	l, err := newLexer()
	if err != nil {
		c.rep.undecided("%v", err)
		return
	}
	g, err := readInterp("KuneiformParser.interp")
	if err != nil {
		c.rep.undecided("%v", err)
		return
	}
	sps, missing := l.spacings(g, "action_stmt")
	for _, m := range missing {
		c.rep.undecided("no text found for token %s", m)
	}
	// statements of any length, if the analysis can follow them
	bounded := false
	if len(sps) > 0 {
		w := newPWorld(c.p, "probe")
		w.lead, w.steps = "p", 60000
		inMode(w)
		w.tokenWorld(sps[0], false, false)
		bounded = !c.feasible(w)
	}
	if bounded {
		c.rep.add("bounded_to_six_tokens", 1)
	}
	seen := map[string]bool{}
	for _, sp := range sps {
		if c.rep.tier != "thorough" {
			k := class(sp.a[0]) + class(sp.a[len(sp.a)-1]) + class(sp.b[0])
			if sp.fused {
				k += one(sp.a) + one(sp.b) + class(sp.b[len(sp.b)-1])
			}
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		leads := []string{"", "p"}
		if c.rep.tier == "thorough" {
			leads = []string{"", "p", "$", "1", "?"}
		}
		for _, lead := range leads {
			outside := lead == ""
			sp := sp
			around := "inside the statement"
			if outside {
				around = "outside the statement"
			} else {
				around += ", starting with " + lead
			}
			if lead != "" && (sp.a == lead || sp.b == lead) {
				continue
			}
			w := newPWorld(c.p, fmt.Sprintf("neighbours like %q %q (the other tokens %s)", sp.a, sp.b, around))
			inMode(w)
			w.lead = lead
			w.bounded = bounded && !outside
			w.tokenWorld(sp, false, outside)
			if sp.fused {
				c.rep.add("pairs_needing_space", 1)
			} else {
				c.rep.add("pairs_not_needing_space", 1)
			}
			out := outside
			c.result(w, "statement-tokens", func(r reader, s Val) {
				al := r.field(s, "Actions")
				r.count("actions", al, intV(1))
				l := r.field(r.at(al, intV(0)), "Statements")
				r.count("statements", l, intV(1))
				r.holds(r.at(l, intV(0)), w.spelt, sp.fused, out, w.lead)
			})
		}
	}
	{
		w := newPWorld(c.p, "a statement of one token")
		inMode(w)
		w.tokenWorld(spacing{"aZ", "b", false}, true, true)
		c.result(w, "statement-tokens", func(r reader, s Val) {
			l := r.field(r.at(r.field(s, "Actions"), intV(0)), "Statements")
			r.holds(r.at(l, intV(0)), w.spelt[:1], false, true, "")
		})
	}
}

// dump shows a value with everything it refers to (for debugging).
func dump(st *State, v Val) string {
	s := key(v)
	for _, id := range sortedIDs(reachable(st, v)) {
		switch o := st.heap[id].(type) {
		case *Cell:
			s += fmt.Sprintf("\n   &%d = %s", id, key(o.V))
		case *ListObj:
			s += fmt.Sprintf("\n   list%d len %s", id, key(o.Len))
			for _, e := range o.At {
				s += fmt.Sprintf(" [%s]=%s", key(e.I), key(e.V))
			}
			if o.Rest != nil {
				s += " rest " + key(o.Rest)
			}
		}
	}
	return s
}

func sortedIDs(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
