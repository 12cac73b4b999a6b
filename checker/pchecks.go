package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
)

// Checks of the parse entry points.

// parsed splits the outcomes of a parse.
func (c *vctx) parseRun(w *pworld) ([]verdict, *Interp) {
	if f := os.Getenv("KF_WORLD"); f != "" && !strings.Contains(w.name, f) {
		return nil, nil
	}
	outs, in := w.run(c.base)
	c.rep.absorb(w.name, in, outs)
	if len(outs) == 0 {
		c.rep.undecided("%s: no outcome", w.name)
	}
	vs := verdicts(in, outs)
	if c.sigs != nil {
		for _, v := range vs {
			c.sigs.add(c, w, in, v)
		}
	}
	if wholeInput[c.rep.id] {
		for _, v := range vs {
			if e := v.o.St.happened("front"); e != nil {
				m, _ := constStr(e.A[0])
				c.rep.viol("whole-input-is-read", w.name+": "+c.parseAnchor(in), m, trailOf(v))
			}
		}
	}
	return vs, in
}

// sigSet collects, for each situation, the ways a parse can end in it.
type sigSet struct {
	mu sync.Mutex
	m  map[string]map[string][]string
}

func (s *sigSet) add(c *vctx, w *pworld, in *Interp, v verdict) {
	sig := okind(v.o)
	if v.o.Kind == oRet {
		if t, ok := v.o.V.(*Tuple); ok && len(t.V) == 2 {
			switch {
			case in.maybeNil(v.o.St, t.V[0]):
				sig += ", no schema"
			default:
				sig += ", a schema"
			}
		}
		if v.nilErr {
			sig += ", no error"
		} else {
			sig += ", an error recognisable as [" + strings.Join(c.kinds(in, v), ",") + "]"
			for n, x := range map[string]Val{"the validation error": validErr, "the panic value": panicErr} {
				if is(in, v.o.St, v.err, x) {
					sig += " " + n
				}
			}
		}
	}
	k := w.listener + " listener" + strings.TrimPrefix(w.name, w.way)
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.m[k] == nil {
		s.m[k] = map[string][]string{}
	}
	if _, ok := s.m[k][sig]; !ok {
		s.m[k][sig] = append([]string{c.parseAnchor(in)}, trailOf(v)...)
	}
}

// maybeNil tells whether a result is known to be nil.
func (in *Interp) maybeNil(st *State, v Val) bool {
	switch t := v.(type) {
	case nil:
		return true
	case *Const:
		return t.V == nil
	case *Iface:
		return in.maybeNil(st, t.V)
	}
	return false
}

// wholeInput lists the properties that speak of the source as given.
var wholeInput = map[string]bool{"C01": true, "C12": true, "C16": true, "C25": true, "C27": true}

func is(in *Interp, st *State, err, target Val) bool {
	for _, x := range in.wraps(st, err) {
		if key(x) == key(target) {
			return true
		}
	}
	return false
}

func (c *vctx) parseAnchor(in *Interp) string {
	m := map[string]bool{}
	for f := range in.fnsSeen {
		p := fnPkgPath(f)
		if strings.HasPrefix(p, modPath+"/kfparser") || strings.HasPrefix(p, modPath+"/utils") {
			if f.Synthetic == "" && f.Name() != "init" {
				m[f.Name()] = true
			}
		}
	}
	return strings.Join(sortedKeys(m), ",")
}

func trailOf(v verdict) []string { return v.o.St.trail.list(60) }

func okind(o Outcome) string {
	switch o.Kind {
	case oPanic:
		return "panics"
	case oExit:
		return "ends the process"
	}
	return "returns"
}

// recogWorlds runs f for every way of invoking the parser.
func (c *vctx) each(f func(pw parseWay, mk func(what string) *pworld)) {
	for _, pw := range ways(c) {
		pw := pw
		if c.only && pw.trace != c.onlyTrace {
			continue
		}
		f(pw, func(what string) *pworld {
			w := newPWorld(c.p, pw.name+": "+what)
			w.way = pw.name
			w.direct, w.listener, w.mode = pw.direct, pw.listener, pw.mode
			return w
		})
	}
}

func checkC01(c *vctx) {
	c.rep.rule("whichever way parsing is invoked and whichever errors the tokenizer and the grammar report, every path of the parse call returns a non-nil error that wraps utils.ErrInvalidSyntax")
	sent := sentinel(c.base, "utils", "ErrInvalidSyntax")
	if sent == nil {
		c.rep.undecided("utils.ErrInvalidSyntax not found")
		return
	}
	c.recogniser()
	c.syntaxErrors(sent)
	c.flush()
	c.rep.minimum("parse_scenarios", 40)
}

func (c *vctx) syntaxErrors(sent Val) {
	c.each(func(pw parseWay, mk func(string) *pworld) {
		for _, n := range [][2]int{{1, 0}, {0, 1}, {1, 1}, {2, 0}, {0, 2}, {2, 2}} {
			n := n
			c.job(func() {
				w := mk(fmt.Sprintf("%d tokenizer and %d grammar errors", n[0], n[1]))
				w.lexErr, w.parErr = n[0], n[1]
				vs, in := c.parseRun(w)
				c.rep.add("parse_scenarios", 1)
				for _, v := range vs {
					switch {
					case v.o.Kind != oRet:
						c.rep.viol("syntax-error-lost", w.name+": "+c.parseAnchor(in), "the call "+okind(v.o)+" instead of returning the error", trailOf(v))
					case v.nilErr:
						c.rep.viol("syntax-error-lost", w.name+": "+c.parseAnchor(in), "the call reports success", trailOf(v))
					case !is(in, v.o.St, v.err, sent):
						c.rep.viol("syntax-error-unrecognisable", w.name+": "+c.parseAnchor(in), "the returned error does not wrap utils.ErrInvalidSyntax: "+key(v.err), trailOf(v))
					}
					c.rep.add("outcomes_checked", 1)
				}
			})
		}
	})
}

// everyRule lists the grammar rules nodes are made by.
func everyRule(w *pworld) []string {
	if w.t == nil {
		return nil
	}
	return w.t.g.Rules
}

func checkC02(c *vctx) {
	c.rep.rule("for every way of invoking the parser, every step (recognition, conversion of a node of each kind, validation) and every kind of panic value, every path of the call returns to the caller with a non-nil error, wrapping the panic value when that was an error; no path starts a goroutine or ends the process")
	c.panics()
	c.flush()
	c.rep.minimum("parse_scenarios", 300)
	c.rep.minimum("panicking_paths", 300)
}

func (c *vctx) panics() {
	c.each(func(pw parseWay, mk func(string) *pworld) {
		check := func(w *pworld, kind string) {
			w.err = nil
			vs, in := c.parseRun(w)
			c.rep.add("parse_scenarios", 1)
			for _, v := range vs {
				con := w.name + ": " + c.parseAnchor(in)
				for _, e := range v.o.St.events {
					if t, ok := e.(*Term); ok && t.Op == "go" {
						c.rep.viol("background-task", con, "a goroutine is started at "+key(t.A[0]), trailOf(v))
					}
				}
				if v.o.Kind != oRet {
					c.rep.viol("panic-escapes", con, "the call "+okind(v.o), trailOf(v))
					continue
				}
				if v.o.St.happened("failed") == nil {
					continue
				}
				c.rep.add("panicking_paths", 1)
				switch {
				case v.nilErr:
					c.rep.viol("panic-swallowed", con, "the call reports success although a step failed", trailOf(v))
				case kind == panicError && !is(in, v.o.St, v.err, panicErr):
					c.rep.viol("panic-error-lost", con, "the error that was the panic value cannot be recognised in "+key(v.err), trailOf(v))
				}
			}
		}
		for _, k := range panicKinds {
			k := k
			c.job(func() {
				w := mk("recognition " + k)
				w.recog = k
				check(w, k)
			})
			c.job(func() {
				w := mk("recognition " + k + " after a syntax error")
				w.recog, w.parErr = k, 1
				check(w, "")
			})
			c.job(func() {
				w := mk("validation " + k)
				w.valid = k
				check(w, k)
			})
			if pw.listener == "own" || pw.mode == 0 {
				continue // conversion does not see the listener
			}
			for _, r := range everyRule(newPWorld(c.p, "")) {
				r, gs := r, groupsOf(r)
				if c.rep.tier != "thorough" {
					gs = gs[:1]
				}
				for _, g := range gs {
					g := g
					c.job(func() {
						w := mk("conversion of a " + r + " " + k + ", any number of " + g)
						w.group(g)
						w.onKid = func(in *Interp, st *State, n *Term, rule string) []Outcome {
							if w.t.ruleOf(n.T) != r {
								return nil
							}
							return w.stepEnd(in, st, k, "conversion of "+r)
						}
						check(w, k)
					})
				}
			}
		}
	})
}

func checkC03(c *vctx) {
	c.rep.rule("on every path on which a parse call reports success its result is non-nil and is the value whose whole-schema validation ended without error, by a validator made during this call; nothing in it is changed afterwards; no state that outlives the call is changed; when validation fails its error is returned and recognisable")
	c.validated()
	c.flush()
	c.rep.minimum("parse_scenarios", 30)
	c.rep.minimum("successes_checked", 9)
	c.rep.minimum("refusals_checked", 9)
}

func (c *vctx) validated() {
	c.each(func(pw parseWay, mk func(string) *pworld) {
		for _, free := range append([]string{""}, groupNames()...) {
			for _, valid := range []string{okStep, retError} {
				free, valid := free, valid
				c.job(func() {
					what := "a source"
					if free != "" {
						what = "a source with any number of " + free
					}
					if valid == okStep {
						what += ", validation succeeds"
					} else {
						what += ", validation fails"
					}
					w := mk(what)
					w.valid = valid
					w.group(free)
					vs, in := c.parseRun(w)
					c.rep.add("parse_scenarios", 1)
					for _, v := range vs {
						c.validated1(w, in, v)
					}
				})
			}
		}
	})
}

func (c *vctx) validated1(w *pworld, in *Interp, v verdict) {
	con := w.name + ": " + c.parseAnchor(in)
	st := v.o.St
	if g := st.happened("global"); g != nil {
		c.rep.viol("history", con, "the call changes state that outlives it at "+key(g.A[0]), trailOf(v))
	}
	if v.o.Kind != oRet {
		c.rep.viol("no-return", con, "the call "+okind(v.o), trailOf(v))
		return
	}
	ev := st.happened("validated")
	if !v.nilErr {
		if ev != nil && w.valid == retError {
			c.rep.add("refusals_checked", 1)
			if !is(in, st, v.err, validErr) {
				c.rep.viol("validation-error-lost", con, "the validation error cannot be recognised in "+key(v.err), trailOf(v))
			}
		}
		return
	}
	c.rep.add("successes_checked", 1)
	if ev == nil {
		c.rep.viol("not-validated", con, "success without whole-schema validation", trailOf(v))
		return
	}
	if w.valid == retError {
		c.rep.viol("validation-error-lost", con, "success although validation failed", trailOf(v))
		return
	}
	if s := st.happened("sharedctx"); s != nil {
		c.rep.viol("shared-validator", con, "the validator is not new: "+key(s.A[0]), trailOf(v))
	}
	if st.happened("changed") != nil {
		c.rep.viol("changed-after-validation", con, "the validated schema is changed after validation", trailOf(v))
	}
	res := v.o.V
	if t, ok := res.(*Tuple); ok {
		res = t.V[0]
	}
	i, ok := res.(*Iface)
	if !ok {
		c.rep.viol("wrong-result", con, "the result is "+key(res)+", not the validated schema", trailOf(v))
		return
	}
	if key(i.V) == key(ev.A[1]) {
		return
	}
	// a copy of the validated schema will do
	p1, ok1 := i.V.(*Ptr)
	p2, ok2 := ev.A[1].(*Ptr)
	if ok1 && ok2 && len(p1.Path) == 0 && len(p2.Path) == 0 {
		c1, ok1 := st.heap[p1.O].(*Cell)
		c2, ok2 := st.heap[p2.O].(*Cell)
		if ok1 && ok2 && key(c1.V) == key(c2.V) && !hasTop(c1.V) {
			return
		}
	}
	c.rep.viol("wrong-result", con, "the result "+key(res)+" is not the validated schema "+key(ev.A[1]), trailOf(v))
}

func groupNames() []string {
	var r []string
	for _, g := range treeGroups {
		r = append(r, g.name)
	}
	return r
}

// groupsOf lists the groups in which nodes of the rule occur.
func groupsOf(rule string) []string {
	var r []string
	for _, g := range treeGroups {
		for _, l := range g.lists {
			if strings.HasSuffix(l, "/"+rule) {
				r = append(r, g.name)
				break
			}
		}
	}
	if r == nil {
		r = []string{"extensions"}
		switch {
		case strings.HasPrefix(rule, "col"):
			r = []string{"columns"}
		case strings.HasPrefix(rule, "tab"):
			r = []string{"columns", "foreign keys"}
		case strings.HasPrefix(rule, "index"):
			r = []string{"indexes"}
		case strings.HasPrefix(rule, "for"):
			r = []string{"foreign keys"}
		case strings.HasPrefix(rule, "action"), strings.HasPrefix(rule, "param"), strings.HasPrefix(rule, "ann"):
			r = []string{"actions", "statements"}
		}
	}
	return r
}
