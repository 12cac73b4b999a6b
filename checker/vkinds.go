package main

import (
	"fmt"
	"strings"
)

// ---- C11 (validator part): exactly one broken rule, exactly its kind ----

type breakage struct {
	what string
	f    func(k *clean)
	want []string // acceptable kinds; exactly one must match
	own  string   // step of a kwil-db parser whose own error must be wrapped
}

// breakages enumerates the ways to break one rule in a schema of shape sh.
func breakages(p *Program, sh shape) []breakage {
	var bs []breakage
	add := func(want string, f func(k *clean), what string, a ...interface{}) {
		bs = append(bs, breakage{what: fmt.Sprintf(what, a...), f: f, want: strings.Split(want, "|")})
	}
	k0 := newClean(p, "enumeration", sh)
	pairs := func(n int, f func(i, j int)) {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				f(i, j)
			}
		}
	}
	pairs(len(k0.tabs), func(i, j int) {
		add("ErrDuplicateTable", func(k *clean) {
			for _, t := range k.tabs {
				k.w.exact(k.w.f(t.t, "ForeignKeys"), 0)
			}
			k.same(k.tabs[i].name, k.tabs[j].name)
		}, "tables %d and %d have one name", i, j)
	})
	pairs(len(k0.acts), func(i, j int) {
		add("ErrDuplicateAction", func(k *clean) {
			for _, a := range k.acts {
				k.w.exact(k.w.f(a.t, "Statements"), 0)
			}
			k.same(k.acts[i].name, k.acts[j].name)
		}, "actions %d and %d have one name", i, j)
	})
	pairs(len(k0.exts), func(i, j int) {
		add("ErrDuplicateExtension", func(k *clean) { k.same(k.effName(i), k.effName(j)) }, "extensions %d and %d have one name", i, j)
	})
	for t := range k0.tabs {
		ct := k0.tabs[t]
		pairs(len(ct.cols), func(i, j int) {
			add("ErrDuplicateColumn", func(k *clean) { k.same(k.tabs[t].cols[i], k.tabs[t].cols[j]) }, "columns %d and %d of table %d have one name", i, j, t)
		})
		pairs(len(ct.idxs), func(i, j int) {
			add("ErrDuplicateIndex", func(k *clean) {
				k.same(k.w.f(k.tabs[t].idxs[i], "Name"), k.w.f(k.tabs[t].idxs[j], "Name"))
			}, "indexes %d and %d of table %d have one name", i, j, t)
		})
		for j := range ct.cols {
			at := k0.w.f(k0.w.at(k0.w.f(ct.t, "Columns"), j), "Attributes")
			n := k0.w.cfg[at.key].Exact
			attr := func(k *clean, i int) *Term {
				return k.w.f(k.w.at(k.w.f(k.w.at(k.w.f(k.tabs[t].t, "Columns"), j), "Attributes"), i), "Type")
			}
			pairs(n, func(a, b int) {
				add("ErrDuplicateAttribute", func(k *clean) {
					k.w.alias[attr(k, b).key] = k.w.alias[attr(k, a).key]
				}, "attributes %d and %d of column %d of table %d are alike", a, b, j, t)
			})
			for a := 0; a < n; a++ {
				for _, m := range []struct{ col, at string }{{"int", "min_length"}, {"int", "max_length"}, {"text", "min"}, {"text", "max"}} {
					if ty, _ := constStr(k0.w.alias[k0.w.f(k0.w.at(k0.w.f(ct.t, "Columns"), j), "Type").key]); ty != m.col {
						continue
					}
					add("ErrAttributeNotAllow", func(k *clean) {
						x := attr(k, a)
						k.w.set(x, strConst(x.T, m.at))
					}, "attribute %d of column %d (%s) of table %d is %s", a, j, m.col, t, m.at)
				}
			}
		}
		// names that are no column of the table
		noCol := func(k *clean, own int) map[string]*Term {
			m := map[string]*Term{"undeclared": k.other("")}
			if own < len(k.tabs) {
				if len(k.tabs[own].idxs) > 0 {
					m["the name of an index"] = k.w.f(k.tabs[own].idxs[len(k.tabs[own].idxs)-1], "Name")
				}
				m["the name of the table"] = k.tabs[own].name
			}
			for o := range k.tabs {
				if o != own && len(k.tabs[o].cols) > 0 {
					m["a column of another table"] = k.tabs[o].cols[0]
				}
			}
			return m
		}
		for i := range ct.idxs {
			for j := 0; j < sh.idxCol && len(ct.cols) > 0; j++ {
				for _, n := range sortedKeys(noCol(k0, t)) {
					add("ErrColumnNotFound", func(k *clean) {
						k.same(noCol(k, t)[n], k.w.at(k.w.f(k.tabs[t].idxs[i], "Columns"), j))
					}, "column %d of index %d of table %d is %s", j, i, t, n)
				}
			}
		}
		for i := range ct.fks {
			parent := (t + i + sh.at) % sh.tab
			for j := 0; j < 2; j++ {
				for _, n := range sortedKeys(noCol(k0, t)) {
					add("ErrColumnNotFound", func(k *clean) {
						k.same(noCol(k, t)[n], k.w.at(k.w.f(k.tabs[t].fks[i], "ChildKeys"), j))
					}, "child column %d of foreign key %d of table %d is %s", j, i, t, n)
				}
				for _, n := range sortedKeys(noCol(k0, parent)) {
					add("ErrColumnNotFound", func(k *clean) {
						k.same(noCol(k, parent)[n], k.w.at(k.w.f(k.tabs[t].fks[i], "ParentKeys"), j))
					}, "parent column %d of foreign key %d of table %d is %s", j, i, t, n)
				}
			}
			noTab := func(k *clean) map[string]*Term {
				m := map[string]*Term{"undeclared": k.other(""), "the name of a column": k.tabs[t].cols[0]}
				if len(k.acts) > 0 {
					m["the name of an action"] = k.acts[0].name
				}
				return m
			}
			for _, n := range sortedKeys(noTab(k0)) {
				add("ErrTableNotFound", func(k *clean) {
					k.same(noTab(k)[n], k.w.f(k.tabs[t].fks[i], "ParentTable"))
				}, "the parent table of foreign key %d of table %d is %s", i, t, n)
			}
			fa := k0.w.f(ct.fks[i], "Actions")
			pairs(k0.w.cfg[fa.key].Exact, func(a, b int) {
				add("ErrDupFKAction", func(k *clean) {
					l := k.w.f(k.tabs[t].fks[i], "Actions")
					k.w.alias[k.w.f(k.w.at(l, b), "On").key] = k.w.alias[k.w.f(k.w.at(l, a), "On").key]
				}, "effects %d and %d of foreign key %d of table %d are for one trigger", a, b, i, t)
			})
		}
	}
	for a := range k0.acts {
		ca := k0.acts[a]
		pairs(len(ca.ins), func(i, j int) {
			add("ErrDuplicateParam", func(k *clean) { k.same(k.acts[a].ins[i], k.acts[a].ins[j]) }, "parameters %d and %d of action %d have one name", i, j, a)
		})
		for s := range ca.stmts {
			cc := ca.stmts[s]
			own := func(step string) {
				bs = append(bs, breakage{what: fmt.Sprintf("statement %d of action %d: %s fails", s, a, step), own: step,
					f: func(k *clean) {
						rs := k.w.rules
						k.w.rules = nil
						k.w.failing(k.acts[a].stmts[s].stmt, step, true)
						k.w.rules = append(k.w.rules, rs...)
					}})
			}
			own("Parse")
			switch cc.kind {
			case "DMLStmt":
				own("ParseSql")
				own("ToSQL")
				continue
			case "ActionCallStmt":
				no := func(k *clean) map[string]*Term {
					m := map[string]*Term{"undeclared": k.other("")}
					if len(k.tabs) > 0 {
						m["the name of a table"] = k.tabs[0].name
					}
					if len(k.exts) > 0 {
						m["the name of an extension"] = k.effName(0)
					}
					return m
				}
				for n := range no(k0) {
					add("ErrActionNotFound", func(k *clean) {
						k.same(no(k)[n], k.w.f(k.acts[a].stmts[s].call, "Method"))
					}, "the action called by statement %d of action %d is %s", s, a, n)
				}
			case "ExtensionCallStmt":
				no := func(k *clean) map[string]*Term {
					m := map[string]*Term{"undeclared": k.other("")}
					m["the name of an action"] = k.acts[0].name
					for e := range k.exts {
						if k.effName(e).Op == ".Alias" {
							m["the original name of an aliased extension"] = k.w.f(k.exts[e], "Name")
						}
					}
					return m
				}
				for n := range no(k0) {
					add("ErrExtensionNotFound", func(k *clean) {
						k.same(no(k)[n], k.w.f(k.acts[a].stmts[s].call, "Extension"))
					}, "the extension called by statement %d of action %d is %s", s, a, n)
				}
				pairs(len(cc.rcvs), func(i, j int) {
					add("ErrDuplicateVariable", func(k *clean) {
						k.same(k.acts[a].stmts[s].rcvs[i], k.acts[a].stmts[s].rcvs[j])
					}, "results %d and %d of statement %d of action %d go to one variable", i, j, s, a)
				})
			}
			noVar := func(k *clean) map[string]Val {
				m := map[string]Val{"undeclared": k.other("$"), "an unknown block variable": strV("@other")}
				for o := range k.acts {
					if o != a && len(k.acts[o].ins) > 0 {
						m["a parameter of another action"] = k.acts[o].ins[0]
					}
				}
				for o := s; o < len(k.acts[a].stmts); o++ {
					if r := k.acts[a].stmts[o].rcvs; len(r) > 0 {
						m["a result of the statement itself or of a later one"] = r[0]
					}
				}
				for o := range k.acts {
					if o == a {
						continue
					}
					for _, x := range k.acts[o].stmts {
						if len(x.rcvs) > 0 {
							m["a result of another action"] = x.rcvs[0]
						}
					}
				}
				return m
			}
			for i := range cc.args {
				for _, n := range sortedKeys(noVar(k0)) {
					want := "ErrVariableNotFound"
					if n == "an unknown block variable" {
						want = "ErrVariableNotFound|ErrBlockVarNotFound"
					}
					for _, path := range argPaths {
						add(want, func(k *clean) {
							k.badArg(k.acts[a].stmts[s].args[i], path, noVar(k)[n])
						}, "argument %d (%s) of statement %d of action %d is %s", i, strings.Join(path, "/"), s, a, n)
					}
				}
			}
		}
	}
	return bs
}

var argPaths = [][]string{
	{},
	{"ExpressionUnary.0"},
	{"ExpressionArithmetic.0"}, {"ExpressionArithmetic.1"},
	{"ExpressionBinaryComparison.0"}, {"ExpressionBinaryComparison.1"},
	{"ExpressionFunction.0"}, {"ExpressionFunction.1"},
	{"ExpressionUnary.0", "ExpressionFunction.1", "ExpressionArithmetic.0", "ExpressionBinaryComparison.1"},
}

// badArg replaces the argument x by an expression with v at the given place.
func (k *clean) badArg(x *Term, path []string, v Val) {
	rs := k.w.rules
	k.w.rules = nil
	for _, p := range path {
		kind, i, _ := strings.Cut(p, ".")
		k.expr(x, kind)
		for n, y := range k.subs(x, kind) {
			if fmt.Sprint(n) == i {
				x = y
			} else {
				k.expr(y, "ExpressionLiteral")
			}
		}
	}
	k.param(x, v)
	k.w.rules = append(k.w.rules, rs...)
}

// same makes b the same name as a, whatever b was.
func (k *clean) same(a, b *Term) {
	if a != nil && b != nil {
		delete(k.w.alias, b.key)
		k.w.same(a, b)
	}
}

func checkC11v(c *vctx) {
	c.rep.rule("for schemas of fixed shapes in which exactly one rule is broken (every rule, every position), every path of the validator ends in an error that is recognisable as the published kind of that rule and as no other; a statement the kwil-db parsers reject yields their own error")
	n := 0
	for _, i := range []int{2, 3, 4, 8, 9, 10} {
		bs := breakages(c.p, shapes[i])
		for j, b := range bs {
			if c.rep.tier != "thorough" && len(bs) > 400 && j%7 != i%7 && len(b.want) > 0 && strings.Contains(b.want[0], "Variable") {
				continue
			}
			k := c.clean(b.what, i, b.f)
			c.mustKind(k, b)
			n++
		}
	}
	c.refusals("kind", true)
	c.flush()
	c.rep.minimum("kind_scenarios", 700)
}

func (c *vctx) mustKind(k *clean, b breakage) {
	c.job(func() {
		outs, in := k.w.runValidator(c.base)
		c.rep.absorb("", in, outs)
		c.rep.add("kind_scenarios", 1)
		c.rep.addKind(strings.Join(b.want, "|")+b.own, 1)
		if len(outs) == 0 {
			c.rep.undecided("%s: no outcome", k.w.name)
		}
		for _, v := range verdicts(in, outs) {
			at := k.w.name + ": " + c.anchor(in)
			if v.o.Kind != oRet || v.nilErr {
				c.rep.viol("kind", at, "the broken rule is not reported on the path below", v.o.St.trail.list(60))
				continue
			}
			ks := c.kinds(in, v)
			if b.own != "" {
				if len(ks) != 0 {
					c.rep.viol("kind", at, "the statement parser's error is reported as "+strings.Join(ks, ","), v.o.St.trail.list(60))
				} else if !in.wrapsOwn(v.o.St, v.err, b.own) {
					c.rep.viol("kind", at, "the statement parser's own error cannot be recognised in the error returned", v.o.St.trail.list(60))
				}
				continue
			}
			ok := false
			for _, w := range b.want {
				if len(ks) == 1 && ks[0] == w {
					ok = true
				}
			}
			if !ok {
				c.rep.viol("kind", at, fmt.Sprintf("expected %s, the error is recognisable as [%s]", strings.Join(b.want, " or "), strings.Join(ks, ",")), v.o.St.trail.list(60))
			}
		}
	})
}

// wrapsOwn: err wraps the error result of the named parser step.
func (in *Interp) wrapsOwn(st *State, err Val, step string) bool {
	for _, w := range in.wraps(st, err) {
		if t, ok := w.(*Term); ok && t.Op == "errnew" && len(t.A) == 1 {
			if s, ok := constStr(t.A[0]); ok && strings.HasPrefix(s, "error of ") && strings.HasSuffix(s, "."+step) {
				return true
			}
		}
	}
	return false
}
