package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- C05 (validator part) ----

func checkC05v(c *vctx) {
	c.rep.rule("for every schema in which a column has two attributes of one type, a foreign key two effects for one trigger, or a call two results for one variable (positions and surroundings arbitrary), every path of the validator ends in an error")
	{
		w, s := c.world("two attributes of one column of one type")
		tl := w.f(s, "Tables")
		w.lst(tl, 1)
		cl := w.f(w.el(tl, 1), "Columns")
		w.lst(cl, 1)
		l := w.f(w.el(cl, 1), "Attributes")
		w.lst(l, 2)
		a, b := w.f(w.el(l, 1), "Type"), w.f(w.el(l, 2), "Type")
		w.same(a, b)
		w.follow(a, "Attribute.Type")
		c.mustReject(w, "once-attribute")
	}
	{
		w, s := c.world("two effects of one foreign key for one trigger")
		tl := w.f(s, "Tables")
		w.lst(tl, 1)
		fl := w.f(w.el(tl, 1), "ForeignKeys")
		w.lst(fl, 1)
		fk := w.f(w.el(fl, 1), "Actions")
		w.lst(fk, 2)
		a, b := w.fkOn(w.el(fk, 1)), w.fkOn(w.el(fk, 2))
		w.same(a, b)
		w.follow(a, "ForeignKeyAction.On")
		c.mustReject(w, "once-fk-action")
	}
	{
		w, s := c.world("two results of one call assigned to one variable")
		al := w.f(s, "Actions")
		w.lst(al, 1)
		sl := w.f(w.el(al, 1), "Statements")
		w.lst(sl, 1)
		st := w.el(sl, 1)
		w.kind(st, "ExtensionCallStmt")
		call := w.as(w.parsed(st), kwAct, "ExtensionCallStmt")
		w.declared(s, "ExtensionCallStmt", call)
		rl := w.f(call, "Receivers")
		w.lst(rl, 2)
		w.same(w.el(rl, 1), w.el(rl, 2))
		w.follow(w.el(rl, 1), varNames...)
		w.narrow = true
		c.mustReject(w, "once-receiver")
	}
	c.refusals("once-modifier", false)
	c.flush()
	c.rep.minimum("reject_scenarios", 27)
}

func (w *world) fkOn(a *Term) *Term { return w.f(a, "On") }

// ---- C06 ----

func checkC06(c *vctx) {
	c.rep.rule("for every schema in which an index column, a foreign key's child column, parent table or parent column is not declared (whatever else bears that name), every path of the validator ends in an error")
	{
		w, s := c.world("an index column that is no column of its table")
		tl := w.f(s, "Tables")
		w.lst(tl, 1)
		t := w.el(tl, 1)
		il := w.f(t, "Indexes")
		w.lst(il, 1)
		l := w.f(w.el(il, 1), "Columns")
		w.lst(l, 1)
		cols := w.f(t, "Columns")
		x := w.el(l, 1)
		w.never(x, func(in *Interp, st *State, y Val) bool { return isElemField(y, "Name", cols) })
		w.follow(x, columnNames...)
		c.mustReject(w, "index-column")
	}
	{
		w, s := c.world("a child column that is no column of its table")
		tl := w.f(s, "Tables")
		w.lst(tl, 1)
		t := w.el(tl, 1)
		fl := w.f(t, "ForeignKeys")
		w.lst(fl, 1)
		l := w.f(w.el(fl, 1), "ChildKeys")
		w.lst(l, 1)
		cols := w.f(t, "Columns")
		x := w.el(l, 1)
		w.never(x, func(in *Interp, st *State, y Val) bool { return isElemField(y, "Name", cols) })
		w.follow(x, columnNames...)
		w.follow(w.f(t, "Name"), tableNames...)
		w.distinctNames(tl, w.f(t, "Name"))
		c.mustReject(w, "fk-child-column")
	}
	{
		w, s := c.world("a parent table that is not declared")
		tl := w.f(s, "Tables")
		w.lst(tl, 1)
		t := w.el(tl, 1)
		fl := w.f(t, "ForeignKeys")
		w.lst(fl, 1)
		x := w.f(w.el(fl, 1), "ParentTable")
		w.never(x, func(in *Interp, st *State, y Val) bool { return isElemField(y, "Name", tl) })
		w.follow(x, tableNames...)
		c.mustReject(w, "fk-parent-table")
	}
	for _, v := range []struct {
		n, child, parent int
		what             string
	}{{2, 2, 1, "earlier"}, {2, 1, 2, "later"}, {1, 1, 1, "same"}} {
		w, s := c.world("a parent column that is no column of the parent table (" + v.what + " table)")
		tl := w.f(s, "Tables")
		w.lst(tl, v.n)
		t, p := w.el(tl, v.child), w.el(tl, v.parent)
		fl := w.f(t, "ForeignKeys")
		w.lst(fl, 1)
		pt := w.f(w.el(fl, 1), "ParentTable")
		w.same(w.f(p, "Name"), pt)
		l := w.f(w.el(fl, 1), "ParentKeys")
		w.lst(l, 1)
		x := w.el(l, 1)
		cols := w.f(p, "Columns")
		w.never(x, func(in *Interp, st *State, y Val) bool { return isElemField(y, "Name", cols) })
		w.follow(x, columnNames...)
		w.follow(w.f(p, "Name"), tableNames...)
		w.distinctNames(tl, w.f(p, "Name"))
		c.mustReject(w, "fk-parent-column")
	}
	c.flush()
	c.rep.minimum("reject_scenarios", 48)
}

// distinctNames: the names of list l differ from element name x (a schema in
// which they do not is dealt with by C04).
func (w *world) distinctNames(l *Term, x *Term) {
	w.rule(func(in *Interp, st *State, t *Term) Tri {
		if t.Op != "eq" || len(t.A) != 2 {
			return Maybe
		}
		for i := 0; i < 2; i++ {
			if key(t.A[i]) == x.key && isElemField(t.A[1-i], "Name", l) && key(t.A[1-i]) != x.key {
				return No
			}
		}
		return Maybe
	})
}

// ---- C07 ----

// call fixes action 1, statement 1 to a call of the given kind and returns
// the action, the statement text and the call.
func (w *world) callStmt(s *Term, kind string) (*Term, *Term, *Term) {
	al := w.f(s, "Actions")
	w.lst(al, 1)
	a := w.el(al, 1)
	sl := w.f(a, "Statements")
	w.lst(sl, 1)
	st := w.el(sl, 1)
	w.kind(st, kind)
	return a, st, w.as(w.parsed(st), kwAct, kind)
}

// declared makes the called action or extension a declared one.
func (w *world) declared(s *Term, kind string, call *Term) {
	if kind == "ActionCallStmt" {
		al := w.f(s, "Actions")
		w.same(w.f(w.el(al, 1), "Name"), w.f(call, "Method"))
		w.follow(w.f(w.el(al, 1), "Name"), actionNames...)
		w.distinctNames(al, w.f(w.el(al, 1), "Name"))
		return
	}
	xl := w.f(s, "Extensions")
	w.lst(xl, 1)
	e := w.el(xl, 1)
	w.set(w.f(e, "Alias"), strV(""))
	x := w.f(e, "Name")
	w.nonEmpty(x)
	w.same(x, w.f(call, "Extension"))
	w.follow(x, extNames...)
	w.rule(func(in *Interp, st *State, t *Term) Tri {
		if t.Op == "eq" && len(t.A) == 2 {
			for i := 0; i < 2; i++ {
				if key(t.A[i]) == x.key && key(t.A[1-i]) != x.key && effective(in, st, t.A[1-i], xl) == Yes {
					return No
				}
			}
		}
		return Maybe
	})
}

// effective: y is the name an extension of list l goes by.
func effective(in *Interp, st *State, y Val, l *Term) Tri {
	t, ok := y.(*Term)
	if !ok {
		return Maybe
	}
	if isElemField(y, "Alias", l) {
		return Yes // when it is not empty
	}
	if isElemField(y, "Name", l) {
		e := t.A[0].(*Term)
		// the name counts only without an alias
		for _, a := range st.atoms {
			if a.T.Op == "eq" && len(a.T.A) == 2 {
				for i := 0; i < 2; i++ {
					if s, ok := constStr(a.T.A[i]); ok && s == "" {
						if z, ok := a.T.A[1-i].(*Term); ok && z.Op == ".Alias" && key(z.A[0]) == e.key {
							return triOf(a.V)
						}
					}
				}
			}
		}
	}
	return Maybe
}

func checkC07(c *vctx) {
	c.rep.rule("for every schema with a call of an undeclared action or extension, or with a variable out of scope anywhere inside a call argument, every path of the validator ends in an error")
	{
		w, s := c.world("a call of an action that is not declared")
		_, _, call := w.callStmt(s, "ActionCallStmt")
		x := w.f(call, "Method")
		al := w.f(s, "Actions")
		w.never(x, func(in *Interp, st *State, y Val) bool { return isElemField(y, "Name", al) })
		w.follow(x, actionNames...)
		c.mustReject(w, "call-action")
	}
	{
		w, s := c.world("a call of an extension that is not declared")
		_, _, call := w.callStmt(s, "ExtensionCallStmt")
		x := w.f(call, "Extension")
		xl := w.f(s, "Extensions")
		w.rule(func(in *Interp, st *State, t *Term) Tri {
			if t.Op == "eq" && len(t.A) == 2 {
				for i := 0; i < 2; i++ {
					if key(t.A[i]) == x.key && effective(in, st, t.A[1-i], xl) == Yes {
						return No
					}
				}
			}
			return Maybe
		})
		w.nonEmpty(x)
		w.follow(x, extNames...)
		c.mustReject(w, "call-extension")
	}
	// an aliased extension is not in scope under its own name
	{
		w, s := c.world("a call of an aliased extension by its original name")
		_, _, call := w.callStmt(s, "ExtensionCallStmt")
		x := w.f(call, "Extension")
		xl := w.f(s, "Extensions")
		w.lst(xl, 1)
		e := w.el(xl, 1)
		w.nonEmpty(w.f(e, "Alias"))
		w.same(w.f(e, "Name"), x)
		w.rule(func(in *Interp, st *State, t *Term) Tri {
			if t.Op == "eq" && len(t.A) == 2 {
				for i := 0; i < 2; i++ {
					if key(t.A[i]) == key(w.f(e, "Name")) && effective(in, st, t.A[1-i], xl) == Yes {
						return No
					}
				}
			}
			return Maybe
		})
		w.nonEmpty(w.f(e, "Name"))
		w.follow(w.f(e, "Name"), extNames...)
		c.mustReject(w, "call-extension-alias")
	}
	for _, kind := range []string{"ActionCallStmt", "ExtensionCallStmt"} {
		for _, sig := range []string{"$", "@"} {
			w, s := c.world(fmt.Sprintf("an argument of %s with a variable %s… out of scope", kind, sig))
			a, stm, call := w.callStmt(s, kind)
			w.declared(s, kind, call)
			w.narrow = kind == "ExtensionCallStmt"
			args := w.f(call, "Args")
			w.lst(args, 1)
			w.badArg = w.el(args, 1)
			bad := rawTerm("badparam", types.Typ[types.String])
			w.badParam = bad
			w.first[bad.key] = sig
			w.follow(bad, varNames...)
			inputs := w.f(a, "Inputs")
			sl := w.f(a, "Statements")
			w.never(bad, func(in *Interp, st *State, y Val) bool {
				if s, ok := constStr(y); ok {
					return sig == "@" && s == "@caller" || !strings.HasPrefix(s, sig)
				}
				if isElemField(y, "", inputs) {
					return true
				}
				// results of earlier statements of this action
				t, ok := y.(*Term)
				if !ok || t.Op != "elem" {
					return false
				}
				rl, ok := t.A[0].(*Term)
				if !ok || rl.Op != ".Receivers" {
					return false
				}
				e := stmtOf(rl)
				if e == nil || e.Op != "elem" || key(e.A[0]) != sl.key {
					return false
				}
				if key(e) == stm.key {
					return false // results of the statement itself come later
				}
				m := in.regionMask(st, e.A[1], sl)
				return m&^(1<<rS0) == 0
			})
			c.mustReject(w, "call-argument-"+map[string]string{"$": "variable", "@": "block-variable"}[sig])
		}
	}
	c.flush()
	c.rep.minimum("reject_scenarios", 63)
}

// stmtOf is the statement text whose call has the receivers rl.
func stmtOf(t *Term) *Term {
	for t != nil {
		if strings.HasSuffix(t.Op, ".Parse.0") && len(t.A) > 0 {
			x, _ := t.A[0].(*Term)
			return x
		}
		if len(t.A) == 0 {
			return nil
		}
		t, _ = t.A[0].(*Term)
	}
	return nil
}

// ---- C08 ----

func checkC08(c *vctx) {
	c.rep.rule("for every schema with an int column carrying a length attribute or a text column carrying a range attribute (positions and surroundings arbitrary), every path of the validator ends in an error")
	for _, v := range []struct{ col, attr string }{{"int", "min_length"}, {"int", "max_length"}, {"text", "min"}, {"text", "max"}} {
		w, s := c.world(v.attr + " on a column of type " + v.col)
		tl := w.f(s, "Tables")
		w.lst(tl, 1)
		cl := w.f(w.el(tl, 1), "Columns")
		w.lst(cl, 1)
		col := w.el(cl, 1)
		l := w.f(col, "Attributes")
		w.lst(l, 1)
		ct, at := w.f(col, "Type"), w.f(w.el(l, 1), "Type")
		w.set(ct, strConst(ct.T, v.col))
		w.set(at, strConst(at.T, v.attr))
		c.mustReject(w, "attribute-fits-"+v.col)
	}
	c.flush()
	c.rep.minimum("reject_scenarios", 32)
}

// ---- C09 ----

func checkC09(c *vctx) {
	c.rep.rule("for every schema with a statement the statement parser rejects, or an SQL statement the SQL parser rejects or cannot render, every path of the validator ends in an error that wraps the parser's own error")
	for _, v := range []struct{ step, what string }{{"Parse", "the statement parser rejects it"}, {"ParseSql", "the SQL parser rejects it"}, {"ToSQL", "it cannot be rendered back"}} {
		w, s := c.world("a statement such that " + v.what)
		al := w.f(s, "Actions")
		w.lst(al, 1)
		sl := w.f(w.el(al, 1), "Statements")
		w.lst(sl, 1)
		st := w.el(sl, 1)
		switch v.step {
		case "Parse":
			w.failing(st, "Parse", true)
		case "ParseSql":
			w.kind(st, "DMLStmt")
			w.failing(st, "ParseSql", true)
		case "ToSQL":
			w.kind(st, "DMLStmt")
			w.failing(st, "ParseSql", false)
			w.failing(st, "ToSQL", true)
		}
		c.mustReject(w, "statement-"+strings.ToLower(v.step))
	}
	c.flush()
	c.rep.minimum("reject_scenarios", 24)
}
