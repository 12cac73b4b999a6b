package main

import (
	"fmt"
	"go/types"
	"strings"
)

// What the conversion of the parse tree has to yield (C12 to C15).

// idx0 is the position of the child under inspection.
func at(l *Term) *Int { return fidx(l, 1) }

func (r reader) nth(w *pworld, n *Term, rule string, i int) *Term {
	return w.t.node(w.t.kids(n, rule), intV(i))
}

func (r reader) kids(w *pworld, n *Term, rule string) Val { return r.in.lenOf(r.st, w.t.kids(n, rule)) }

// empty requires a list to have no elements.
func (r reader) empty(what string, l Val) { r.count(what, l, intV(0)) }

// absent requires an optional part to have its zero value.
func (r reader) absent(what string, v Val) {
	switch x := v.(type) {
	case *Const:
		if x.V == nil || x.V.ExactString() == `""` || x.V.ExactString() == "false" || x.V.ExactString() == "0" {
			return
		}
	}
	r.bad("%s is %s, although absent from the source", what, short(v))
}

// val reads the value in an interface.
func (r reader) unbox(v Val) Val {
	for {
		i, ok := v.(*Iface)
		if !ok {
			return v
		}
		v = i.V
	}
}

// children of a schema that are empty in a world about another kind
func (r reader) others(w *pworld, s Val, but ...string) {
	skip := strings.Join(but, " ")
	for _, k := range [][2]string{{"Extensions", "extension_directive"}, {"Tables", "table_decl"}} {
		if !strings.Contains(skip, k[0]) {
			r.count(strings.ToLower(k[0]), r.field(s, k[0]), r.kids(w, w.t.root(), k[1]))
		}
	}
	if !strings.Contains(skip, "Actions") {
		r.countActions(w, s)
	}
	dn := w.t.kid(w.t.kid(w.t.root(), "database_directive"), "database_name")
	r.same("the name of the schema", r.field(s, "Name"), r.text(w, dn))
	r.absent("the owner", r.field(s, "Owner"))
}

func (r reader) countActions(w *pworld, s Val) {
	root := w.t.root()
	n := r.kids(w, root, "action_decl")
	if e, ok := r.in.exactOf(r.st, r.kids(w, root, "init_decl")); ok {
		n = r.in.addInt(n, e)
	} else {
		r.in.fail("number of init blocks")
	}
	r.count("actions", r.field(s, "Actions"), n)
}

// names requires list l (of strings) to hold the texts of the children of n.
func (r reader) names(w *pworld, what string, l Val, n *Term, rule string, strip string) {
	kl := w.t.kids(n, rule)
	r.count(what, l, r.in.lenOf(r.st, kl))
	c := r.in.cfg(r.st, kl)
	if c.Focus == 0 {
		for i := 0; i < c.Exact; i++ {
			r.same(fmt.Sprintf("%s #%d", what, i+1), r.at(l, intV(i)), r.stripped(w, w.t.node(kl, intV(i)), strip))
		}
		return
	}
	r.same(what+" element", r.at(l, at(kl)), r.stripped(w, w.t.node(kl, at(kl)), strip))
}

func (r reader) stripped(w *pworld, n *Term, strip string) Val {
	t := r.text(w, n)
	if strip == "" {
		return t
	}
	ps := parts(t)
	if s, ok := constStr(ps[0]); ok && strings.HasPrefix(s, strip) {
		return catOf(append([]Val{strV(s[len(strip):])}, ps[1:]...))
	}
	r.in.fail("text of %s does not start with %s", n.key, strip)
	return nil
}

// declWorld is a source world with one child under inspection.
func (c *vctx) declWorld(mode int, name, group, rule string) (*pworld, *Term) {
	w := newPWorld(c.p, name)
	w.mode = mode
	w.direct = mode == 1
	if w.t == nil {
		return w, nil
	}
	if group != "" {
		w.group(group)
	} else if rule != "" {
		w.around = c.around
		w.pick = picks[c.around%len(picks)]
		w.free["source_unit/"+rule] = true
		w.name += fmt.Sprintf(", others with %d parts of each kind", c.around)
	}
	if rule == "" {
		return w, nil
	}
	return w, w.focus(w.t.root(), rule, 1)
}

func (c *vctx) modes(f func(mode int, suffix string)) {
	for _, m := range c.modeList {
		ks := []int{0, 1}
		if c.rep.tier == "thorough" {
			ks = []int{0, 1, 2}
		}
		if c.only {
			ks = []int{0}
		}
		for _, k := range ks {
			c.around = k
			f(m.v, m.n)
		}
	}
}

// picks are the keywords the declarations around are made of.
var picks = []map[string][]string{
	{"column_type": {"TEXT_"}, "column_constraint": {"UNIQUE_"}, "index_def": {"UNIQUE_"}, "foreign_key_action": {"ACTION_ON_DELETE_", "ACTION_DO_CASCADE_"},
		"action_visibility": {"PUBLIC_"}, "foreign_key_def": {"FOREIGN_KEY_", "REFERENCES_"}, "extension_directive": {"L_BRACE"}, "literal_value": {"STRING_LITERAL"}},
	{"column_type": {"BLOB_"}, "column_constraint": {"DEFAULT_"}, "index_def": {"INDEX_"}, "foreign_key_action": {"ACTION_ON_UPDATE_", "ACTION_DO_SET_NULL_"},
		"action_visibility": {"PRIVATE_"}, "foreign_key_def": {"FOREIGN_KEY_ABBR_", "REFERENCES_ABBR_"}},
	{"column_type": {"INT_"}, "column_constraint": {"MIN_"}, "index_def": {"PRIMARY_"}, "foreign_key_action": {"ACTION_ON_UPDATE_", "ACTION_DO_RESTRICT_"},
		"action_visibility": {"PUBLIC_"}, "foreign_key_def": {"FOREIGN_KEY_", "REFERENCES_ABBR_"}},
}

type modeName struct {
	n string
	v int
}

func (c *vctx) elem(r reader, w *pworld, s Val, list, rule string) Val {
	return r.at(r.field(s, list), at(w.t.kids(w.t.root(), rule)))
}

const ruleDecl = "declaration-carried"

func checkC12(c *vctx) {
	c.rep.rule("for every parse tree the grammar allows (lists of any length, one element of each at an arbitrary position under inspection), each declared part appears in the returned schema at the position it has in the source, with the text it has there; lists have as many elements as declared; absent parts are empty")
	c.modeList = c.plainMode()
	c.declarations()
	c.usedQueries()
	c.flush()
	c.rep.minimum("tree_scenarios", 20)
	c.rep.minimum("results_checked", 40)
}

func (c *vctx) plainMode() []modeName {
	d, ok := modeConst(c.p, "Default")
	if !ok {
		c.rep.undecided("kfparser.Default not found")
	}
	return []modeName{{"", d}}
}

func (c *vctx) declarations() {
	c.modes(func(mode int, sfx string) {
		// all kinds of declarations side by side
		{
			w, _ := c.declWorld(mode, "all declarations"+sfx, "declarations", "")
			root := w.t.root()
			for _, r := range []string{"extension_directive", "table_decl", "action_decl"} {
				w.focus(root, r, 1)
			}
			w.exact(root, "init_decl", 1)
			c.result(w, ruleDecl, func(r reader, s Val) {
				r.others(w, s)
				e := c.elem(r, w, s, "Extensions", "extension_directive")
				r.same("the name of the extension", r.field(e, "Name"), r.text(w, r.nth(w, w.t.focus(w.t.kids(root, "extension_directive"), 1), "extension_name", 0)))
				t := c.elem(r, w, s, "Tables", "table_decl")
				r.same("the name of the table", r.field(t, "Name"), r.text(w, w.t.kid(w.t.focus(w.t.kids(root, "table_decl"), 1), "table_name")))
				a := c.elem(r, w, s, "Actions", "action_decl")
				r.same("the name of the action", r.field(a, "Name"), r.text(w, w.t.kid(w.t.focus(w.t.kids(root, "action_decl"), 1), "action_name")))
			})
		}
		{
			w, _ := c.declWorld(mode, "no declaration"+sfx, "", "")
			c.result(w, ruleDecl, func(r reader, s Val) { r.others(w, s) })
		}
		// extensions
		for _, cfg := range []bool{false, true} {
			w, e := c.declWorld(mode, fmt.Sprintf("an extension (with configuration: %v)%s", cfg, sfx), "", "extension_directive")
			cl := w.t.kid(e, "ext_config_list")
			w.set(e, "ext_config_list", cfg)
			if cfg {
				w.focus(cl, "ext_config", 1)
			}
			cfg := cfg
			c.result(w, ruleDecl, func(r reader, s Val) {
				r.others(w, s)
				x := c.elem(r, w, s, "Extensions", "extension_directive")
				r.same("the name of the extension", r.field(x, "Name"), r.text(w, r.nth(w, e, "extension_name", 0)))
				r.same("the alias of the extension", r.field(x, "Alias"), r.text(w, r.nth(w, e, "extension_name", 1)))
				l := r.field(x, "Config")
				if !cfg {
					r.empty("configuration entries", l)
					return
				}
				kl := w.t.kids(cl, "ext_config")
				r.count("configuration entries", l, r.in.lenOf(r.st, kl))
				g, n := r.at(l, at(kl)), w.t.focus(kl, 1)
				r.same("the name of the configuration entry", r.field(g, "Argument"), r.text(w, w.t.kid(n, "ext_config_name")))
				r.same("the value of the configuration entry", r.field(g, "Value"), r.text(w, w.t.kid(n, "ext_config_value")))
			})
		}
		// columns
		for _, attrs := range []bool{false, true} {
			w, t := c.declWorld(mode, fmt.Sprintf("a column (with attributes: %v)%s", attrs, sfx), "", "table_decl")
			cdl := w.t.kid(t, "column_def_list")
			col := w.focus(cdl, "column_def", 1)
			w.set(w.t.kid(col, "column_type"), "INT_", true)
			if attrs {
				w.set(w.focus(col, "column_constraint", 1), "MAX_", true)
			} else {
				w.exact(col, "column_constraint", 0)
			}
			attrs := attrs
			c.result(w, ruleDecl, func(r reader, s Val) {
				r.others(w, s)
				tb := c.elem(r, w, s, "Tables", "table_decl")
				r.same("the name of the table", r.field(tb, "Name"), r.text(w, w.t.kid(t, "table_name")))
				r.count("indexes", r.field(tb, "Indexes"), r.kids(w, t, "index_def"))
				r.count("foreign keys", r.field(tb, "ForeignKeys"), r.kids(w, t, "foreign_key_def"))
				kl := w.t.kids(cdl, "column_def")
				l := r.field(tb, "Columns")
				r.count("columns", l, r.in.lenOf(r.st, kl))
				cv := r.at(l, at(kl))
				r.same("the name of the column", r.field(cv, "Name"), r.text(w, w.t.kid(col, "column_name")))
				al := r.field(cv, "Attributes")
				if !attrs {
					r.empty("attributes", al)
					return
				}
				akl := w.t.kids(col, "column_constraint")
				r.count("attributes", al, r.in.lenOf(r.st, akl))
				r.attribute(w, r.at(al, at(akl)), w.t.focus(akl, 1), "")
			})
		}
		// indexes
		{
			w, t := c.declWorld(mode, "an index"+sfx, "", "table_decl")
			ix := w.focus(t, "index_def", 1)
			w.set(ix, "INDEX_", true)
			cnl := w.t.kid(ix, "column_name_list")
			w.focus(cnl, "column_name", 1)
			c.result(w, ruleDecl, func(r reader, s Val) {
				r.others(w, s)
				tb := c.elem(r, w, s, "Tables", "table_decl")
				l := r.field(tb, "Indexes")
				kl := w.t.kids(t, "index_def")
				r.count("indexes", l, r.in.lenOf(r.st, kl))
				r.count("foreign keys", r.field(tb, "ForeignKeys"), r.kids(w, t, "foreign_key_def"))
				r.names1(w, tb, t)
				x := r.at(l, at(kl))
				r.same("the name of the index", r.field(x, "Name"), r.stripped(w, w.t.kid(ix, "index_name"), "#"))
				r.names(w, "index columns", r.field(x, "Columns"), cnl, "column_name", "")
			})
		}
		// all parts of a table side by side
		{
			w, t := c.declWorld(mode, "all parts of a table"+sfx, "", "table_decl")
			ix, fk := w.focus(t, "index_def", 1), w.focus(t, "foreign_key_def", 1)
			cl := w.t.kid(t, "column_def_list")
			w.focus(cl, "column_def", 1)
			c.result(w, ruleDecl, func(r reader, s Val) {
				r.others(w, s)
				tb := c.elem(r, w, s, "Tables", "table_decl")
				l := r.field(tb, "Columns")
				r.count("columns", l, r.kids(w, cl, "column_def"))
				kl := w.t.kids(cl, "column_def")
				r.same("the name of the column", r.field(r.at(l, at(kl)), "Name"), r.text(w, w.t.kid(w.t.focus(kl, 1), "column_name")))
				l = r.field(tb, "Indexes")
				r.count("indexes", l, r.kids(w, t, "index_def"))
				r.same("the name of the index", r.field(r.at(l, at(w.t.kids(t, "index_def"))), "Name"), r.stripped(w, w.t.kid(ix, "index_name"), "#"))
				l = r.field(tb, "ForeignKeys")
				r.count("foreign keys", l, r.kids(w, t, "foreign_key_def"))
				r.same("the parent table", r.field(r.at(l, at(w.t.kids(t, "foreign_key_def"))), "ParentTable"), r.text(w, w.t.kid(fk, "table_name")))
			})
		}
		// foreign keys
		for _, side := range []int{0, 1} {
			for _, acts := range []bool{false, true} {
				w, t := c.declWorld(mode, fmt.Sprintf("a foreign key (column list %d, with actions: %v)%s", side+1, acts, sfx), "", "table_decl")
				fk := w.focus(t, "foreign_key_def", 1)
				lists := w.t.kids(fk, "column_name_list")
				for i := 0; i < 2; i++ {
					ln := w.t.node(lists, intV(i))
					if i == side {
						w.focus(ln, "column_name", 1)
					} else {
						w.exact(ln, "column_name", 1+c.around)
					}
				}
				if acts {
					an := w.focus(fk, "foreign_key_action", 1)
					w.set(an, "ACTION_ON_UPDATE_", true)
					w.set(an, "ACTION_DO_SET_DEFAULT_", true)
				} else {
					w.exact(fk, "foreign_key_action", 0)
				}
				acts := acts
				c.result(w, ruleDecl, func(r reader, s Val) {
					r.others(w, s)
					tb := c.elem(r, w, s, "Tables", "table_decl")
					l := r.field(tb, "ForeignKeys")
					kl := w.t.kids(t, "foreign_key_def")
					r.count("foreign keys", l, r.in.lenOf(r.st, kl))
					r.count("indexes", r.field(tb, "Indexes"), r.kids(w, t, "index_def"))
					r.names1(w, tb, t)
					x := r.at(l, at(kl))
					r.names(w, "child columns", r.field(x, "ChildKeys"), w.t.node(lists, intV(0)), "column_name", "")
					r.names(w, "parent columns", r.field(x, "ParentKeys"), w.t.node(lists, intV(1)), "column_name", "")
					r.same("the parent table", r.field(x, "ParentTable"), r.text(w, w.t.kid(fk, "table_name")))
					al := r.field(x, "Actions")
					if !acts {
						r.empty("foreign key actions", al)
						return
					}
					akl := w.t.kids(fk, "foreign_key_action")
					r.count("foreign key actions", al, r.in.lenOf(r.st, akl))
					r.effect(w, r.at(al, at(akl)), w.t.focus(akl, 1))
				})
			}
		}
		c.actionParts(mode, sfx, "nothing else", "annotations", "parameters", "statements")
	})
}

// actionParts requires the named lists of an action to be as written.
func (c *vctx) actionParts(mode int, sfx string, list ...string) {
	for _, part := range list {
		w, a := c.declWorld(mode, "an action with "+part+sfx, "", "action_decl")
		pl := w.t.kid(a, "param_list")
		sl := w.t.kid(a, "action_stmt_list")
		shape := func(n *Term, rule, p string, min int) {
			if p == part {
				w.focus(n, rule, 1)
			} else {
				w.exact(n, rule, max(min, c.around))
			}
		}
		shape(a, "annotation_decl", "annotations", 0)
		shape(pl, "parameter", "parameters", 0)
		shape(sl, "action_stmt", "statements", 1)
		if part == "statements" {
			w.exact(w.t.root(), "init_decl", 0)
		}
		c.result(w, ruleDecl, func(r reader, s Val) {
			r.others(w, s)
			x := c.elem(r, w, s, "Actions", "action_decl")
			r.same("the name of the action", r.field(x, "Name"), r.text(w, w.t.kid(a, "action_name")))
			r.names(w, "annotations", r.field(x, "Annotations"), a, "annotation_decl", "@")
			r.names(w, "parameters", r.field(x, "Inputs"), pl, "parameter", "")
			r.statements(w, r.field(x, "Statements"), sl)
		})
	}
}

// names1 requires the only columns of the table to be the declared ones.
func (r reader) names1(w *pworld, tb Val, t *Term) {
	kl := w.t.kids(w.t.kid(t, "column_def_list"), "column_def")
	r.count("columns", r.field(tb, "Columns"), r.in.lenOf(r.st, kl))
	r.same("the name of the first column", r.path(r.at(r.field(tb, "Columns"), intV(0)), "Name"), r.text(w, w.t.kid(w.t.node(kl, intV(0)), "column_name")))
}

func (r reader) statements(w *pworld, l Val, sl *Term) {
	kl := w.t.kids(sl, "action_stmt")
	r.count("statements", l, r.in.lenOf(r.st, kl))
	var is []Val
	if c := r.in.cfg(r.st, kl); c.Focus > 0 {
		is = []Val{at(kl)}
	} else {
		for k := 0; k < c.Exact; k++ {
			is = append(is, intV(k))
		}
	}
	for _, i := range is {
		r.same("the statement", r.trim(r.at(l, i)), rawTerm("word", strType, w.t.node(kl, i)))
	}
}

func (r reader) trim(v Val) Val {
	for {
		t, ok := v.(*Term)
		if !ok || t.Op != "strings.TrimSpace" {
			return v
		}
		v = t.A[0]
	}
}

type kwConst struct{ tok, val string }

var attrTable = []struct{ tok, val, value string }{
	{"PRIMARY_", "primary_key", ""}, {"NOT_NULL_", "not_null", ""}, {"UNIQUE_", "unique", ""},
	{"DEFAULT_", "default", "literal_value"}, {"MIN_", "min", "number_value"}, {"MAX_", "max", "number_value"},
	{"MIN_LEN_", "min_length", "number_value"}, {"MAX_LEN_", "max_length", "number_value"},
}

// which finds the alternative node n takes on this path.
func (r reader) which(n *Term, toks []string) int {
	for i, t := range toks {
		if r.in.decide(r.st, hasTerm(n, t)) {
			return i
		}
	}
	panic(&infeasible{})
}

func (r reader) attribute(w *pworld, v Val, n *Term, only string) {
	var toks []string
	for _, a := range attrTable {
		toks = append(toks, a.tok)
	}
	a := attrTable[r.which(n, toks)]
	r.same("the kind of the attribute "+a.tok, r.field(v, "Type"), strV(a.val))
	got := r.field(v, "Value")
	if a.value == "" {
		if !isNil(got) {
			r.bad("the attribute %s carries the value %s", a.tok, short(got))
		}
		return
	}
	if isNil(got) {
		r.bad("the attribute %s lacks its value", a.tok)
	}
	if i, ok := got.(*Iface); ok {
		if b, ok := under(i.T).(*types.Basic); !ok || b.Kind() != types.String {
			r.bad("the value of attribute %s is a %s", a.tok, tkey(i.T))
		}
	}
	r.same("the value of attribute "+a.tok, r.unbox(got), r.text(w, w.t.kid(n, a.value)))
}

var onTable = []kwConst{{"ACTION_ON_UPDATE_", "UPDATE"}, {"ACTION_ON_DELETE_", "DELETE"}}
var doTable = []kwConst{{"ACTION_DO_NO_ACTION_", "NO ACTION"}, {"ACTION_DO_CASCADE_", "CASCADE"}, {"ACTION_DO_SET_NULL_", "SET NULL"}, {"ACTION_DO_SET_DEFAULT_", "SET DEFAULT"}, {"ACTION_DO_RESTRICT_", "RESTRICT"}}
var typeTable = []kwConst{{"INT_", "int"}, {"TEXT_", "text"}, {"BLOB_", "blob"}}
var indexTable = []kwConst{{"PRIMARY_", "primary"}, {"UNIQUE_", "unique_btree"}, {"INDEX_", "btree"}}

func (r reader) keyword(what string, got Val, n *Term, table []kwConst) {
	var toks []string
	for _, a := range table {
		toks = append(toks, a.tok)
	}
	k := table[r.which(n, toks)]
	r.same(what+" for "+k.tok, got, strV(k.val))
}

func (r reader) effect(w *pworld, v Val, n *Term) {
	r.keyword("the trigger", r.field(v, "On"), n, onTable)
	r.keyword("the effect", r.field(v, "Do"), n, doTable)
}

// ---- C13 ----

func checkC13(c *vctx) {
	c.rep.rule("for each keyword alternative the grammar allows for a column type, column attribute, index type, foreign key trigger and foreign key effect, at any position among other declarations, the schema holds the documented constant; attributes hold the text of their value exactly when the keyword takes one")
	c.modeList = c.plainMode()
	c.usedQueries()
	c.keywords()
	c.flush()
	c.rep.minimum("tree_scenarios", 24)
	c.rep.minimum("results_checked", 24)
}

func (c *vctx) keywords() {
	const rule = "keyword-meaning"
	c.modes(func(mode int, sfx string) {
		table := func(name string) (*pworld, *Term) { return c.declWorld(mode, name+sfx, "", "table_decl") }
		col := func(name string) (*pworld, *Term, func(r reader, s Val) Val) {
			w, t := table(name)
			cdl := w.t.kid(t, "column_def_list")
			cn := w.focus(cdl, "column_def", 1)
			return w, cn, func(r reader, s Val) Val {
				return r.at(r.field(c.elem(r, w, s, "Tables", "table_decl"), "Columns"), at(w.t.kids(cdl, "column_def")))
			}
		}
		// every alternative has to be in the tables
		g := newPWorld(c.p, "")
		if g.t != nil {
			c.alternatives(g, "column_type", kwToks(typeTable))
			c.alternatives(g, "index_def", kwToks(indexTable))
			c.alternatives(g, "foreign_key_action", kwToks(onTable))
			c.alternatives(g, "foreign_key_action", kwToks(doTable))
			var at []string
			for _, a := range attrTable {
				at = append(at, a.tok)
			}
			c.alternatives(g, "column_constraint", at)
		}
		for _, k := range typeTable {
			k := k
			w, cn, get := col("a column of type " + k.tok)
			w.exact(cn, "column_constraint", 0)
			ct := w.t.kid(cn, "column_type")
			w.set(ct, k.tok, true)
			c.result(w, rule, func(r reader, s Val) {
				r.keyword("the column type", r.field(get(r, s), "Type"), ct, typeTable)
			})
		}
		for _, a := range attrTable {
			a := a
			w, cn, get := col("a column with attribute " + a.tok)
			an := w.focus(cn, "column_constraint", 1)
			w.set(an, a.tok, true)
			c.result(w, rule, func(r reader, s Val) {
				akl := w.t.kids(cn, "column_constraint")
				r.attribute(w, r.at(r.field(get(r, s), "Attributes"), at(akl)), an, a.tok)
			})
		}
		for _, k := range indexTable {
			w, t := table("an index of kind " + k.tok)
			ix := w.focus(t, "index_def", 1)
			w.set(ix, k.tok, true)
			c.result(w, rule, func(r reader, s Val) {
				x := r.at(r.field(c.elem(r, w, s, "Tables", "table_decl"), "Indexes"), at(w.t.kids(t, "index_def")))
				r.keyword("the index type", r.field(x, "Type"), ix, indexTable)
			})
		}
		for _, on := range onTable {
			for _, do := range doTable {
				w, t := table("a foreign key with " + on.tok + " " + do.tok)
				fk := w.focus(t, "foreign_key_def", 1)
				an := w.focus(fk, "foreign_key_action", 1)
				w.set(an, on.tok, true)
				w.set(an, do.tok, true)
				c.result(w, rule, func(r reader, s Val) {
					x := r.at(r.field(c.elem(r, w, s, "Tables", "table_decl"), "ForeignKeys"), at(w.t.kids(t, "foreign_key_def")))
					r.effect(w, r.at(r.field(x, "Actions"), at(w.t.kids(fk, "foreign_key_action"))), an)
				})
			}
		}
	})
}

func kwToks(t []kwConst) []string {
	var r []string
	for _, k := range t {
		r = append(r, k.tok)
	}
	return r
}

// alternatives requires every alternative of the rule to contain exactly one
// of the tokens, and every token to have one.
func (c *vctx) alternatives(w *pworld, rule string, toks []string) {
	seen := map[string]bool{}
	for _, alt := range w.t.alt[rule] {
		n := 0
		for _, k := range toks {
			if alt[k] > 0 {
				n++
				seen[k] = true
			}
		}
		if n != 1 {
			c.rep.viol("keyword-meaning", "grammar rule "+rule, fmt.Sprintf("an alternative of the rule has %d of the keywords %s", n, strings.Join(toks, ", ")), nil)
		}
	}
	for _, k := range toks {
		if !seen[k] {
			c.rep.viol("keyword-meaning", "grammar rule "+rule, "no alternative of the rule has the keyword "+k, nil)
		}
		c.rep.add("keywords", 1)
	}
}

// ---- C14 ----

func checkC14(c *vctx) {
	c.rep.rule("for every combination of declared modifiers of an action at any position among other actions with any modifiers, the action in the schema is public, a view and owner-restricted exactly as declared and has no other modifier")
	c.modeList = c.plainMode()
	c.usedQueries()
	c.modifiers()
	c.flush()
	c.rep.minimum("tree_scenarios", 12)
	c.rep.minimum("results_checked", 12)
}

func (c *vctx) modifiers() {
	const rule = "action-modifiers"
	c.modes(func(mode int, sfx string) {
		for _, vis := range []string{"", "PUBLIC_", "PRIVATE_"} {
			for _, mut := range []bool{false, true} {
				for _, own := range []bool{false, true} {
					{
						vis, mut, own := vis, mut, own
						w, a := c.declWorld(mode, fmt.Sprintf("an action with visibility %q, view %v, owner %v%s", vis, mut, own, sfx), "", "action_decl")
						al := w.t.kid(a, "action_attr_list")
						n := func(b bool) int {
							if b {
								return 1
							}
							return 0
						}
						w.exact(al, "action_visibility", n(vis != ""))
						w.exact(al, "action_mutability", n(mut))
						w.exact(al, "action_auxiliary", n(own))
						w.exact(w.t.root(), "init_decl", 0)
						if vis != "" {
							w.set(w.t.node(w.t.kids(al, "action_visibility"), intV(0)), vis, true)
						}
						c.result(w, rule, func(r reader, s Val) {
							x := c.elem(r, w, s, "Actions", "action_decl")
							r.same("whether the action is public", r.field(x, "Public"), boolV(vis == "PUBLIC_"))
							m := "update"
							if mut {
								m = "view"
							}
							r.same("the mutability of the action", r.field(x, "Mutability"), strV(m))
							aux := r.field(x, "Auxiliaries")
							r.count("auxiliaries", aux, intV(n(own)))
							if own {
								r.same("the auxiliary", r.at(aux, intV(0)), strV("owner"))
							}
						})
					}
				}
			}
		}
	})
}

// ---- C15 ----

func checkC15(c *vctx) {
	c.rep.rule("with an init block (any number of actions and other declarations around it, any number of statements in it) the schema has one action more than declared, the last one, named init, private, an update, without inputs, annotations and modifiers, with the statements of the block in order; without one it has exactly the declared actions")
	c.modeList = c.plainMode()
	c.usedQueries()
	c.inits()
	c.flush()
	c.rep.minimum("tree_scenarios", 6)
	c.rep.minimum("results_checked", 6)
}

func (c *vctx) inits() {
	const rule = "init-action"
	c.modes(func(mode int, sfx string) {
		for _, with := range []bool{false, true} {
			for _, acts := range []string{"no action", "any number of actions", "an action under inspection"} {
				for _, around := range []string{"declarations", "statements"} {
					with, acts := with, acts
					w, _ := c.declWorld(mode, fmt.Sprintf("init block %v, %s, among others (%s)%s", with, acts, around, sfx), around, "")
					w.around = c.around
					root := w.t.root()
					switch acts {
					case "no action":
						w.exact(root, "action_decl", 0)
					case "any number of actions":
						w.any(root, "action_decl")
					default:
						w.focus(root, "action_decl", 1)
					}
					n := 0
					if with {
						n = 1
					}
					w.exact(root, "init_decl", n)
					in := w.t.node(w.t.kids(root, "init_decl"), intV(0))
					sl := w.t.kid(in, "action_stmt_list")
					if with {
						w.focus(sl, "action_stmt", 1)
					}
					c.result(w, rule, func(r reader, s Val) {
						r.others(w, s)
						l := r.field(s, "Actions")
						if acts == "an action under inspection" {
							x := c.elem(r, w, s, "Actions", "action_decl")
							r.same("the name of the declared action", r.field(x, "Name"), r.text(w, w.t.kid(w.t.focus(w.t.kids(root, "action_decl"), 1), "action_name")))
						}
						if !with {
							return
						}
						x := r.at(l, r.kids(w, root, "action_decl"))
						r.same("the name of the init action", r.field(x, "Name"), strV("init"))
						r.same("whether the init action is public", r.field(x, "Public"), boolV(false))
						r.same("the mutability of the init action", r.field(x, "Mutability"), strV("update"))
						r.empty("inputs of the init action", r.field(x, "Inputs"))
						r.empty("annotations of the init action", r.field(x, "Annotations"))
						r.empty("modifiers of the init action", r.field(x, "Auxiliaries"))
						r.statements(w, r.field(x, "Statements"), sl)
					})
				}
			}
		}
	})
}

// ---- modifiers and init blocks the conversion refuses (C05, C11) ----

// refusals are the sources the conversion itself has to refuse.
func (c *vctx) refusals(rule string, kinds bool) {
	type bad struct {
		what, sentinel string
		f              func(w *pworld, root, attrs *Term)
	}
	two := func(w *pworld, n *Term, rule string) (*Term, *Term) {
		l := w.t.kids(n, rule)
		w.cfg[l.key] = ListCfg{Focus: 2, Segs: 7, Exact: -1}
		return w.t.focus(l, 1), w.t.focus(l, 2)
	}
	var bads []bad
	for _, v := range [][2]string{{"PUBLIC_", "PUBLIC_"}, {"PUBLIC_", "PRIVATE_"}, {"PRIVATE_", "PUBLIC_"}, {"PRIVATE_", "PRIVATE_"}} {
		v := v
		bads = append(bads, bad{"an action with visibilities " + v[0] + " and " + v[1], "ErrActionVisibilityAlreadySet", func(w *pworld, root, attrs *Term) {
			a, b := two(w, attrs, "action_visibility")
			w.set(a, v[0], true)
			w.set(b, v[1], true)
		}})
	}
	bads = append(bads, bad{"an action with two mutabilities", "ErrActionMutabilityAlreadySet", func(w *pworld, root, attrs *Term) { two(w, attrs, "action_mutability") }})
	aux := map[string]bool{}
	if g := newPWorld(c.p, ""); g.t != nil {
		for _, alt := range g.t.alt["action_auxiliary"] {
			for s := range alt {
				aux[s] = true
			}
		}
	}
	for _, s := range sortedKeys(aux) {
		s := s
		bads = append(bads, bad{"an action with modifier " + s + " twice", "ErrActionAuxiliaryAlreadySet", func(w *pworld, root, attrs *Term) {
			a, b := two(w, attrs, "action_auxiliary")
			w.set(a, s, true)
			w.set(b, s, true)
		}})
	}
	bads = append(bads, bad{"two init blocks", "ErrMultiInit", func(w *pworld, root, attrs *Term) { two(w, root, "init_decl") }})
	if !c.only {
		c.modeList = c.plainMode()
	}
	if kinds {
		// the error of validation is passed on as what it is
		c.each(func(pw parseWay, mk func(string) *pworld) {
			c.job(func() {
				w := mk("validation fails")
				w.valid = retError
				vs, in := c.parseRun(w)
				c.rep.add("tree_scenarios", 1)
				for _, v := range vs {
					con := w.name + ": " + c.parseAnchor(in)
					if v.o.Kind != oRet || v.nilErr || !is(in, v.o.St, v.err, validErr) {
						c.rep.viol(rule, con, "the validation error cannot be recognised in the result", trailOf(v))
					} else if ks := c.kinds(in, v); len(ks) > 0 {
						c.rep.viol(rule, con, "the validation error is also recognisable as "+strings.Join(ks, ","), trailOf(v))
					}
				}
			})
		})
	}
	c.modes(func(mode int, sfx string) {
		for _, b := range bads {
			for _, others := range []int{0, 1} {
				b, others := b, others
				if b.sentinel == "ErrMultiInit" && others > 0 {
					continue
				}
				w, a := c.declWorld(mode, b.what+sfx, "", "action_decl")
				attrs := w.t.kid(a, "action_attr_list")
				if b.sentinel != "ErrMultiInit" {
					w.name += fmt.Sprintf(", %d of each other modifier", others)
					for _, l := range []string{"visibility", "mutability", "auxiliary"} {
						w.exact(attrs, "action_"+l, others)
					}
				}
				b.f(w, w.t.root(), attrs)
				c.job(func() {
					vs, in := c.parseRun(w)
					if in == nil {
						return
					}
					c.rep.add("tree_scenarios", 1)
					want := sentinel(c.base, "schema", b.sentinel)
					if want == nil {
						c.rep.undecided("schema.%s not found", b.sentinel)
						return
					}
					for _, v := range vs {
						con := w.name + ": " + c.parseAnchor(in)
						c.rep.add("refusals_checked", 1)
						if v.o.Kind != oRet {
							c.rep.viol(rule, con, "the call "+okind(v.o), trailOf(v))
							continue
						}
						if v.nilErr {
							c.rep.viol(rule, con, "a source that breaks the rule is accepted on the path below", trailOf(v))
							continue
						}
						if !kinds {
							continue
						}
						if ks := c.kinds(in, v); len(ks) != 1 || ks[0] != b.sentinel {
							c.rep.viol(rule, con, fmt.Sprintf("expected %s, the error is recognisable as [%s]", b.sentinel, strings.Join(ks, ",")), trailOf(v))
						}
					}
				})
			}
		}
	})
}
