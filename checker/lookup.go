package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C18: keyword lookup helpers ----

type lookup struct {
	fn    string
	words map[string]string // keyword in lower case -> constant
}

// spelling is the fixed text of a token, from the lexer grammar.
func spelling(tok string) (string, error) {
	f, err := readInterp("KuneiformLexer.interp")
	if err != nil {
		return "", err
	}
	for i, s := range f.Symbolic {
		if s == tok && i < len(f.Literal) {
			l := f.Literal[i]
			if len(l) > 2 && l[0] == '\'' {
				return strings.Trim(l, "'"), nil
			}
		}
	}
	return "", fmt.Errorf("token %s has no fixed spelling", tok)
}

func checkC18(c *vctx) {
	c.rep.rule("each lookup helper, given a text of which only its lower-case form is known, returns on every path the documented constant and no error when that form is a keyword of the language, and an error when it is not")
	var ls []lookup
	mk := func(fn string, table []kwConst, extra map[string]string) {
		l := lookup{fn, map[string]string{}}
		for _, k := range table {
			s, err := spelling(k.tok)
			if err != nil {
				c.rep.undecided("%v", err)
				continue
			}
			l.words[s] = k.val
		}
		for k, v := range extra {
			l.words[k] = v
		}
		ls = append(ls, l)
	}
	// the null type has no column syntax but is a documented type keyword
	mk("GetColumnType", typeTable, map[string]string{"null": "null"})
	var at []kwConst
	for _, a := range attrTable {
		at = append(at, kwConst{a.tok, a.val})
	}
	mk("GetAttributeType", at, nil)
	mk("GetIndexType", indexTable, nil)
	for _, l := range ls {
		fn := c.p.fn("schema", l.fn)
		if fn == nil {
			c.rep.undecided("no function schema.%s", l.fn)
			continue
		}
		for _, k := range append(sortedKeys(l.words), "") {
			l, k := l, k
			c.job(func() { c.lookup1(fn, l, k) })
		}
	}
	c.flush()
	c.rep.minimum("lookup_cases", 18)
}

func isCase(n string) bool {
	switch n {
	case "strings.ToLower", "strings.ToUpper", "strings.Title", "strings.TrimSpace":
		return true
	}
	return false
}

// lookup1 analyses a helper on texts whose lower-case form is k ("" stands
// for every text that is no keyword).
func (c *vctx) lookup1(fn *ssa.Function, l lookup, k string) {
	name := fmt.Sprintf("%s of %q", l.fn, k)
	if k == "" {
		name = l.fn + " of anything else"
	}
	const rule = "lookup-agrees-with-language"
	s := rawTerm("given", strType)
	low := rawTerm("lower", strType, s)
	sc := &Scenario{name: name}
	isS := func(v Val) bool { return key(v) == s.key }
	eqS := func(v string, folded bool) Tri { // is the given text (its lower-case form) v?
		if k != "" {
			if folded && v == k {
				return Yes
			}
			if strings.ToLower(v) != k {
				return No
			}
			return Maybe
		}
		if _, ok := l.words[strings.ToLower(v)]; ok {
			return No
		}
		return Maybe
	}
	sc.fn = func(in *Interp, st *State, f *ssa.Function, n string, args []Val) ([]Outcome, bool) {
		switch n {
		case "strings.ToLower":
			if isS(args[0]) || key(args[0]) == low.key {
				if k != "" {
					return retv(st, strV(k)), true
				}
				return retv(st, low), true
			}
		case "strings.ToUpper":
			if isS(args[0]) && k != "" {
				return retv(st, strV(strings.ToUpper(k))), true
			}
		case "strings.TrimSpace":
			if isS(args[0]) && k != "" {
				return retv(st, s), true
			}
		case "strings.EqualFold":
			for i := 0; i < 2; i++ {
				if w, ok := constStr(args[1-i]); ok && isS(args[i]) {
					if k != "" {
						return retv(st, boolV(strings.ToLower(w) == k)), true
					}
					return retv(st, boolV(in.strEq(st, low, strV(strings.ToLower(w))))), true
				}
			}
		}
		return nil, false
	}
	sc.decideF = func(in *Interp, st *State, t *Term) Tri {
		if t.Op == "eq" && len(t.A) == 2 {
			for i := 0; i < 2; i++ {
				if w, ok := constStr(t.A[1-i]); ok {
					if isS(t.A[i]) {
						return eqS(w, false)
					}
					if key(t.A[i]) == low.key {
						return eqS(w, true)
					}
				}
			}
		}
		return Maybe
	}
	in := c.base.fresh(sc)
	outs := in.run(in.start(), fn, []Val{s}, nil)
	c.rep.absorb(name, in, outs)
	c.rep.add("lookup_cases", 1)
	if len(outs) == 0 {
		c.rep.undecided("%s: no outcome", name)
	}
	con := "schema." + l.fn
	for _, v := range verdicts(in, outs) {
		c.rep.add("results_checked", 1)
		tr := trailOf(v)
		switch {
		case v.o.Kind != oRet:
			c.rep.viol(rule, con, name+": the call "+okind(v.o), tr)
		case k == "" && v.nilErr:
			c.rep.viol(rule, con, name+": accepted as "+short(first(v.o.V)), tr)
		case k != "" && !v.nilErr:
			c.rep.viol(rule, con, name+": refused", tr)
		case k != "":
			if g, ok := constStr(first(v.o.V)); !ok || g != l.words[k] {
				c.rep.viol(rule, con, fmt.Sprintf("%s: the result is %s, not %q", name, short(first(v.o.V)), l.words[k]), tr)
			}
		}
	}
}

func first(v Val) Val {
	if t, ok := v.(*Tuple); ok && len(t.V) > 0 {
		return t.V[0]
	}
	return v
}

// ---- C17: JSON form ----

// published is the JSON form of each part: name, options, type.
var published = map[string][]string{
	"Schema":           {"owner string", "name string", "tables,omitempty []Table", "actions,omitempty []Action", "extensions,omitempty []Extension"},
	"ExtensionConfig":  {"argument string", "value string"},
	"Extension":        {"name string", "config []ExtensionConfig", "alias string"},
	"Table":            {"name string", "columns,omitempty []Column", "indexes,omitempty []Index", "foreign_keys,omitempty []ForeignKey"},
	"Column":           {"name string", "type string", "attributes,omitempty []Attribute"},
	"Attribute":        {"type string", "value,omitempty any"},
	"Index":            {"name string", "columns []string", "type,omitempty string"},
	"ForeignKey":       {"child_keys []string", "parent_keys []string", "parent_table string", "actions []ForeignKeyAction"},
	"ForeignKeyAction": {"on string", "do string"},
	"Action":           {"name string", "annotations,omitempty []string", "inputs []string", "public bool", "mutability string", "auxiliaries []string", "statements,omitempty []string"},
}

// fieldOf relates the Go field that C12-C15 check to its published name.
var fieldOf = map[string]string{
	"Schema.Owner": "owner", "Schema.Name": "name", "Schema.Tables": "tables", "Schema.Actions": "actions", "Schema.Extensions": "extensions",
	"ExtensionConfig.Argument": "argument", "ExtensionConfig.Value": "value",
	"Extension.Name": "name", "Extension.Config": "config", "Extension.Alias": "alias",
	"Table.Name": "name", "Table.Columns": "columns", "Table.Indexes": "indexes", "Table.ForeignKeys": "foreign_keys",
	"Column.Name": "name", "Column.Type": "type", "Column.Attributes": "attributes",
	"Attribute.Type": "type", "Attribute.Value": "value",
	"Index.Name": "name", "Index.Columns": "columns", "Index.Type": "type",
	"ForeignKey.ChildKeys": "child_keys", "ForeignKey.ParentKeys": "parent_keys", "ForeignKey.ParentTable": "parent_table", "ForeignKey.Actions": "actions",
	"ForeignKeyAction.On": "on", "ForeignKeyAction.Do": "do",
	"Action.Name": "name", "Action.Annotations": "annotations", "Action.Inputs": "inputs", "Action.Public": "public",
	"Action.Mutability": "mutability", "Action.Auxiliaries": "auxiliaries", "Action.Statements": "statements",
}

func checkC17(c *vctx) {
	const rule = "published-json-form"
	c.rep.rule("the fields encoding/json sees in every part of a schema have exactly the published names, types and omission rules, and no part encodes itself; ToJSON of every part returns what encoding/json's MarshalIndent yields for that very part, its error included")
	pk := c.p.pkg("schema")
	if pk == nil {
		c.rep.undecided("no package schema")
		return
	}
	for _, n := range sortedKeys(published) {
		t := c.p.typ("schema", n)
		if t == nil {
			c.rep.viol(rule, "schema."+n, "the type does not exist", nil)
			continue
		}
		c.jsonType(rule, n, t)
	}
	c.serialisers(rule)
	c.flush()
	c.rep.minimum("json_fields", 30)
	c.rep.minimum("serialisers", 8)
}

var marshalers = []string{"MarshalJSON", "MarshalText"}

func selfEncoding(t types.Type) string {
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		for _, m := range marshalers {
			if s := ms.Lookup(nil, m); s != nil {
				return m
			}
		}
	}
	return ""
}

// jsonKind describes how encoding/json encodes a type.
func (c *vctx) jsonKind(rule, con string, t types.Type) string {
	if m := selfEncoding(t); m != "" && !types.IsInterface(t) {
		c.rep.viol(rule, con, tkey(t)+" has its own "+m, nil)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Name()
	case *types.Pointer:
		return c.jsonKind(rule, con, u.Elem())
	case *types.Slice:
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Byte {
			return "bytes"
		}
		return "[]" + c.jsonKind(rule, con, u.Elem())
	case *types.Interface:
		return "any"
	case *types.Struct:
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	return tkey(t)
}

func (c *vctx) jsonFields(rule, n string, s *types.Struct, depth int) []string {
	var r []string
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		con := "schema." + n + "." + f.Name()
		tag, hasTag := reflect.StructTag(s.Tag(i)).Lookup("json")
		parts := strings.Split(tag, ",")
		if f.Anonymous() && parts[0] == "" && depth < 4 {
			if es, ok := under(f.Type()).(*types.Struct); ok {
				r = append(r, c.jsonFields(rule, n, es, depth+1)...)
				continue
			}
		}
		if !f.Exported() {
			if want, ok := fieldOf[n+"."+f.Name()]; ok {
				c.rep.viol(rule, con, "the field that holds "+want+" is not exported", nil)
			}
			continue
		}
		if hasTag && tag == "-" {
			if want, ok := fieldOf[n+"."+f.Name()]; ok {
				c.rep.viol(rule, con, "the field that holds "+want+" is left out", nil)
			}
			continue
		}
		name := parts[0]
		if name == "" {
			name = f.Name()
		}
		opts := append([]string(nil), parts[1:]...)
		sort.Strings(opts)
		d := name
		for _, o := range opts {
			if o != "" {
				d += "," + o
			}
		}
		if want, ok := fieldOf[n+"."+f.Name()]; ok && want != name {
			c.rep.viol(rule, con, fmt.Sprintf("the field is published as %q, not %q", name, want), nil)
		}
		r = append(r, d+" "+c.jsonKind(rule, con, f.Type()))
		c.rep.add("json_fields", 1)
	}
	return r
}

func (c *vctx) jsonType(rule, n string, t types.Type) {
	con := "schema." + n
	s, ok := under(t).(*types.Struct)
	if !ok {
		c.rep.viol(rule, con, "the type is no struct", nil)
		return
	}
	if m := selfEncoding(t); m != "" {
		c.rep.viol(rule, con, "the type has its own "+m, nil)
	}
	got := map[string]int{}
	for _, f := range c.jsonFields(rule, n, s, 0) {
		got[f]++
		if got[f] > 1 {
			c.rep.viol(rule, con, "two fields are published as "+f, nil)
		}
	}
	want := map[string]bool{}
	for _, f := range published[n] {
		want[f] = true
		if got[f] == 0 {
			c.rep.viol(rule, con, "no field is published as "+f, nil)
		}
	}
	for _, f := range sortedKeys(got) {
		if !want[f] {
			c.rep.viol(rule, con, "a field is published as "+f, nil)
		}
	}
}

// serialisers analyses every ToJSON.
func (c *vctx) serialisers(rule string) {
	for _, n := range sortedKeys(published) {
		t := c.p.typ("schema", n)
		if t == nil {
			continue
		}
		fn := c.p.method(types.NewPointer(t), "ToJSON")
		if fn == nil {
			if n != "ExtensionConfig" && n != "ForeignKeyAction" {
				c.rep.viol(rule, "schema."+n, "there is no ToJSON", nil)
			}
			continue
		}
		n := n
		c.job(func() {
			recv := rawTerm("part", types.NewPointer(t))
			sc := &Scenario{name: n + ".ToJSON"}
			sc.fn = jsonCalls
			sc.decideF = func(in *Interp, st *State, t *Term) Tri {
				if t.Op == "isnil" && key(t.A[0]) == recv.key {
					return No
				}
				return Maybe
			}
			bad := false
			con := "schema." + n + ".ToJSON"
			sc.inputWrite = func(in *Interp, st *State, what string) {
				bad = true
				c.rep.viol(rule, con, "the part is changed: "+what, st.trail.list(60))
			}
			in := c.base.fresh(sc)
			outs := in.run(in.start(), fn, []Val{recv}, nil)
			c.rep.absorb(sc.name, in, outs)
			c.rep.add("serialisers", 1)
			if bad {
				return
			}
			if len(outs) == 0 {
				c.rep.undecided("%s: no outcome", sc.name)
			}
			for _, v := range verdicts(in, outs) {
				tr := trailOf(v)
				failed := v.o.St.happened("json-failed") != nil
				switch {
				case v.o.Kind != oRet:
					c.rep.viol(rule, con, "the call "+okind(v.o), tr)
				case failed && v.nilErr:
					c.rep.viol(rule, con, "an error of serialisation is lost", tr)
				case !failed && !v.nilErr:
					c.rep.viol(rule, con, "an error is returned although serialisation succeeded", tr)
				case !failed:
					if m := isIndented(v.o.St, first(v.o.V), recv); m != "" {
						c.rep.viol(rule, con, m, tr)
					}
				}
			}
		})
	}
}

// isIndented: "" if the bytes are the indented JSON of part.
func isIndented(st *State, got Val, part Val) string {
	t, ok := got.(*Term)
	if !ok || t.Op != "json" {
		return "the result is " + short(got) + ", not the JSON of the part"
	}
	a := t.A[0]
	if i, ok := a.(*Iface); ok {
		a = i.V
	}
	if key(a) != key(part) {
		if l, ok := a.(*Term); !ok || l.Op != "deref" || key(l.A[0]) != key(part) {
			return "the result is the JSON of " + short(a)
		}
	}
	p, ok1 := constStr(t.A[1])
	ind, ok2 := constStr(t.A[2])
	if !ok1 || !ok2 || p != "" || ind == "" || strings.Trim(ind, " \t") != "" {
		return "the JSON is not indented"
	}
	return ""
}

// jsonCalls models encoding/json.
func jsonCalls(in *Interp, st *State, f *ssa.Function, n string, args []Val) ([]Outcome, bool) {
	var res *Term
	bytes := types.NewSlice(types.Typ[types.Byte])
	switch n {
	case "encoding/json.MarshalIndent":
		res = rawTerm("json", bytes, args[0], args[1], args[2])
	case "encoding/json.Marshal":
		res = rawTerm("json", bytes, args[0], strV(""), strV(""))
	default:
		return nil, false
	}
	if in.decide(st, rawTerm("fails", types.Typ[types.Bool], strV("json"), intV(len(st.events)), args[0])) {
		e := rawTerm("errnew", errType, strV("error of "+n))
		st.event(rawTerm("json-failed", nil, e))
		return retv(st, &Tuple{[]Val{nilV(bytes), e}}), true
	}
	st.event(rawTerm("json", nil, res))
	return retv(st, &Tuple{[]Val{res, nilV(errType)}}), true
}

var _ = constant.MakeBool
