package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value.
type Val interface{}

// Const is a known constant; V == nil means the nil/zero reference value.
type Const struct {
	V constant.Value
	T types.Type
}

// Int is a symbolic integer Base+Off. Base is a position variable (P>0) or
// a term: the length of a list ("len") or the index of a focus element of a
// list ("fidx").
type Int struct {
	P   int
	B   *Term
	Off int
}

// Term is an uninterpreted value.
type Term struct {
	Op  string
	A   []Val
	T   types.Type
	key string
	pv  []int // position variables mentioned
	rel bool  // mentions a position next to a focus element or the end
	obj bool  // mentions heap objects
}

type Struct struct {
	F []Val
	T types.Type
}

// Ptr points into a heap object; Path holds field indexes (int) or list
// indexes (Val).
type Ptr struct {
	O    int
	Path []Val
}

type Slice struct{ O int }
type Map struct{ O int }
type Iter struct{ O int }

type Iface struct {
	T types.Type
	V Val
}

type Func struct {
	F *ssa.Function
	B []Val
}

type Tuple struct{ V []Val }

// Top is an unknown value (each occurrence may differ).
type Top struct{ T types.Type }

func key(v Val) string {
	var sb strings.Builder
	wkey(&sb, v, nil)
	return sb.String()
}

// canon renames heap objects and position variables in order of first visit.
type canon struct {
	obj  map[int]int
	objs []int
	pv   map[int]int
	pvs  []int
}

func newCanon() *canon { return &canon{obj: map[int]int{}, pv: map[int]int{}} }

func (c *canon) o(id int) int {
	if c == nil {
		return id
	}
	if n, ok := c.obj[id]; ok {
		return n
	}
	n := len(c.objs) + 1
	c.obj[id] = n
	c.objs = append(c.objs, id)
	return n
}

func (c *canon) p(id int) int {
	if c == nil {
		return id
	}
	if n, ok := c.pv[id]; ok {
		return n
	}
	n := len(c.pvs) + 1
	c.pv[id] = n
	c.pvs = append(c.pvs, id)
	return n
}

func tkey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func wkey(sb *strings.Builder, v Val, c *canon) {
	switch v := v.(type) {
	case nil:
		sb.WriteString("_")
	case int:
		sb.WriteString("." + strconv.Itoa(v))
	case *Const:
		if v.V == nil {
			sb.WriteString("nil")
		} else {
			sb.WriteString(v.V.ExactString())
		}
	case *Int:
		if v.P > 0 {
			sb.WriteString("p" + strconv.Itoa(c.p(v.P)))
		} else {
			wkey(sb, v.B, c)
		}
		if v.Off != 0 {
			fmt.Fprintf(sb, "%+d", v.Off)
		}
	case *Term:
		if c == nil || len(v.pv) == 0 && !v.obj {
			sb.WriteString(v.key)
			return
		}
		sb.WriteString(v.Op)
		sb.WriteByte('(')
		for i, a := range v.A {
			if i > 0 {
				sb.WriteByte(',')
			}
			wkey(sb, a, c)
		}
		sb.WriteByte(')')
	case *Struct:
		sb.WriteString("{")
		for i, f := range v.F {
			if i > 0 {
				sb.WriteByte(';')
			}
			wkey(sb, f, c)
		}
		sb.WriteString("}")
	case *Ptr:
		sb.WriteString("&" + strconv.Itoa(c.o(v.O)))
		for _, p := range v.Path {
			sb.WriteByte('/')
			wkey(sb, p, c)
		}
	case *Slice:
		sb.WriteString("sl" + strconv.Itoa(c.o(v.O)))
	case *Map:
		sb.WriteString("mp" + strconv.Itoa(c.o(v.O)))
	case *Iter:
		sb.WriteString("it" + strconv.Itoa(c.o(v.O)))
	case *Iface:
		sb.WriteString("if<" + tkey(v.T) + ">")
		wkey(sb, v.V, c)
	case *Func:
		sb.WriteString("fn:" + v.F.String())
		for _, b := range v.B {
			sb.WriteByte(',')
			wkey(sb, b, c)
		}
	case *Tuple:
		sb.WriteString("(")
		for i, f := range v.V {
			if i > 0 {
				sb.WriteByte(',')
			}
			wkey(sb, f, c)
		}
		sb.WriteString(")")
	case *Top:
		sb.WriteString("T")
	default:
		panic(fmt.Sprintf("wkey %T", v))
	}
}

func pvOf(v Val, set map[int]bool) {
	switch v := v.(type) {
	case *Int:
		if v.P > 0 {
			set[v.P] = true
		} else {
			pvOf(v.B, set)
		}
	case *Term:
		for _, p := range v.pv {
			set[p] = true
		}
	case *Struct:
		for _, f := range v.F {
			pvOf(f, set)
		}
	case *Ptr:
		for _, f := range v.Path {
			pvOf(f, set)
		}
	case *Iface:
		pvOf(v.V, set)
	case *Func:
		for _, f := range v.B {
			pvOf(f, set)
		}
	case *Tuple:
		for _, f := range v.V {
			pvOf(f, set)
		}
	}
}

// rawTerm builds a term without consulting the scenario.
func rawTerm(op string, t types.Type, a ...Val) *Term {
	tm := &Term{Op: op, A: a, T: t}
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('(')
	set := map[int]bool{}
	for i, x := range a {
		if i > 0 {
			sb.WriteByte(',')
		}
		wkey(&sb, x, nil)
		pvOf(x, set)
		if !tm.obj && hasObj(x) {
			tm.obj = true
		}
		switch y := x.(type) {
		case *Int:
			if y.B != nil && (y.Off != 0 || y.B.rel) {
				tm.rel = true
			}
		case *Term:
			tm.rel = tm.rel || y.rel
		}
	}
	sb.WriteByte(')')
	tm.key = sb.String()
	for p := range set {
		tm.pv = append(tm.pv, p)
	}
	sort.Ints(tm.pv)
	return tm
}

func hasObj(v Val) bool {
	found := false
	objsOf(v, func(int) { found = true })
	return found
}

// objsOf calls f for every heap object v refers to directly.
func objsOf(v Val, f func(int)) {
	switch v := v.(type) {
	case *Term:
		if v.obj {
			for _, a := range v.A {
				objsOf(a, f)
			}
		}
	case *Struct:
		for _, x := range v.F {
			objsOf(x, f)
		}
	case *Ptr:
		f(v.O)
	case *Slice:
		f(v.O)
	case *Map:
		f(v.O)
	case *Iter:
		f(v.O)
	case *Iface:
		objsOf(v.V, f)
	case *Func:
		for _, x := range v.B {
			objsOf(x, f)
		}
	case *Tuple:
		for _, x := range v.V {
			objsOf(x, f)
		}
	}
}

// subst maps every Int and Top-able sub-value; f returns (replacement, changed).
type intSubst func(*Int) Val

func substVal(v Val, f intSubst, has func(v Val) bool) Val {
	switch v := v.(type) {
	case *Int:
		if v.B != nil {
			if has(v.B) {
				nb := substVal(v.B, f, has)
				if t, ok := nb.(*Term); ok {
					v = &Int{B: t, Off: v.Off}
				} else {
					return &Top{types.Typ[types.Int]}
				}
			}
		}
		return f(v)
	case *Term:
		if !has(v) {
			return v
		}
		na := make([]Val, len(v.A))
		for i, a := range v.A {
			n := substVal(a, f, has)
			if _, ok := n.(*Top); ok {
				if _, was := a.(*Top); !was {
					return &Top{v.T}
				}
			}
			na[i] = n
		}
		return rawTerm(v.Op, v.T, na...)
	case *Struct:
		if !has(v) {
			return v
		}
		nf := make([]Val, len(v.F))
		for i, x := range v.F {
			nf[i] = substVal(x, f, has)
		}
		return &Struct{nf, v.T}
	case *Ptr:
		if !has(v) {
			return v
		}
		np := make([]Val, len(v.Path))
		for i, x := range v.Path {
			np[i] = substVal(x, f, has)
		}
		return &Ptr{v.O, np}
	case *Iface:
		if !has(v) {
			return v
		}
		return &Iface{v.T, substVal(v.V, f, has)}
	case *Func:
		if !has(v) {
			return v
		}
		nb := make([]Val, len(v.B))
		for i, x := range v.B {
			nb[i] = substVal(x, f, has)
		}
		return &Func{v.F, nb}
	case *Tuple:
		if !has(v) {
			return v
		}
		nv := make([]Val, len(v.V))
		for i, x := range v.V {
			nv[i] = substVal(x, f, has)
		}
		return &Tuple{nv}
	}
	return v
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		return tp.Underlying()
	}
	return t.Underlying()
}

func boolV(b bool) Val      { return &Const{constant.MakeBool(b), types.Typ[types.Bool]} }
func intV(i int) Val        { return &Const{constant.MakeInt64(int64(i)), types.Typ[types.Int]} }
func strV(s string) Val     { return &Const{constant.MakeString(s), types.Typ[types.String]} }
func nilV(t types.Type) Val { return &Const{nil, t} }

func isNil(v Val) bool {
	c, ok := v.(*Const)
	return ok && c.V == nil
}

func constInt(v Val) (int, bool) {
	if c, ok := v.(*Const); ok && c.V != nil && c.V.Kind() == constant.Int {
		i, ok := constant.Int64Val(c.V)
		return int(i), ok
	}
	return 0, false
}

func constStr(v Val) (string, bool) {
	if c, ok := v.(*Const); ok && c.V != nil && c.V.Kind() == constant.String {
		return constant.StringVal(c.V), true
	}
	return "", false
}

func constBool(v Val) (bool, bool) {
	if c, ok := v.(*Const); ok && c.V != nil && c.V.Kind() == constant.Bool {
		return constant.BoolVal(c.V), true
	}
	return false, false
}

func typeOf(v Val) types.Type {
	switch v := v.(type) {
	case *Const:
		return v.T
	case *Term:
		return v.T
	case *Struct:
		return v.T
	case *Top:
		return v.T
	case *Iface:
		return nil
	}
	return nil
}

func zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &Const{constant.MakeBool(false), t}
		case u.Info()&types.IsString != 0:
			return &Const{constant.MakeString(""), t}
		case u.Info()&types.IsNumeric != 0:
			return &Const{constant.MakeInt64(0), t}
		}
		return &Const{nil, t}
	case *types.Struct:
		if isBuilderType(t) {
			return rawTerm("builder", t, strV(""))
		}
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zero(u.Field(i).Type())
		}
		return &Struct{f, t}
	case *types.Array:
		return rawTerm("zeroarray", t)
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = zero(u.At(i).Type())
		}
		return &Tuple{f}
	}
	return &Const{nil, t}
}

func isBuilderType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p, nm := n.Obj().Pkg().Path(), n.Obj().Name()
	return p == "strings" && nm == "Builder" || p == "bytes" && nm == "Buffer"
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}
