package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type primFn func(in *Interp, st *State, fn *ssa.Function, args []Val) []Outcome

func retv(st *State, v Val) []Outcome { return []Outcome{{oRet, v, st}} }

func (in *Interp) deferCall(st *State, d *ssa.Defer) {
	f := st.top()
	df := deferred{pos: d.Pos()}
	if d.Call.IsInvoke() {
		df.fn = in.val(st, d.Call.Value)
		df.inv = &d.Call
	} else if b, ok := d.Call.Value.(*ssa.Builtin); ok {
		df.fn = strV("builtin:" + b.Name())
	} else {
		df.fn = in.val(st, d.Call.Value)
	}
	for _, a := range d.Call.Args {
		df.args = append(df.args, in.val(st, a))
	}
	f.defers = append(f.defers[:len(f.defers):len(f.defers)], df)
}

func (in *Interp) doCall(st *State, ci ssa.CallInstruction) []Outcome {
	c := ci.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var args []Val
		for _, a := range c.Args {
			args = append(args, in.val(st, a))
		}
		var t types.Type
		if v := ci.Value(); v != nil {
			t = v.Type()
		}
		return retv(st, in.builtin(st, b.Name(), args, t))
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, in.val(st, a))
	}
	fv := in.val(st, c.Value)
	if c.IsInvoke() {
		return in.invokeVal(st, fv, c, args, 0, ci.Pos())
	}
	return in.invokeVal(st, fv, nil, args, 0, ci.Pos())
}

// invokeVal calls a function value or (inv != nil) an interface method.
func (in *Interp) invokeVal(st *State, fv Val, inv *ssa.CallCommon, args []Val, deferOf int, pos token.Pos) []Outcome {
	if inv != nil {
		m := inv.Method
		switch r := fv.(type) {
		case *Const:
			if r.V == nil {
				in.raise("nil dereference")
			}
		case *Iface:
			if in.Sc.method != nil {
				if o, ok := in.Sc.method(in, st, r, m, args); ok {
					return o
				}
			}
			fn := in.P.Prog.LookupMethod(r.T, m.Pkg(), m.Name())
			if fn == nil {
				in.fail("no method %s on %s", m.Name(), tkey(r.T))
			}
			return in.callFunc(st, fn, append([]Val{r.V}, args...), nil, deferOf)
		case *Term:
			if in.Sc.invoke != nil {
				if o, ok := in.Sc.invoke(in, st, r, m, args); ok {
					return o
				}
			}
			if !isErrTerm(r) && in.isNilTerm(st, r) {
				in.raise("nil dereference")
			}
			return in.opaque(st, "inv."+m.Name(), m.Type().(*types.Signature), append([]Val{r}, args...))
		case *Top:
			st.sticky = true
			return in.opaqueTop(st, m.Type().(*types.Signature))
		}
		in.fail("method call on %s", key(fv))
	}
	switch f := fv.(type) {
	case *Func:
		return in.callFunc(st, f.F, args, f.B, deferOf)
	case *Const:
		if f.V == nil {
			in.raise("nil dereference")
		}
		if s, ok := constStr(f); ok && strings.HasPrefix(s, "builtin:") {
			return retv(st, in.builtin(st, strings.TrimPrefix(s, "builtin:"), args, nil))
		}
	case *Term:
		if in.isNilTerm(st, f) {
			in.raise("nil dereference")
		}
		if sig, ok := under(f.T).(*types.Signature); ok {
			return in.opaque(st, "dyn", sig, append([]Val{f}, args...))
		}
	}
	in.fail("call of %s", key(fv))
	return nil
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

var interpPkgs = map[string]bool{"slices": true, "maps": true, "cmp": true, "iter": true, "container/list": true}

func (in *Interp) interpretable(fn *ssa.Function) bool {
	p := fnPkgPath(fn)
	if isRepoPkg(p) || interpPkgs[p] {
		return true
	}
	if in.Sc != nil && in.Sc.interpPkgs[p] {
		return true
	}
	return false
}

func (in *Interp) callFunc(st *State, fn *ssa.Function, args []Val, binds []Val, deferOf int) []Outcome {
	name := fnName(fn)
	if fn.Synthetic == "package initializer" {
		return retv(st, &Tuple{}) // run in dependency order by initPackages
	}
	in.callsSeen[name]++
	if in.Sc.fn != nil {
		if o, ok := in.Sc.fn(in, st, fn, name, args); ok {
			return o
		}
	}
	if p, ok := prims[name]; ok {
		return p(in, st, fn, args)
	}
	if in.interpretable(fn) || fn.Synthetic != "" && fn.Pkg == nil && len(fn.Blocks) > 0 && !strings.Contains(fn.Synthetic, "instance") {
		if len(fn.Blocks) == 0 && fn.Pkg != nil {
			in.P.ensureBuilt(fn.Pkg)
		}
		if len(fn.Blocks) == 0 && fn.Origin() != nil && fn.Origin().Pkg != nil {
			in.P.ensureBuilt(fn.Origin().Pkg)
		}
		if len(fn.Blocks) > 0 {
			return in.call(st, fn, args, binds, deferOf)
		}
	}
	for _, a := range args {
		if f, ok := a.(*Func); ok {
			in.fail("function value %s passed to unknown %s", f.F, name)
		}
	}
	return in.opaque(st, name, fn.Signature, args)
}

// opaque models a call to code outside the analysis: a function of its
// arguments, whose error result may or may not be nil. Mutable arguments are
// havocked.
func (in *Interp) opaque(st *State, name string, sig *types.Signature, args []Val) []Outcome {
	for _, a := range args {
		if _, ok := a.(*Top); ok {
			return in.opaqueTop(st, sig)
		}
	}
	pure := true
	for _, a := range args {
		objsOf(a, func(id int) {
			switch st.heap[id].(type) {
			case *TopObj:
			default:
				pure = false
			}
		})
	}
	rs := sig.Results()
	tm := func(i int, t types.Type) Val {
		return in.term(st, fmt.Sprintf("call:%s.%d", name, i), t, flatArgs(in, st, args)...)
	}
	if !pure {
		in.note("external call with local data: " + name)
	}
	if rs.Len() == 0 {
		return retv(st, &Tuple{})
	}
	ei := -1
	if types.Identical(rs.At(rs.Len()-1).Type(), errType) {
		ei = rs.Len() - 1
	}
	failed := false
	if ei >= 0 {
		failed = in.decide(st, rawTerm("fails:"+name, types.Typ[types.Bool], flatArgs(in, st, args)...))
	}
	var vs []Val
	for i := 0; i < rs.Len(); i++ {
		switch {
		case i == ei && failed:
			vs = append(vs, rawTerm("errnew", errType, strV("error of "+name)))
		case i == ei:
			vs = append(vs, nilV(errType))
		case failed:
			vs = append(vs, &Top{rs.At(i).Type()})
		default:
			vs = append(vs, tm(i, rs.At(i).Type()))
		}
	}
	if len(vs) == 1 {
		return retv(st, vs[0])
	}
	return retv(st, &Tuple{vs})
}

// flatArgs replaces fully known local lists by their elements so that terms
// built from them do not depend on object identity.
func flatArgs(in *Interp, st *State, args []Val) []Val {
	var r []Val
	for _, a := range args {
		if s, ok := a.(*Slice); ok {
			if vs, ok := in.listVals(st, s); ok {
				r = append(r, rawTerm("list", nil, flatArgs(in, st, vs)...))
				continue
			}
		}
		r = append(r, a)
	}
	return r
}

func (in *Interp) note(s string) { in.notes[s] = true }

func (in *Interp) opaqueTop(st *State, sig *types.Signature) []Outcome {
	rs := sig.Results()
	var vs []Val
	for i := 0; i < rs.Len(); i++ {
		if types.Identical(rs.At(i).Type(), errType) {
			st.sticky = true
			if st.choose(2, "error of unknown call") == 0 {
				vs = append(vs, nilV(errType))
			} else {
				vs = append(vs, rawTerm("errnew", errType, strV("unknown")))
			}
			continue
		}
		vs = append(vs, &Top{rs.At(i).Type()})
	}
	switch len(vs) {
	case 0:
		return retv(st, &Tuple{})
	case 1:
		return retv(st, vs[0])
	}
	return retv(st, &Tuple{vs})
}

func (in *Interp) builtin(st *State, name string, args []Val, t types.Type) Val {
	switch name {
	case "len":
		return in.lenOf(st, args[0])
	case "cap":
		return &Top{types.Typ[types.Int]}
	case "append":
		var et types.Type
		if t != nil {
			et = under(t).(*types.Slice).Elem()
		}
		return in.appendTo(st, args[0], args[1], et)
	case "copy":
		return in.copyTo(st, args[0], args[1])
	case "delete":
		in.mapDelete(st, args[0], args[1])
		return &Tuple{}
	case "clear":
		switch m := args[0].(type) {
		case *Map:
			if o, ok := st.heap[m.O].(*MapObj); ok {
				st.wrote(m.O)
				st.heap[m.O] = &MapObj{T: o.T}
			}
			return &Tuple{}
		}
		in.fail("clear")
	case "recover":
		f := st.top()
		if f.deferOf > 0 && f.deferOf-1 < len(st.frames) {
			pf := st.frames[f.deferOf-1]
			if pf.panicVal != nil && !pf.recovered {
				pf.recovered = true
				return pf.panicVal
			}
		}
		return nilV(anyType)
	case "print", "println":
		return &Tuple{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			less := in.compare(st, token.LSS, a, r)
			if less == (name == "min") {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		in.nilCheck(st, args[0])
		return args[0]
	case "close":
		return &Tuple{}
	}
	in.fail("builtin %s", name)
	return nil
}

func (in *Interp) copyTo(st *State, dst, src Val) Val {
	d, ok := dst.(*Slice)
	if !ok {
		if isNil(dst) {
			return intV(0)
		}
		in.fail("copy into %s", key(dst))
	}
	od, ok := st.heap[d.O].(*ListObj)
	if !ok {
		return &Top{types.Typ[types.Int]}
	}
	os := in.asList(st, src, od.Elem)
	if od.View {
		in.fail("write through a part of a slice")
	}
	st.wrote(d.O)
	if os == nil {
		st.heap[d.O] = &ListObj{Elem: od.Elem, Len: od.Len, At: nil, Rest: &Top{od.Elem}}
		return &Top{types.Typ[types.Int]}
	}
	if key(os.Len) == key(od.Len) {
		st.heap[d.O] = &ListObj{Elem: od.Elem, Len: od.Len, At: os.At, Rest: os.Rest}
		return od.Len
	}
	_, t1 := os.Len.(*Top)
	_, t2 := od.Len.(*Top)
	if t1 || t2 {
		st.heap[d.O] = &ListObj{Elem: od.Elem, Len: od.Len, At: nil, Rest: &Top{od.Elem}}
		return &Top{types.Typ[types.Int]}
	}
	if in.compare(st, token.LSS, os.Len, od.Len) {
		// prefix of dst overwritten
		n := &ListObj{Elem: od.Elem, Len: od.Len, At: append([]Slot(nil), os.At...), Rest: joinVal(od.Rest, os.Rest, od.Elem)}
		for _, s := range od.At {
			if !in.compare(st, token.LSS, s.I, os.Len) {
				n.At = append(n.At, s)
			}
		}
		if os.Rest == nil {
			n.Rest = od.Rest
		}
		st.heap[d.O] = n
		return os.Len
	}
	n := &ListObj{Elem: od.Elem, Len: od.Len, At: nil, Rest: os.Rest}
	for _, s := range os.At {
		if in.compare(st, token.LSS, s.I, od.Len) {
			n.At = append(n.At, s)
		}
	}
	st.heap[d.O] = n
	return od.Len
}

// ---- errors ----

// wraps lists the errors reachable from v by unwrapping, v included.
func (in *Interp) wraps(st *State, v Val) []Val {
	var res []Val
	seen := map[string]bool{}
	var walk func(v Val, d int)
	walk = func(v Val, d int) {
		if v == nil || isNil(v) || d > 12 {
			return
		}
		k := key(v)
		if seen[k] {
			return
		}
		seen[k] = true
		res = append(res, v)
		switch x := v.(type) {
		case *Term:
			switch x.Op {
			case "errorf", "errjoin":
				for _, a := range x.A {
					walk(a, d+1)
				}
			}
		case *Iface:
			fn := lookupMethod(in.P, x.T, "Unwrap")
			if fn == nil {
				return
			}
			sn := st.clone()
			if len(sn.frames) == 0 || sn.frames[0].fn == nil {
				sn.frames = []*Frame{{fn: fn, regs: map[ssa.Value]Val{}}}
			}
			for _, o := range in.tryCall(sn, func(s *State) []Outcome {
				return in.callFunc(s, fn, []Val{x.V}, nil, 0)
			}) {
				if o.Kind != oRet {
					continue
				}
				if sl, ok := o.V.(*Slice); ok {
					if vs, ok := in.listVals(o.St, sl); ok {
						for _, e := range vs {
							walk(e, d+1)
						}
					}
					continue
				}
				walk(o.V, d+1)
			}
		}
	}
	walk(v, 0)
	return res
}

func lookupMethod(p *Program, t types.Type, name string) *ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func wrapVerbs(format string) []int {
	var idx []int
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' {
			idx = append(idx, n)
		}
		n++
	}
	return idx
}

func (in *Interp) errorf(st *State, format Val, list Val) Val {
	f, ok := constStr(format)
	if !ok {
		return rawTerm("errorf", errType)
	}
	ix := wrapVerbs(f)
	var ws []Val
	if len(ix) > 0 {
		vs, ok := in.listVals(st, list)
		if !ok {
			in.fail("arguments of fmt.Errorf")
		}
		for _, i := range ix {
			if i < len(vs) {
				if vs[i] == nil || isNil(vs[i]) {
					continue
				}
				ws = append(ws, vs[i])
			}
		}
	}
	return rawTerm("errorf", errType, ws...)
}

func (in *Interp) errorsIs(st *State, err, target Val) bool {
	for _, w := range in.wraps(st, err) {
		if _, ok := w.(*Top); ok {
			return st.choose(2, "unknown error chain") == 0
		}
		if key(w) == key(target) {
			return true
		}
		if i, ok := w.(*Iface); ok {
			if t, ok := target.(*Iface); ok && types.Identical(i.T, t.T) && key(i.V) == key(t.V) {
				return true
			}
			if fn := lookupMethod(in.P, i.T, "Is"); fn != nil {
				sn := st.clone()
				for _, o := range in.tryCall(sn, func(s *State) []Outcome {
					return in.callFunc(s, fn, []Val{i.V, target}, nil, 0)
				}) {
					if b, ok := constBool(o.V); ok && b {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- primitives ----

var prims map[string]primFn

func strArg(f func(in *Interp, st *State, a []Val) Val) primFn {
	return func(in *Interp, st *State, fn *ssa.Function, args []Val) []Outcome {
		return retv(st, f(in, st, args))
	}
}

// foldable pure string functions of constants
var foldStr = map[string]func(string) string{
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
}

func init() {
	prims = map[string]primFn{}
	for n, f := range foldStr {
		n, f := n, f
		prims[n] = strArg(func(in *Interp, st *State, a []Val) Val {
			if s, ok := constStr(a[0]); ok {
				return strV(f(s))
			}
			if n == "strings.TrimSpace" {
				ps := parts(a[0])
				solid := func(p Val, last bool) bool {
					if s, ok := constStr(p); ok {
						if last {
							return strings.TrimRight(s, " \t\r\n\v\f") == s && s != "" && s[len(s)-1] < 128
						}
						return strings.TrimLeft(s, " \t\r\n\v\f") == s && s != "" && s[0] < 128
					}
					t, ok := p.(*Term)
					return ok && in.Sc.trimmed != nil && in.Sc.trimmed(in, st, t)
				}
				if len(ps) > 0 && solid(ps[0], false) && solid(ps[len(ps)-1], true) {
					return a[0]
				}
			}
			if t, ok := a[0].(*Term); ok && t.Op == n {
				return a[0]
			}
			return in.term(st, n, strType, a[0])
		})
	}
	prims["strings.HasPrefix"] = strArg(func(in *Interp, st *State, a []Val) Val {
		if p, ok := constStr(a[1]); ok {
			return boolV(in.hasPrefix(st, a[0], p))
		}
		return in.term(st, "strings.HasPrefix", types.Typ[types.Bool], a[0], a[1])
	})
	prims["strings.HasSuffix"] = strArg(func(in *Interp, st *State, a []Val) Val {
		if p, ok := constStr(a[1]); ok {
			return boolV(in.hasSuffix(st, a[0], p))
		}
		return in.term(st, "strings.HasSuffix", types.Typ[types.Bool], a[0], a[1])
	})
	prims["strings.TrimPrefix"] = strArg(func(in *Interp, st *State, a []Val) Val {
		if p, ok := constStr(a[1]); ok {
			return in.trimPrefix(st, a[0], p)
		}
		return in.term(st, "strings.TrimPrefix", strType, a[0], a[1])
	})
	prims["strings.CutPrefix"] = strArg(func(in *Interp, st *State, a []Val) Val {
		if p, ok := constStr(a[1]); ok {
			ok := in.hasPrefix(st, a[0], p)
			return &Tuple{[]Val{in.trimPrefix(st, a[0], p), boolV(ok)}}
		}
		return &Tuple{[]Val{&Top{strType}, &Top{types.Typ[types.Bool]}}}
	})
	prims["strings.TrimLeft"] = strArg(func(in *Interp, st *State, a []Val) Val {
		cut, ok := constStr(a[1])
		if s, ok2 := constStr(a[0]); ok && ok2 {
			return strV(strings.TrimLeft(s, cut))
		}
		if ok {
			ps := parts(a[0])
			if s, isC := constStr(ps[0]); isC {
				r := strings.TrimLeft(s, cut)
				if r != "" {
					return catOf(append([]Val{strV(r)}, ps[1:]...))
				}
				if f, ne := in.first(st, catOf(ps[1:])); ne && f != "" && !strings.ContainsAny(f, cut) {
					return catOf(ps[1:])
				}
			} else if f, ne := in.first(st, a[0]); ne && f != "" && !strings.ContainsAny(f, cut) {
				return a[0]
			}
		}
		return in.term(st, "strings.TrimLeft", strType, a[0], a[1])
	})
	prims["strings.EqualFold"] = strArg(func(in *Interp, st *State, a []Val) Val {
		x, ok := constStr(a[0])
		y, ok2 := constStr(a[1])
		if ok && ok2 {
			return boolV(strings.EqualFold(x, y))
		}
		if key(a[0]) == key(a[1]) {
			return boolV(true)
		}
		if key(a[0]) > key(a[1]) {
			a = []Val{a[1], a[0]}
		}
		return in.term(st, "strings.EqualFold", types.Typ[types.Bool], a...)
	})
	prims["strings.Contains"] = strArg(func(in *Interp, st *State, a []Val) Val {
		x, ok := constStr(a[0])
		y, ok2 := constStr(a[1])
		if ok && ok2 {
			return boolV(strings.Contains(x, y))
		}
		return in.term(st, "strings.Contains", types.Typ[types.Bool], a...)
	})
	prims["strings.Join"] = strArg(func(in *Interp, st *State, a []Val) Val {
		vs, ok := in.listVals(st, a[0])
		if !ok {
			return &Top{strType}
		}
		var ps []Val
		for i, v := range vs {
			if i > 0 {
				ps = append(ps, a[1])
			}
			ps = append(ps, v)
		}
		return catOf(ps)
	})
	builderOp := func(f func(in *Interp, st *State, p Val, cur Val, args []Val) Val) primFn {
		return func(in *Interp, st *State, fn *ssa.Function, args []Val) []Outcome {
			p, ok := args[0].(*Ptr)
			if !ok {
				in.nilCheck(st, args[0])
				in.fail("builder %s", key(args[0]))
			}
			t := fn.Signature.Recv().Type().(*types.Pointer).Elem()
			cur := in.load(st, p, t)
			var s Val = &Top{strType}
			if b, ok := cur.(*Term); ok && b.Op == "builder" {
				s = b.A[0]
			}
			return retv(st, f(in, st, p, s, args[1:]))
		}
	}
	for _, bt := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		setB := func(in *Interp, st *State, p Val, cur, add Val) {
			n := in.concat(st, cur, add)
			if _, ok := n.(*Top); ok {
				n = rawTerm("any", strType)
			}
			in.store(st, p, rawTerm("builder", nil, n))
		}
		two := func(n Val) Val { return &Tuple{[]Val{n, nilV(errType)}} }
		prims[bt+".WriteString"] = builderOp(func(in *Interp, st *State, p, cur Val, a []Val) Val {
			setB(in, st, p, cur, a[0])
			return two(&Top{types.Typ[types.Int]})
		})
		prims[bt+".Write"] = builderOp(func(in *Interp, st *State, p, cur Val, a []Val) Val {
			if t, ok := a[0].(*Term); ok && t.Op == "bytes" {
				setB(in, st, p, cur, t.A[0])
			} else {
				setB(in, st, p, cur, &Top{strType})
			}
			return two(&Top{types.Typ[types.Int]})
		})
		wb := func(in *Interp, st *State, p, cur Val, a []Val) {
			if c, ok := constInt(a[0]); ok {
				setB(in, st, p, cur, strV(string(rune(c))))
				return
			}
			if t, ok := a[0].(*Term); ok {
				setB(in, st, p, cur, rawTerm("charstr", strType, t))
				return
			}
			setB(in, st, p, cur, &Top{strType})
		}
		prims[bt+".WriteByte"] = builderOp(func(in *Interp, st *State, p, cur Val, a []Val) Val {
			wb(in, st, p, cur, a)
			return nilV(errType)
		})
		prims[bt+".WriteRune"] = builderOp(func(in *Interp, st *State, p, cur Val, a []Val) Val {
			wb(in, st, p, cur, a)
			return two(&Top{types.Typ[types.Int]})
		})
		prims[bt+".String"] = builderOp(func(in *Interp, st *State, p, cur Val, a []Val) Val { return cur })
		prims[bt+".Len"] = builderOp(func(in *Interp, st *State, p, cur Val, a []Val) Val { return in.strLen(st, cur) })
		prims[bt+".Grow"] = builderOp(func(in *Interp, st *State, p, cur Val, a []Val) Val { return &Tuple{} })
		prims[bt+".Reset"] = builderOp(func(in *Interp, st *State, p, cur Val, a []Val) Val {
			in.store(st, p, rawTerm("builder", nil, strV("")))
			return &Tuple{}
		})
	}
	prims["fmt.Errorf"] = func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
		return retv(st, in.errorf(st, a[0], a[1]))
	}
	prims["errors.New"] = func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
		if in.base == nil {
			// package initialisation: each is a distinct value
			in.nid++
			return retv(st, rawTerm("errnew", errType, a[0], intV(in.nid)))
		}
		return retv(st, rawTerm("errnew", errType, strV("at "+in.P.pos(in.curPos))))
	}
	prims["errors.Join"] = func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
		vs, ok := in.listVals(st, a[0])
		if !ok {
			// any of the elements; unknown chain
			n := in.lenOf(st, a[0])
			if isIntVal(n) && !in.compare(st, token.LSS, intV(0), n) {
				return retv(st, nilV(errType))
			}
			var ws []Val
			if s, ok := a[0].(*Slice); ok {
				if o, ok := st.heap[s.O].(*ListObj); ok {
					for _, x := range o.At {
						ws = append(ws, x.V)
					}
				}
			}
			return retv(st, rawTerm("errjoin", errType, ws...))
		}
		var ws []Val
		for _, v := range vs {
			if !in.isNil(st, v) {
				ws = append(ws, v)
			}
		}
		if len(ws) == 0 {
			return retv(st, nilV(errType))
		}
		return retv(st, rawTerm("errjoin", errType, ws...))
	}
	prims["errors.Is"] = func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
		if isNil(a[0]) {
			return retv(st, boolV(isNil(a[1])))
		}
		return retv(st, boolV(in.errorsIs(st, a[0], a[1])))
	}
	prims["errors.Unwrap"] = func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
		w := in.wraps(st, a[0])
		if len(w) > 1 {
			return retv(st, w[1])
		}
		return retv(st, nilV(errType))
	}
	printLike := func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
		if in.Sc.onPrint != nil {
			in.Sc.onPrint(in, st, fn, a)
		}
		rs := fn.Signature.Results()
		if rs.Len() == 0 {
			return retv(st, &Tuple{})
		}
		return retv(st, &Tuple{[]Val{&Top{types.Typ[types.Int]}, nilV(errType)}})
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "log.Println", "log.Printf", "log.Print"} {
		prims[n] = printLike
	}
	spr := func(format bool) primFn {
		return func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
			return retv(st, in.sprint(st, format, a))
		}
	}
	prims["fmt.Sprintf"] = spr(true)
	prims["fmt.Sprint"] = spr(false)
	prims["fmt.Sprintln"] = func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
		return retv(st, &Top{strType})
	}
	prims["reflect.TypeOf"] = func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
		return retv(st, &Top{fn.Signature.Results().At(0).Type()})
	}
	prims["strconv.Itoa"] = strArg(func(in *Interp, st *State, a []Val) Val {
		if c, ok := constInt(a[0]); ok {
			return strV(fmt.Sprint(c))
		}
		return in.term(st, "itoa", strType, a[0])
	})
	for _, n := range []string{"sort.Strings", "slices.Sort", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse"} {
		n := n
		prims[n] = func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
			v := a[0]
			if i, ok := v.(*Iface); ok {
				v = i.V
			}
			switch s := v.(type) {
			case *Slice:
				if o, ok := st.heap[s.O].(*ListObj); ok {
					if c, ok := constInt(o.Len); ok && c <= 1 {
						return retv(st, &Tuple{})
					}
					if o.View {
						in.fail("write through a part of a slice")
					}
					st.wrote(s.O)
					st.heap[s.O] = &ListObj{Elem: o.Elem, Len: o.Len, Rest: &Top{o.Elem}}
				}
			case *Term:
				in.inputWrite(st, n+" reorders "+s.key)
			case *Const:
			default:
				in.fail("%s", n)
			}
			return retv(st, &Tuple{})
		}
	}
	prims["slices.Clone"] = func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
		if isNil(a[0]) {
			return retv(st, a[0])
		}
		et := under(fn.Signature.Params().At(0).Type()).(*types.Slice).Elem()
		o := in.asList(st, a[0], et)
		if o == nil {
			return retv(st, &Slice{in.alloc(st, &TopObj{})})
		}
		c := *o
		c.View = false
		return retv(st, &Slice{in.alloc(st, &c)})
	}
	prims["os.Exit"] = func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
		return []Outcome{{oExit, a[0], st}}
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln"} {
		prims[n] = func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
			return []Outcome{{oExit, intV(1), st}}
		}
	}
	prims["runtime.Goexit"] = func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
		return []Outcome{{oExit, intV(-1), st}}
	}
	nop := func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
		return retv(st, zeroResults(fn.Signature))
	}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		prims[n] = nop
	}
	prims["(*sync.Once).Do"] = func(in *Interp, st *State, fn *ssa.Function, a []Val) []Outcome {
		// executed at most once: both possibilities
		if st.choose(2, "first use of sync.Once") == 0 {
			return retv(st, &Tuple{})
		}
		return in.invokeVal(st, a[1], nil, nil, 0, token.NoPos)
	}
}

func (in *Interp) sprint(st *State, format bool, a []Val) Val {
	var list Val
	f := "%v%v%v%v%v%v%v%v"
	if format {
		s, ok := constStr(a[0])
		if !ok {
			return &Top{strType}
		}
		f = s
		list = a[1]
	} else {
		list = a[0]
	}
	vs, ok := in.listVals(st, list)
	if !ok {
		return &Top{strType}
	}
	if !format {
		f = strings.Repeat("%v", len(vs))
		if len(vs) > 1 {
			for _, v := range vs {
				if i, ok := v.(*Iface); !ok || !isStrType(i.T) {
					return &Top{strType}
				}
			}
		}
	}
	var ps []Val
	n := 0
	i := 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			ps = append(ps, strV(f[i:]))
			break
		}
		ps = append(ps, strV(f[i:i+j]))
		i += j + 1
		if i >= len(f) {
			break
		}
		c := f[i]
		i++
		if c == '%' {
			ps = append(ps, strV("%"))
			continue
		}
		if n >= len(vs) {
			return &Top{strType}
		}
		v := vs[n]
		n++
		switch c {
		case 's', 'v':
			if ifc, ok := v.(*Iface); ok && isStrType(ifc.T) && lookupMethod(in.P, ifc.T, "String") == nil && lookupMethod(in.P, ifc.T, "Error") == nil {
				ps = append(ps, ifc.V)
				continue
			}
			if ifc, ok := v.(*Iface); ok {
				if k, ok := constInt(ifc.V); ok && c == 'v' {
					ps = append(ps, strV(fmt.Sprint(k)))
					continue
				}
				if m := lookupMethod(in.P, ifc.T, "String"); m != nil && isStrType(ifc.T) {
					sn := st.clone()
					os := in.tryCall(sn, func(s *State) []Outcome { return in.callFunc(s, m, []Val{ifc.V}, nil, 0) })
					if len(os) == 1 && os[0].Kind == oRet && !hasObj(os[0].V) {
						ps = append(ps, os[0].V)
						continue
					}
				}
			}
			ps = append(ps, in.fmtTerm(v))
		case 'd':
			if ifc, ok := v.(*Iface); ok {
				if k, ok := constInt(ifc.V); ok {
					ps = append(ps, strV(fmt.Sprint(k)))
					continue
				}
			}
			ps = append(ps, in.fmtTerm(v))
		default:
			ps = append(ps, rawTerm("any", strType))
		}
	}
	return catOf(ps)
}

func (in *Interp) fmtTerm(v Val) Val {
	if v == nil || hasObj(v) {
		return rawTerm("any", strType)
	}
	if _, ok := v.(*Top); ok {
		return rawTerm("any", strType)
	}
	return rawTerm("fmt", strType, v)
}

func isStrType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- package initialisation ----

// initPackages interprets the init functions of the repository's packages.
func (in *Interp) initPackages() {
	st := &State{heap: map[int]Obj{}, glob: map[*ssa.Global]int{}, atoms: map[string]Atom{}, pvs: map[int]PV{},
		exact: map[string]exFact{}, regs: map[string]regFact{}, blind: map[int]bool{}, owner: map[int][]int{}, snaps: map[snapKey]*snapshot{}}
	// allocate globals
	var order []*ssa.Package
	seen := map[string]bool{}
	var visit func(path string)
	visit = func(path string) {
		if seen[path] || !isRepoPkg(path) {
			return
		}
		seen[path] = true
		pk := in.P.All[path]
		if pk == nil {
			return
		}
		var ims []string
		for p := range pk.Imports {
			ims = append(ims, p)
		}
		sort.Strings(ims)
		for _, p := range ims {
			visit(p)
		}
		order = append(order, in.P.Prog.Package(pk.Types))
	}
	for _, pk := range in.P.Pkgs {
		visit(pk.PkgPath)
	}
	for _, sp := range order {
		if strings.HasSuffix(sp.Pkg.Path(), "/kfgrammar") {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := sp.Members[n].(*ssa.Global); ok {
				t := g.Type().(*types.Pointer).Elem()
				in.newID()
				st.heap[in.nid] = &Cell{zero(t), t}
				st.glob[g] = in.nid
			}
		}
	}
	for _, sp := range order {
		if strings.HasSuffix(sp.Pkg.Path(), "/kfgrammar") {
			continue
		}
		f := sp.Func("init")
		if f == nil {
			continue
		}
		outs := in.tryCall(st, func(s *State) []Outcome { return in.call(s, f, nil, nil, 0) })
		if len(outs) != 1 || outs[0].Kind != oRet {
			in.undecide("initialisation of %s has %d outcomes", sp.Pkg.Path(), len(outs))
			if len(outs) == 0 {
				continue
			}
		}
		st = outs[0].St
	}
	in.base = st
	in.baseMax = in.nid
	in.initEvents = st.events
	st.events = nil
	st.trail = nil
}

var _ = constant.MakeInt64
