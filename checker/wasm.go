package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The browser binding: main of the program built for the browser is
// analysed with the host objects and the parser replaced by their contracts.

type jsWorld struct {
	cliWorld
	n int // arguments of the call from the page
	// what the callback does, filled in while main is analysed
	set   int
	calls []Outcome
}

const jsPkg = "syscall/js"

func (w *jsWorld) call(in *Interp, st *State, f *ssa.Function, n string, args []Val) ([]Outcome, bool) {
	rt := func(i int) types.Type { return f.Signature.Results().At(i).Type() }
	switch n {
	case jsPkg + ".Global":
		return retv(st, rawTerm("jsglobal", rt(0))), true
	case jsPkg + ".FuncOf":
		return retv(st, rawTerm("jsfunc", rt(0), args[0])), true
	case "(" + jsPkg + ".Value).Set":
		st.event(rawTerm("set", nil, args[0], args[1], args[2]))
		return retv(st, &Tuple{}), true
	case "(" + jsPkg + ".Value).String":
		return retv(st, rawTerm("text", strType, args[0])), true
	case jsPkg + ".ValueOf":
		return retv(st, rawTerm("jsvalue", rt(0), args[0])), true
	case "(" + jsPkg + ".Value).Type":
		return retv(st, rawTerm("jstype", rt(0), args[0])), true
	}
	if strings.HasPrefix(n, jsPkg) || strings.HasPrefix(n, "("+jsPkg) || strings.HasPrefix(n, "(*"+jsPkg) {
		in.fail("browser operation %s", n)
	}
	return w.cliWorld.call(in, st, f, n, args)
}

func checkC23(c *vctx) {
	const rule = "binding-reports-the-parse"
	c.rep.rule("main of the browser program sets parseKuneiform to a function and then waits for ever; called with one value, that function parses its text once in an ordinary mode and returns an object whose error is a text mentioning the error exactly when parsing or serialising failed, and otherwise is absent or empty while json is exactly the library's JSON; called with any other number of values it returns; whatever it returns is a value the host can convert; no path panics")
	p, err := loadProgram(true, false)
	if err != nil {
		c.rep.undecided("loading /repo for the browser: %v", err)
		return
	}
	c.rep.add("functions_loaded", len(p.Pkgs))
	for _, n := range []int{1, 0, 2, 3} {
		w := &jsWorld{n: n}
		w.p = p
		w.name = fmt.Sprintf("a call with %d arguments", n)
		sc := w.scenario()
		sc.name = w.name
		sc.fn = w.call
		sc.blocks = true
		b := newInterp(p, sc)
		b.initPackages()
		for u := range b.undecided {
			c.rep.undecided("package initialisation: %s", u)
		}
		in := b.fresh(sc)
		var m *ssa.Function
		if sp := p.pkg("wasm"); sp != nil {
			m = sp.Func("main")
		}
		if m == nil {
			c.rep.undecided("no function main in package wasm")
			return
		}
		st := in.start()
		outs := in.run(st, m, nil, nil)
		c.rep.absorb("main", in, outs)
		for _, o := range outs {
			bad := func(f string, a ...interface{}) {
				c.rep.viol(rule, "kf/wasm.main", fmt.Sprintf(f, a...), o.St.trail.list(60))
			}
			if o.Kind != oExit || key(o.V) != key(strV("waits")) {
				bad("main %s instead of serving calls", okind(o))
				continue
			}
			var fn Val
			for _, e := range o.St.events {
				t := e.(*Term)
				if t.Op == "set" {
					if k, ok := constStr(t.A[1]); ok && k == "parseKuneiform" {
						fn = strip(t.A[2])
						if key(t.A[0]) != key(rawTerm("jsglobal", typeOf(t.A[0]))) {
							bad("the function is set on %s", short(t.A[0]))
						}
					}
				}
				if t.Op == "go" {
					c.rep.undecided("main starts a goroutine")
				}
			}
			t, ok := fn.(*Term)
			if !ok || t.Op != "jsfunc" {
				bad("parseKuneiform is not set to a function")
				continue
			}
			c.bindings(w, in, o.St, t.A[0], rule)
		}
		if len(outs) == 0 {
			c.rep.undecided("%s: main has no outcome", w.name)
		}
	}
	c.rep.minimum("calls_checked", 4)
}

// bindings checks three calls in a row: what an earlier call was given, and
// how it ended, makes no difference to a later one.
func (c *vctx) bindings(w *jsWorld, in *Interp, st *State, fn Val, rule string) {
	first, name := w.n, w.name
	sts := []*State{st}
	for i := 0; i < 3; i++ {
		if i > 0 {
			// the later calls are given one value, unless the first was
			w.n = 1
			w.name = name + fmt.Sprintf(", then call %d with 1", i+1)
		}
		w.nth = i
		var next []*State
		for _, s := range sts {
			next = append(next, c.binding(w, in, s, fn, rule)...)
		}
		if c.rep.found() > 0 {
			break
		}
		sts = next
	}
	w.n, w.name = first, name
}

// binding checks one call and returns the states it may end in.
func (c *vctx) binding(w *jsWorld, in *Interp, st *State, fn Val, rule string) (after []*State) {
	c.rep.add("calls_checked", 1)
	st = st.clone()
	st.events = nil
	vt := w.p.extTyp(jsPkg, "Value")
	var as []Val
	for i := 0; i < w.n; i++ {
		as = append(as, rawTerm("arg", vt, intV(w.nth), intV(i)))
	}
	list := in.newList(st, vt, as...)
	st.pins = append(st.pins[:len(st.pins):len(st.pins)], list)
	f, ok := fn.(*Func)
	if !ok {
		c.rep.undecided("the callback is %s", short(fn))
		return nil
	}
	outs := in.tryCall(st, func(s *State) []Outcome {
		return in.invokeVal(s, f, nil, []Val{rawTerm("this", vt), list}, 0, token.NoPos)
	})
	c.rep.absorb(w.name, in, outs)
	con := shortFn(f.F.String())
	if len(outs) == 0 {
		c.rep.undecided("%s: no outcome", w.name)
	}
	good := 0
	for _, o := range outs {
		c.rep.add("endings_checked", 1)
		bad := func(f string, a ...interface{}) {
			c.rep.viol(rule, con, w.name+": "+fmt.Sprintf(f, a...), o.St.trail.list(60))
		}
		if o.Kind != oRet {
			bad("the function %s", okind(o))
			continue
		}
		if m := hostValue(in, o.St, o.V); m != "" {
			bad("the host cannot convert the result: %s", m)
			continue
		}
		after = append(after, o.St)
		fail, _ := failures(o.St)
		parses := 0
		for _, e := range o.St.events {
			if t := e.(*Term); t.Op == "parse" {
				parses++
				if key(strip(t.A[0])) != rawTerm("text", strType, rawTerm("arg", vt, intV(w.nth), intV(0))).key {
					bad("what is parsed is %s", short(t.A[0]))
				}
			}
		}
		if w.n != 1 {
			continue
		}
		if parses != 1 {
			bad("the parser is called %d times", parses)
			continue
		}
		mv := o.V
		if i, ok := mv.(*Iface); ok {
			mv = i.V
		}
		mp, ok := mv.(*Map)
		if !ok {
			bad("the result is %s, not an object", short(mv))
			continue
		}
		obj := o.St.heap[mp.O].(*MapObj)
		get := func(name string) Val {
			for _, e := range obj.E {
				if k, ok := constStr(e.K); ok && k == name && e.Present {
					return strip(e.V)
				}
			}
			return nil
		}
		ev := get("error")
		if len(fail) > 0 {
			switch {
			case ev == nil:
				bad("no error is reported although %s failed", strings.Join(sortedKeys(fail), ","))
			case !saysError(ev) || fail["parse"] && !strings.Contains(key(ev), "error of "+w.call1("parse")):
				bad("the reported error is %s, not the one of the library", short(ev))
			}
			continue
		}
		good++
		if ev != nil && !isEmptyStr(ev) {
			bad("an error is reported although nothing failed: %s", short(ev))
		}
		sch := w.schema(types.NewPointer(w.p.typ("schema", "Schema")))
		if j := get("json"); j == nil {
			bad("no JSON is returned although nothing failed")
		} else if m := isIndented(o.St, j, sch); m != "" {
			bad("the JSON returned: %s", m)
		}
	}
	if w.n == 1 && good == 0 {
		c.rep.viol(rule, con, w.name+": no call succeeds", nil)
	}
	return after
}

// saysError: the text contains the text of an error.
func saysError(v Val) bool {
	return strings.Contains(key(v), "error of ")
}

// hostValue checks that js.ValueOf takes the value.
func hostValue(in *Interp, st *State, v Val) string {
	i, ok := v.(*Iface)
	if !ok {
		if isNil(v) {
			return ""
		}
		return short(v)
	}
	switch t := i.T.(type) {
	case *types.Named:
		if t.Obj().Pkg() != nil && t.Obj().Pkg().Path() == jsPkg {
			return ""
		}
	case *types.Basic:
		if t.Info()&(types.IsBoolean|types.IsInteger|types.IsFloat|types.IsString) != 0 {
			return ""
		}
	case *types.Slice, *types.Map:
		if !types.Identical(t, types.NewSlice(anyType)) && !types.Identical(t, types.NewMap(types.Typ[types.String], anyType)) {
			break
		}
		if m, ok := i.V.(*Map); ok {
			o := st.heap[m.O].(*MapObj)
			for _, e := range append([]MapEnt(nil), o.E...) {
				if e.Present {
					if x := hostValue(in, st, e.V); x != "" {
						return x
					}
				}
			}
			for _, e := range o.Others {
				if x := hostValue(in, st, e); x != "" {
					return x
				}
			}
			return ""
		}
		if vs, ok := in.listVals(st, i.V); ok {
			for _, e := range vs {
				if x := hostValue(in, st, e); x != "" {
					return x
				}
			}
			return ""
		}
		return short(v)
	}
	return "a " + i.T.String()
}
