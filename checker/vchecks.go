package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"
)

// Checks of the semantic validator.

// errOf: may the outcome's error be nil, and may it be non-nil.
type verdict struct {
	nilErr bool
	o      Outcome
	err    Val
}

// verdicts splits outcomes by whether the returned error is nil.
func verdicts(in *Interp, outs []Outcome) []verdict {
	var res []verdict
	for _, o := range outs {
		if o.Kind != oRet {
			res = append(res, verdict{false, o, nil})
			continue
		}
		ev := o.V
		if t, ok := ev.(*Tuple); ok && len(t.V) > 0 {
			ev = t.V[len(t.V)-1]
		}
		if len(o.St.frames) == 0 {
			o.St.frames = []*Frame{{regs: nil}}
		}
		for _, r := range in.tryCall(o.St, func(s *State) []Outcome {
			if _, ok := ev.(*Top); ok {
				if s.choose(2, "unknown error value") == 0 {
					return []Outcome{{oRet, boolV(true), s}}
				}
				return []Outcome{{oRet, boolV(false), s}}
			}
			return []Outcome{{oRet, boolV(in.isNil(s, ev)), s}}
		}) {
			b, _ := constBool(r.V)
			res = append(res, verdict{b, Outcome{oRet, o.V, r.St}, ev})
		}
	}
	return res
}

type vctx struct {
	p    *Program
	base *Interp
	rep  *Report
	jobs []func()

	modeList  []modeName // modes of the parser to look at
	around    int        // size of the declarations around
	only      bool       // only ways with (onlyTrace) or without tracing
	onlyTrace bool
	sigs      *sigSet // how parses end, if asked for
	mode      int     // mode of the sources of tokens
}

func (c *vctx) job(f func()) { c.jobs = append(c.jobs, f) }

// flush runs the queued analyses in parallel; their results are recorded in
// order.
func (c *vctx) flush() {
	jobs := c.jobs
	c.jobs = nil
	type slot struct {
		rep *Report
		bad interface{}
	}
	res := make([]slot, len(jobs))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if stopFlag.Load() {
				return
			}
			defer func() {
				if os.Getenv("KF_PANIC") == "" {
					if r := recover(); r != nil {
						switch x := r.(type) {
						case *budgetErr:
							r = x.msg
						case *abandoned:
							return
						}
						res[i].bad = r
					}
				}
			}()
			jobs[i]()
			if !c.only && c.rep.found() >= enough {
				stopFlag.Store(true) // the rest would not change the answer
			}
		}(i)
	}
	wg.Wait()
	for i := range jobs {
		if res[i].bad != nil {
			c.rep.undecided("checker stopped: %v", res[i].bad)
		}
	}
}

// mustReject: no path accepts the world's schema, whatever surrounds it.
func (c *vctx) mustReject(w *world, rule string) {
	for i := range freeSets {
		x := *w
		x.name = w.name + " (around it: " + freeSets[i].name + ")"
		x.setFree(i)
		x.narrow = (i > 0 || w.narrow) && c.rep.tier != "thorough"
		if f := os.Getenv("KF_WORLD"); f != "" && !strings.Contains(x.name, f) {
			continue
		}
		c.job(func() { c.reject1(&x, rule, w.name) })
	}
}

func (c *vctx) reject1(w *world, rule, name string) {
	w.onOut = func(in *Interp, o Outcome) bool {
		for _, v := range verdicts(in, []Outcome{{o.Kind, o.V, o.St.clone()}}) {
			if v.nilErr {
				c.rep.viol(rule, name+": "+c.anchor(in), "a schema that breaks the rule is accepted on the path below", v.o.St.trail.list(60))
				return true
			}
		}
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(*stopErr); !ok {
				panic(r)
			}
			stopFlag.Store(true)
		}
	}()
	outs, in := w.runValidator(c.base)
	vs := verdicts(in, outs)
	if os.Getenv("KF_DEBUG") != "" {
		m := map[string]int{}
		for _, v := range vs {
			if !v.nilErr && v.err != nil {
				s := ""
				for n, x := range sentinels(c.base, "schema") {
					for _, y := range in.wraps(v.o.St, v.err) {
						if key(y) == key(x) {
							s += n
						}
					}
				}
				m[s]++
			}
		}
		fmt.Println("world", w.name, in.states, len(outs), m)
	}
	c.rep.absorb(w.name, in, outs)
	c.rep.add("reject_scenarios", 1)
	if len(outs) == 0 {
		c.rep.undecided("%s: no outcome", w.name)
	}
	rej := 0
	for _, v := range vs {
		if v.nilErr {
			c.rep.viol(rule, name+": "+c.anchor(in), "a schema that breaks the rule is accepted on the path below", v.o.St.trail.list(60))
		} else {
			rej++
		}
	}
	c.rep.add("rejecting_outcomes", rej)
}

// anchor names the validator functions that ran.
func (c *vctx) anchor(in *Interp) string {
	var r []string
	for f := range in.fnsSeen {
		if strings.HasPrefix(fnPkgPath(f), modPath+"/schema") && f.Signature.Recv() != nil && f.Name() != "Accept" && f.Name() != "Error" {
			r = append(r, f.Name())
		}
	}
	m := map[string]bool{}
	for _, x := range r {
		m[x] = true
	}
	return "(schema validator) " + strings.Join(sortedKeys(m), ",")
}

func (c *vctx) world(name string) (*world, *Term) {
	w := newWorld(c.p, name)
	return w, w.root()
}

func strConst(t types.Type, s string) Val {
	c := strV(s).(*Const)
	return &Const{c.V, t}
}

// ---- C04 ----

func checkC04(c *vctx) {
	c.rep.rule("for every schema in which two declarations of one scope (positions and surroundings arbitrary) have equal names, every path of the validator ends in an error")
	for _, k := range []struct {
		list, what string
		kinds      []string
	}{{"Tables", "tables", tableNames}, {"Actions", "actions", actionNames}} {
		w, s := c.world("two " + k.what + " with one name")
		l := w.f(s, k.list)
		w.lst(l, 2)
		a, b := w.f(w.el(l, 1), "Name"), w.f(w.el(l, 2), "Name")
		w.same(a, b)
		w.follow(a, k.kinds...)
		c.mustReject(w, "unique-"+k.what)
	}
	for _, k := range []struct {
		list, what string
		kinds      []string
	}{{"Columns", "columns", columnNames}, {"Indexes", "indexes", columnNames}} {
		w, s := c.world("two " + k.what + " of one table with one name")
		tl := w.f(s, "Tables")
		w.lst(tl, 1)
		l := w.f(w.el(tl, 1), k.list)
		w.lst(l, 2)
		a, b := w.f(w.el(l, 1), "Name"), w.f(w.el(l, 2), "Name")
		w.same(a, b)
		w.follow(a, k.kinds...)
		c.mustReject(w, "unique-"+k.what)
	}
	{
		w, s := c.world("two parameters of one action with one name")
		al := w.f(s, "Actions")
		w.lst(al, 1)
		l := w.f(w.el(al, 1), "Inputs")
		w.lst(l, 2)
		w.same(w.el(l, 1), w.el(l, 2))
		w.follow(w.el(l, 1), varNames...)
		c.mustReject(w, "unique-parameters")
	}
	for i := 0; i < 4; i++ {
		w, s := c.world(fmt.Sprintf("two extensions with one effective name (aliased: first %v, second %v)", i&1 != 0, i&2 != 0))
		l := w.f(s, "Extensions")
		w.lst(l, 2)
		var eff [2]*Term
		for j := 0; j < 2; j++ {
			e := w.el(l, j+1)
			al := w.f(e, "Alias")
			if i&(1<<j) != 0 {
				eff[j] = al
				if j == 0 {
					w.nonEmpty(al)
				}
			} else {
				w.set(al, strV(""))
				eff[j] = w.f(e, "Name")
			}
		}
		w.nonEmpty(eff[0])
		w.same(eff[0], eff[1])
		w.follow(eff[0], extNames...)
		c.mustReject(w, "unique-extensions")
	}
	c.flush()
	c.rep.minimum("reject_scenarios", 70)
}

func (w *world) nonEmpty(x *Term) {
	w.rule(func(in *Interp, st *State, t *Term) Tri {
		if t.Op == "eq" && len(t.A) == 2 {
			for i := 0; i < 2; i++ {
				if s, ok := constStr(t.A[i]); ok && s == "" && key(t.A[1-i]) == x.key {
					return No
				}
			}
		}
		return Maybe
	})
}
