package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxExact = 9

func intPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if bt, ok := under(p.Type()).(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			r = append(r, p)
		}
	}
	return r
}

// generalise replaces an integer by a fresh position variable equal to it.
func (in *Interp) generalise(st *State, v Val) Val {
	switch x := v.(type) {
	case *Const:
		c, ok := constInt(x)
		if !ok {
			return v
		}
		if c > maxExact || c < -maxExact {
			return &Top{types.Typ[types.Int]}
		}
		return &Int{P: in.newPV(st, PV{c, true, c})}
	case *Int:
		pv := PV{}
		if lo, ok := in.lower(st, x); ok {
			pv.Min = lo
		}
		if e, ok := in.exactOf(st, x); ok {
			pv.Exact, pv.HasExact = e, true
		}
		masks := map[string]regFact{}
		for _, f := range st.regs {
			fi, ok := f.I.(*Int)
			if ok && sameBase(fi, x) {
				masks[f.L.key] = regFact{nil, f.L, in.regionMask(st, x, f.L)}
			}
		}
		if x.B != nil && (x.B.Op == "len" || x.B.Op == "focus") {
			if l, ok := x.B.A[0].(*Term); ok {
				masks[l.key] = regFact{nil, l, in.regionMask(st, x, l)}
			}
		}
		p := in.newPV(st, pv)
		n := &Int{P: p}
		for _, f := range masks {
			st.regs[rkey(n, f.L)] = regFact{n, f.L, f.Mask}
			if len(f.L.pv) > 0 {
				st.owner[p] = append([]int(nil), f.L.pv...)
			}
		}
		return n
	}
	return v
}

func sameBase(a, b *Int) bool {
	if a.P > 0 || b.P > 0 {
		return a.P == b.P
	}
	return a.B.key == b.B.key
}

func (in *Interp) loopHead(st *State, b, from *ssa.BasicBlock) {
	f := st.top()
	k := snapKey{len(st.frames), f.fn, b.Index}
	phis := intPhis(b)
	in.loops[f.fn.String()+fmt.Sprint(b.Index)] = true
	snap := st.snaps[k]
	if from == nil || !b.Dominates(from) || snap == nil {
		for _, p := range phis {
			f.regs[p] = in.generalise(st, f.regs[p])
		}
		in.foldStale(st)
		st.snaps[k] = in.snap(st, phis)
		return
	}
	done := map[string]bool{}
	for _, p := range phis {
		path := "phi:" + p.Name()
		nv := f.regs[p]
		old, okOld := snap.ints[path]
		ni, okN := nv.(*Int)
		oi, okO := old.(*Int)
		if !okOld || !okN || !okO || !sameBase(ni, oi) {
			if okOld && okN && okO && key(ni) == key(oi) {
				continue
			}
			if in.undef(nv) {
				continue
			}
			if okN && ni.P == 0 && ni.B != nil && ni.B.Op == "len" && ni.Off >= -1 && ni.Off <= 0 {
				continue // at the last element or past it: the loop is about to end
			}
			f.regs[p] = in.generalise(st, nv)
			continue
		}
		d := ni.Off - oi.Off
		if d == 0 {
			if ni.P > 0 {
				// unchanged in this iteration
				delete(st.blind, ni.P)
			}
			continue
		}
		if d > 0 && ni.P == 0 && ni.B != nil && ni.B.Op == "len" && ni.Off >= -1 && ni.Off <= 0 {
			continue
		}
		bk := key(&Int{ni.P, ni.B, 0})
		if done[bk] {
			continue // already renamed together with an earlier phi
		}
		done[bk] = true
		in.shift(st, p, oi, ni, snap, phis)
	}
	in.foldStale(st)
	st.snaps[k] = in.snap(st, phis)
}

func (in *Interp) snap(st *State, phis []*ssa.Phi) *snapshot {
	m, _ := in.intPaths(st, phis)
	return &snapshot{ints: m}
}

func (in *Interp) undef(v Val) bool {
	_, ok := v.(*Top)
	return ok
}

// shift moves a loop index from oi to ni = oi+d: a fresh variable q == ni
// takes its place everywhere.
func (in *Interp) shift(st *State, phi *ssa.Phi, oi, ni *Int, snap *snapshot, phis []*ssa.Phi) {
	f := st.top()
	ex, hasEx := in.exactOf(st, ni)
	oex, hasOex := in.exactOf(st, oi)
	d := ni.Off - oi.Off
	// region masks of the new index
	masks := map[string]regFact{}
	for _, r := range st.regs {
		if fi, ok := r.I.(*Int); ok && sameBase(fi, ni) {
			masks[r.L.key] = regFact{nil, r.L, in.regionMask(st, ni, r.L)}
		}
	}
	if ni.B != nil && (ni.B.Op == "len" || ni.B.Op == "focus") {
		if l, ok := ni.B.A[0].(*Term); ok {
			masks[l.key] = regFact{nil, l, in.regionMask(st, ni, l)}
		}
	}
	for k, m := range masks {
		if in.cfg(st, m.L).Exact >= 0 {
			delete(masks, k)
		}
	}
	lo := 0
	if l, ok := in.lower(st, ni); ok && l > 0 {
		if !in.Sc.forgetLists {
			lo = 1
		}
	} else if ok && l < 0 {
		lo = l
	}
	pv := PV{Min: lo}
	if hasEx && len(masks) == 0 && ex <= maxExact && ex >= -maxExact {
		pv.Exact, pv.HasExact, pv.Min = ex, true, ex
	}
	var own []int
	if ni.P > 0 {
		own = st.owner[ni.P]
	}
	q := in.newPV(st, pv)
	nq := &Int{P: q}
	if own != nil {
		st.owner[q] = own
	}
	// lists growing in lockstep with constant length
	cur, ids := in.intPaths(st, phis)
	type relen struct {
		id  int
		off int
		c   int
	}
	var lens []relen
	var paths []string
	for path := range cur {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	grown := map[int]bool{}
	for _, path := range paths {
		cv := cur[path]
		ov, ok := snap.ints[path]
		if !ok || strings.HasPrefix(path, "phi:") {
			continue
		}
		c1, ok1 := constInt(cv)
		c0, ok0 := constInt(ov)
		if ok1 && ok0 && hasEx && hasOex && c1-c0 == d && c1-ex == c0-oex {
			if id, ok := ids[path]; ok && !grown[id] {
				grown[id] = true
				lens = append(lens, relen{id, c1 - ex, c1})
			}
			continue
		}
		// focus-based lockstep
		if ni.P == 0 {
			ci, okc := cv.(*Int)
			oi2, oko := ov.(*Int)
			if okc && oko && sameBase(ci, ni) && sameBase(oi2, oi) && ci.Off-oi2.Off == d {
				if id, ok := ids[path]; ok && !grown[id] {
					grown[id] = true
					if o, ok := st.heap[id].(*ListObj); ok {
						n := *o
						n.Len = in.addInt(nq, ci.Off-ni.Off)
						st.heap[id] = &n
					}
				}
			}
		}
	}
	if ni.P > 0 && !hasEx {
		// a step that may repeat any number of times: lists that grow in some
		// of these steps only have any length
		for _, path := range paths {
			id, isLen := ids[path]
			ov, ok := snap.ints[path]
			if !isLen || !ok || grown[id] || strings.HasPrefix(path, "phi:") {
				continue
			}
			if in.uneven(ov, cur[path], ni, d) {
				grown[id] = true
				in.anyLength(st, id, ov)
			}
		}
	}
	sort.Slice(lens, func(i, j int) bool { return lens[i].id < lens[j].id })
	for _, r := range lens {
		o := st.heap[r.id].(*ListObj)
		n := &ListObj{View: o.View, Elem: o.Elem, Len: in.addInt(nq, r.off), Rest: o.Rest}
		for _, s := range o.At {
			if c, ok := constInt(s.I); ok && c == r.c-d {
				// the slot written in this iteration: index == oi + off
				n.At = append(n.At, Slot{in.addInt(oi, r.off), s.V})
				continue
			}
			n.At = append(n.At, s)
		}
		st.heap[r.id] = n
	}
	for _, p2 := range phis {
		if v, ok := f.regs[p2].(*Int); ok && p2 != phi && sameBase(v, ni) {
			if o2, ok := snap.ints["phi:"+p2.Name()].(*Int); ok && sameBase(o2, oi) && v.Off-o2.Off == d {
				f.regs[p2] = in.addInt(nq, v.Off-ni.Off)
			}
		}
	}
	f.regs[phi] = nq
	if ni.P > 0 {
		// p = q - ni.Off
		in.substPV(st, ni.P, &Int{P: q, Off: -ni.Off})
		delete(st.blind, q)
	}
	for k, r := range st.regs {
		if fi, ok := r.I.(*Int); ok && fi.P == q {
			delete(st.regs, k)
		}
	}
	for _, m := range masks {
		l := m.L
		if ni.P > 0 {
			has := func(v Val) bool { s := map[int]bool{}; pvOf(v, s); return s[ni.P] }
			nl, ok := substVal(l, func(i *Int) Val {
				if i.P == ni.P {
					return &Int{P: q, Off: i.Off - ni.Off}
				}
				return i
			}, has).(*Term)
			if !ok {
				continue
			}
			l = nl
		}
		st.regs[rkey(nq, l)] = regFact{nq, l, m.Mask}
	}
	in.dropStale(st, q)
	// fold slots and entries of the elements left behind
	for id, o := range st.heap {
		switch o := o.(type) {
		case *ListObj:
			ch := false
			for _, s := range o.At {
				if mentions(s.I, q) {
					ch = true
				}
			}
			if !ch {
				continue
			}
			n := &ListObj{View: o.View, Elem: o.Elem, Len: o.Len, Rest: o.Rest}
			for _, s := range o.At {
				if mentions(s.I, q) {
					v := s.V
					if pv.HasExact {
						at := func(v Val) Val {
							return substVal(v, func(i *Int) Val {
								if i.P == q {
									return intV(ex + i.Off)
								}
								return i
							}, func(v Val) bool { return mentions(v, q) })
						}
						if i := at(s.I); !mentions(i, q) {
							n.At = append(n.At, Slot{i, at(v)})
							continue
						}
					}
					if mentions(v, q) || hasObj(v) {
						v = &Top{o.Elem}
					}
					n.Rest = joinVal(n.Rest, v, o.Elem)
				} else {
					n.At = append(n.At, s)
				}
			}
			st.heap[id] = n
		case *MapObj:
			n := foldMap(o, func(k Val) bool { return mentions(k, q) })
			if n != nil {
				st.heap[id] = n
			}
		}
	}
}

// uneven tells whether a length went from ov to cv in a way that repeating
// the step of the loop index by d takes further and further from the index or
// from what it is counted from.
func (in *Interp) uneven(ov, cv Val, ni *Int, d int) bool {
	o, ok1 := ov.(*Int)
	c, ok2 := cv.(*Int)
	if !ok1 || !ok2 || !sameBase(o, c) {
		return false
	}
	if sameBase(c, ni) {
		return c.Off-o.Off != d
	}
	return c.Off != o.Off
}

// anyLength forgets the length of a list and where its last elements are.
func (in *Interp) anyLength(st *State, id int, ov Val) {
	o, ok := st.heap[id].(*ListObj)
	if !ok {
		return
	}
	min := 0
	if i, ok := o.Len.(*Int); ok {
		if l, ok := in.lower(st, i); ok && l > 0 {
			min = 1
		}
	}
	n := &ListObj{View: o.View, Elem: o.Elem, Len: &Int{P: in.newPV(st, PV{Min: min})}, Rest: o.Rest}
	for _, s := range o.At {
		if _, ok := constInt(s.I); ok {
			n.At = append(n.At, s)
			continue
		}
		v := s.V
		if len(pvsOf(v)) > 0 || hasObj(v) {
			v = &Top{o.Elem}
		}
		n.Rest = joinVal(n.Rest, v, o.Elem)
	}
	st.heap[id] = n
}

func pvsOf(v Val) map[int]bool {
	m := map[int]bool{}
	pvOf(v, m)
	return m
}

func foldMap(o *MapObj, stale func(Val) bool) *MapObj {
	ch := false
	for _, e := range o.E {
		if stale(e.K) || stale(e.V) {
			ch = true
		}
	}
	if !ch {
		return nil
	}
	n := &MapObj{T: o.T, Others: append([]Val(nil), o.Others...), HasOthers: o.HasOthers}
	for _, e := range o.E {
		if !stale(e.K) {
			if stale(e.V) && !hasObj(e.V) {
				e.V = &Top{o.T.Elem()}
			}
			n.E = append(n.E, e)
			continue
		}
		if !e.Present {
			// forgotten: nothing known about it unless others exist
			continue
		}
		n.HasOthers = true
		n.Others = []Val{&Top{o.T.Elem()}}
	}
	sort.Slice(n.Others, func(i, j int) bool { return key(n.Others[i]) < key(n.Others[j]) })
	return n
}

func mentions(v Val, p int) bool {
	s := map[int]bool{}
	pvOf(v, s)
	return s[p]
}

func visitInts(v Val, f func(*Int)) {
	switch v := v.(type) {
	case *Int:
		f(v)
		if v.B != nil {
			visitInts(v.B, f)
		}
	case *Term:
		if len(v.pv) == 0 {
			return
		}
		for _, a := range v.A {
			visitInts(a, f)
		}
	case *Struct:
		for _, a := range v.F {
			visitInts(a, f)
		}
	case *Ptr:
		for _, a := range v.Path {
			visitInts(a, f)
		}
	case *Iface:
		visitInts(v.V, f)
	case *Func:
		for _, a := range v.B {
			visitInts(a, f)
		}
	case *Tuple:
		for _, a := range v.V {
			visitInts(a, f)
		}
	}
}

// liveTerms collects the terms held by live values and the loop positions
// held by live integers.
func (in *Interp) liveTerms(st *State, extra []Val) (map[string]bool, map[string]bool) {
	used := map[string]bool{}
	lists := map[string]bool{}
	var vis func(v Val)
	vis = func(v Val) {
		switch v := v.(type) {
		case *Term:
			if len(v.pv) > 0 || v.rel {
				used[v.key] = true
			}
			for x := v; x != nil; {
				if _, ok := under(x.T).(*types.Slice); ok {
					lists[x.key] = true
				}
				if x.Op == "upto" {
					vis(x.A[1])
				}
				if (x.Op == "from" || x.Op == "upto" || x.Op == "len") && len(x.A) > 0 {
					x, _ = x.A[0].(*Term)
					continue
				}
				break
			}
		case *Int:
			if v.P > 0 || v.Off != 0 {
				used[key(v)] = true
			}
			if v.B != nil {
				vis(v.B)
			}
		case *Struct:
			for _, f := range v.F {
				vis(f)
			}
		case *Ptr:
			for _, f := range v.Path {
				vis(f)
			}
		case *Iface:
			vis(v.V)
		case *Func:
			for _, f := range v.B {
				vis(f)
			}
		case *Tuple:
			for _, f := range v.V {
				vis(f)
			}
		}
	}
	for _, f := range st.frames {
		for r, v := range f.regs {
			if p, ok := r.(*ssa.Phi); ok && p.Comment == "rangeindex" {
				continue // index of the element already left
			}
			vis(v)
		}
		for _, d := range f.defers {
			vis(d.fn)
			for _, a := range d.args {
				vis(a)
			}
		}
		if f.panicVal != nil {
			vis(f.panicVal)
		}
	}
	for id, o := range st.heap {
		if in.base != nil && id <= in.baseMax && in.base.heap[id] == o {
			continue
		}
		switch o := o.(type) {
		case *Cell:
			vis(o.V)
		case *ListObj:
			for _, s := range o.At {
				vis(s.V)
			}
			vis(o.Rest)
		case *MapObj:
			for _, e := range o.E {
				vis(e.K)
				vis(e.V)
			}
		}
	}
	for _, v := range st.events {
		vis(v)
	}
	for _, v := range st.pins {
		vis(v)
	}
	for _, v := range extra {
		vis(v)
	}
	return used, lists
}

// dropStale forgets facts about values at loop positions that no live value
// leads to any more.
func (in *Interp) dropStale(st *State, q int, extra ...Val) {
	var used, lists map[string]bool
	memo := map[string]bool{}
	var derivable func(v Val) bool
	derivable = func(v Val) bool {
		switch v := v.(type) {
		case *Term:
			if len(v.pv) == 0 && !v.rel || used[v.key] {
				return true
			}
			if r, ok := memo[v.key]; ok {
				return r
			}
			r := true
			for _, a := range v.A {
				if !derivable(a) {
					r = false
					break
				}
			}
			memo[v.key] = r
			return r
		case *Int:
			if v.P > 0 || v.Off != 0 {
				return used[key(v)]
			}
			if v.B != nil {
				return derivable(v.B)
			}
			return true
		}
		s := map[int]bool{}
		pvOf(v, s)
		return len(s) == 0
	}
	stale := func(t *Term) bool {
		if len(t.pv) == 0 && !t.rel {
			return false
		}
		if q > 0 {
			has := false
			for _, p := range t.pv {
				if p == q {
					has = true
				}
			}
			if !has {
				return false
			}
		}
		if used == nil {
			used, lists = in.liveTerms(st, extra)
		}
		return !derivable(t)
	}
	for k, a := range st.atoms {
		if stale(a.T) {
			delete(st.atoms, k)
		}
	}
	for k, e := range st.exact {
		if stale(e.T) {
			delete(st.exact, k)
			continue
		}
		if l, ok := e.T.A[0].(*Term); ok && in.Sc.forgetLists && q == 0 && in.cfg(st, l).Focus == 0 {
			if used == nil {
				used, lists = in.liveTerms(st, extra)
			}
			if !lists[l.key] {
				delete(st.exact, k)
			}
		}
	}
	for k, r := range st.regs {
		if stale(r.L) {
			delete(st.regs, k)
			continue
		}
		if in.Sc.forgetLists && q == 0 && in.cfg(st, r.L).Focus == 0 {
			// the list is not being walked
			if used == nil {
				used, lists = in.liveTerms(st, extra)
			}
			if !lists[r.L.key] {
				delete(st.regs, k)
				continue
			}
		}
		if i, ok := r.I.(*Int); ok && i.B != nil && stale(i.B) {
			delete(st.regs, k)
		}
	}
}

// foldStale folds map entries and slots keyed by positions that no register
// or cell mentions any more, and collapses strings over such positions.
func (in *Interp) foldStale(st *State) {
	live := map[int]bool{}
	for _, f := range st.frames {
		for _, v := range f.regs {
			pvOf(v, live)
		}
	}
	for _, o := range st.heap {
		switch o := o.(type) {
		case *Cell:
			pvOf(o.V, live)
		case *ListObj:
			pvOf(o.Len, live)
		}
	}
	for id, o := range st.heap {
		if in.base != nil && id <= in.baseMax && in.base.heap[id] == o {
			continue
		}
		if m, ok := o.(*MapObj); ok {
			n := foldMap(m, func(k Val) bool {
				s := map[int]bool{}
				pvOf(k, s)
				for p := range s {
					if !live[p] {
						return true
					}
				}
				return false
			})
			if n != nil {
				st.heap[id] = n
			}
		}
		if l, ok := o.(*ListObj); ok {
			if c, ok := constInt(l.Len); ok && c > maxExact {
				st.heap[id] = &ListObj{View: l.View, Elem: l.Elem, Len: &Top{types.Typ[types.Int]}, Rest: &Top{l.Elem}}
			}
		}
	}
	// accumulated strings
	coll := func(v Val) Val { return in.collapse(v) }
	for _, f := range st.frames {
		for k, v := range f.regs {
			if t, ok := v.(*Term); ok {
				f.regs[k] = coll(t)
			}
		}
	}
	for id, o := range st.heap {
		if c, ok := o.(*Cell); ok {
			if t, ok := c.V.(*Term); ok {
				if n := coll(t); key(n) != t.key {
					st.heap[id] = &Cell{n, c.T}
				}
			}
		}
	}
}

// collapse shortens a string accumulated over a loop: parts that belong to
// elements left behind become "any".
func (in *Interp) collapse(v Val) Val {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	if t.Op == "builder" {
		n := in.collapse(t.A[0])
		if key(n) == key(t.A[0]) {
			return v
		}
		return rawTerm("builder", t.T, n)
	}
	if t.Op != "cat" || len(t.pv) == 0 && len(t.A) < 12 {
		return v
	}
	var ps []Val
	for _, p := range t.A {
		stale := false
		visitInts(p, func(i *Int) {
			if i.P > 0 {
				stale = true
			}
		})
		if stale {
			ps = append(ps, rawTerm("any", strType))
			continue
		}
		ps = append(ps, p)
	}
	// constants between two "any" parts are absorbed
	for i := 1; i+1 < len(ps); {
		if c, isC := constStr(ps[i]); isC && isAny(ps[i-1]) && isAny(ps[i+1]) && (in.Sc.absorb == nil || in.Sc.absorb(c)) {
			ps = append(ps[:i], ps[i+1:]...)
			continue
		}
		i++
	}
	return catOf(ps)
}
