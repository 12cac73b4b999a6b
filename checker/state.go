package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- heap objects (immutable; replaced on update) ----

type Obj interface{}

type Cell struct {
	V Val
	T types.Type
}

type Slot struct{ I, V Val }

// ListObj is a slice's or array's backing list: explicitly known slots, and
// Rest for every other element (nil: none can exist / never written).
type ListObj struct {
	Elem types.Type
	Len  Val
	At   []Slot
	Rest Val
	View bool // a part of another slice
}

type MapEnt struct {
	K       Val
	Present bool
	V       Val
}

type MapObj struct {
	T         *types.Map
	E         []MapEnt
	Others    []Val
	HasOthers bool
}

type IterObj struct {
	M    int // map object, 0: unknown map
	Str  Val
	T    types.Type
	Seen []Val
	Idx  int
}

type TopObj struct{ View bool }

type Atom struct {
	T *Term
	V bool
}

type PV struct {
	Exact    int
	HasExact bool
	Min      int
}

type exFact struct {
	T *Term
	N int
}

type regFact struct {
	I    Val // *Int (with Off) or *Const
	L    *Term
	Mask int
}

type deferred struct {
	fn   Val
	inv  *ssa.CallCommon
	args []Val
	pos  token.Pos
}

type Frame struct {
	fn        *ssa.Function
	regs      map[ssa.Value]Val
	defers    []deferred
	panicVal  Val // non-nil while unwinding
	recovered bool
	deferOf   int // 1+index of the frame whose deferred call this is
}

type snapKey struct {
	depth int
	fn    *ssa.Function
	block int
}

type snapshot struct {
	id   int
	ints map[string]Val
}

type State struct {
	onWrite func(*State, int)
	wmin    int // lowest object changed since the innermost recursive call (0: none)
	frames  []*Frame
	heap    map[int]Obj
	glob    map[*ssa.Global]int
	atoms   map[string]Atom
	pvs     map[int]PV
	exact   map[string]exFact // exact values of lengths and focus indexes
	regs    map[string]regFact
	blind   map[int]bool
	owner   map[int][]int
	sticky  bool
	snaps   map[snapKey]*snapshot
	events  []Val
	tops    []int
	ti      int
	trail   *trail
	exited  bool
	notes   map[string]bool // scenario notes
	pins    []Val           // scenario roots
}

type trail struct {
	prev *trail
	s    string
	n    int
}

func (t *trail) list(max int) []string {
	var r []string
	for x := t; x != nil && len(r) < max; x = x.prev {
		r = append(r, x.s)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (st *State) clone() *State {
	n := &State{onWrite: st.onWrite,
		frames: make([]*Frame, len(st.frames)), heap: make(map[int]Obj, len(st.heap)), glob: st.glob,
		atoms: make(map[string]Atom, len(st.atoms)), pvs: make(map[int]PV, len(st.pvs)),
		exact: make(map[string]exFact, len(st.exact)), regs: make(map[string]regFact, len(st.regs)),
		blind: make(map[int]bool, len(st.blind)), owner: make(map[int][]int, len(st.owner)), sticky: st.sticky, snaps: make(map[snapKey]*snapshot, len(st.snaps)),
		events: st.events[:len(st.events):len(st.events)], tops: append([]int(nil), st.tops...), ti: st.ti, trail: st.trail, exited: st.exited,
		notes: st.notes, pins: st.pins, wmin: st.wmin,
	}
	for i, f := range st.frames {
		nf := *f
		nf.regs = make(map[ssa.Value]Val, len(f.regs))
		for k, v := range f.regs {
			nf.regs[k] = v
		}
		nf.defers = f.defers[:len(f.defers):len(f.defers)]
		n.frames[i] = &nf
	}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.atoms {
		n.atoms[k] = v
	}
	for k, v := range st.pvs {
		n.pvs[k] = v
	}
	for k, v := range st.exact {
		n.exact[k] = v
	}
	for k, v := range st.regs {
		n.regs[k] = v
	}
	for k, v := range st.blind {
		n.blind[k] = v
	}
	for k, v := range st.snaps {
		n.snaps[k] = v
	}
	for k, v := range st.owner {
		n.owner[k] = v
	}
	return n
}

func (st *State) note(n string) {
	if st.notes[n] {
		return
	}
	m := map[string]bool{n: true}
	for k := range st.notes {
		m[k] = true
	}
	st.notes = m
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// ---- forking ----

type forkReq struct {
	alts []func(*State)
	desc []string
}

func fork(desc []string, alts ...func(*State)) {
	panic(&forkReq{alts, desc})
}

// choose is an unrecorded nondeterministic choice.
func (st *State) choose(n int, what string) int {
	if st.ti < len(st.tops) {
		st.ti++
		return st.tops[st.ti-1]
	}
	var alts []func(*State)
	var ds []string
	for i := 0; i < n; i++ {
		i := i
		alts = append(alts, func(s *State) { s.tops = append(s.tops, i) })
		ds = append(ds, fmt.Sprintf("%s #%d", what, i))
	}
	panic(&forkReq{alts, ds})
}

func (st *State) markBlind(t Val) {
	if !trackBlind {
		return
	}
	set := map[int]bool{}
	pvOf(t, set)
	for p := range set {
		st.blind[p] = true
	}
}

// trackBlind follows which elements outside the focus were decided upon.
var trackBlind = false

// ---- engine ----

type Tri int

const (
	Maybe Tri = iota
	Yes
	No
)

func triOf(b bool) Tri {
	if b {
		return Yes
	}
	return No
}

const (
	rNEG = iota
	rS0
	rW1
	rS1
	rW2
	rS2
	rEND
	rBEY
)

var regName = []string{"neg", "before", "w1", "mid", "w2", "after", "end", "beyond"}

// ListCfg describes the abstraction of one input list.
type ListCfg struct {
	Focus int  // number of focus elements
	Segs  int  // bit 0: elements before, 1: between, 2: after may exist
	Min1  bool // at least one element (only relevant without focus)
	Exact int  // exact length, or -1
}

type Interp struct {
	P   *Program
	Sc  *Scenario
	nid int
	npv int

	base       *State // state after package initialisation
	baseMax    int
	initEvents []Val

	steps     int
	maxSteps  int
	onOut     func(Outcome) bool
	hdrIDs    map[string]int
	undecided map[string]bool
	rec       *recCtx
	recDone   map[string]*summary
	fnsSeen   map[*ssa.Function]bool
	callsSeen map[string]int
	forks     int
	joins     int
	states    int
	curPos    token.Pos
	loops     map[string]bool
	opType    map[string]types.Type // type-test operators
	notes     map[string]bool
}

func (in *Interp) newID() int { in.nid++; return in.nid }
func (in *Interp) newPV(st *State, pv PV) int {
	in.npv++
	st.pvs[in.npv] = pv
	return in.npv
}

func (in *Interp) undecide(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	in.undecided[s] = true
}

// wrote records a change of the object id by the program.
func (st *State) wrote(id int) {
	if st.onWrite != nil {
		st.onWrite(st, id)
	}
	if st.wmin == 0 || id < st.wmin {
		st.wmin = id
	}
}

func (in *Interp) alloc(st *State, o Obj) int {
	id := in.newID()
	st.heap[id] = o
	return id
}

func (in *Interp) decide(st *State, t *Term) bool {
	if a, ok := st.atoms[t.key]; ok {
		return a.V
	}
	if t.Op == "eq" && len(t.A) == 2 {
		if c, ok := t.A[0].(*Const); ok && c.V != nil {
			xk := key(t.A[1])
			for _, a := range st.atoms {
				if a.V && a.T.Op == "eq" && len(a.T.A) == 2 {
					if c2, ok := a.T.A[0].(*Const); ok && c2.V != nil && key(a.T.A[1]) == xk && key(c) != key(c2) {
						return false
					}
				}
			}
		}
	}
	switch in.Sc.decide(in, st, t) {
	case Yes:
		return true
	case No:
		return false
	}
	set := func(v bool) func(*State) {
		return func(s *State) {
			s.atoms[t.key] = Atom{t, v}
			s.markBlind(t)
		}
	}
	fork([]string{t.key + " = true", t.key + " = false"}, set(true), set(false))
	return false
}

// term builds a term, letting the scenario replace it.
func (in *Interp) term(st *State, op string, t types.Type, a ...Val) Val {
	for _, x := range a {
		if _, ok := x.(*Top); ok {
			return &Top{t}
		}
	}
	tm := rawTerm(op, t, a...)
	if len(tm.key) > 1500 {
		return &Top{t}
	}
	if v := in.Sc.resolve(in, st, tm); v != nil {
		return v
	}
	return tm
}

// ---- integers and regions ----

func intKey(v Val) string { return key(v) }

func (in *Interp) exactOf(st *State, v Val) (int, bool) {
	if c, ok := constInt(v); ok {
		return c, true
	}
	i, ok := v.(*Int)
	if !ok {
		return 0, false
	}
	if i.P > 0 {
		if p := st.pvs[i.P]; p.HasExact {
			return p.Exact + i.Off, true
		}
		return 0, false
	}
	if e, ok := st.exact[i.B.key]; ok {
		return e.N + i.Off, true
	}
	return 0, false
}

func (in *Interp) addInt(v Val, k int) Val {
	if c, ok := constInt(v); ok {
		return intV(c + k)
	}
	if i, ok := v.(*Int); ok {
		n := &Int{i.P, i.B, i.Off + k}
		if n.Off > 4 || n.Off < -4 {
			return &Top{types.Typ[types.Int]}
		}
		return n
	}
	return &Top{types.Typ[types.Int]}
}

func (in *Interp) cfg(st *State, l *Term) ListCfg { return in.Sc.listCfg(in, st, l) }

func lenTerm(l *Term) *Term { return rawTerm("len", types.Typ[types.Int], l) }
func fidx(l *Term, k int) *Int {
	return &Int{B: rawTerm("focus", types.Typ[types.Int], l, intV(k))}
}

func (in *Interp) listLen(st *State, l *Term) Val {
	c := in.cfg(st, l)
	if c.Exact >= 0 {
		return intV(c.Exact)
	}
	return &Int{B: lenTerm(l)}
}

func (c ListCfg) seg(i int) bool { return c.Segs&(1<<i) != 0 }

func (c ListCfg) start() int {
	m := 0
	if c.Exact >= 0 {
		if c.Exact == 0 {
			return 1 << rEND
		}
		return 1 << rS0
	}
	if c.Focus == 0 {
		m = 1 << rS0
		if !c.Min1 {
			m |= 1 << rEND
		}
		return m
	}
	if c.seg(0) {
		m |= 1 << rS0
	}
	return m | 1<<rW1
}

func (c ListCfg) succ1(r int) int {
	switch r {
	case rNEG:
		return 1<<rNEG | c.start()
	case rS0:
		if c.Focus == 0 {
			return 1<<rS0 | 1<<rEND
		}
		return 1<<rS0 | 1<<rW1
	case rW1:
		m := 0
		if c.seg(1) {
			m |= 1 << rS1
		}
		if c.Focus >= 2 {
			return m | 1<<rW2
		}
		return m | 1<<rEND
	case rS1:
		if c.Focus >= 2 {
			return 1<<rS1 | 1<<rW2
		}
		return 1<<rS1 | 1<<rEND
	case rW2:
		m := 1 << rEND
		if c.seg(2) {
			m |= 1 << rS2
		}
		return m
	case rS2:
		return 1<<rS2 | 1<<rEND
	}
	return 1 << rBEY
}

func (c ListCfg) allRegs() int {
	m := 1<<rNEG | 1<<rEND | 1<<rBEY
	if c.Focus == 0 {
		return m | 1<<rS0
	}
	if c.seg(0) {
		m |= 1 << rS0
	}
	m |= 1 << rW1
	if c.seg(1) {
		m |= 1 << rS1
	}
	if c.Focus >= 2 {
		m |= 1 << rW2
		if c.seg(2) {
			m |= 1 << rS2
		}
	}
	return m
}

func (c ListCfg) succ(mask int) int {
	r := 0
	for i := rNEG; i <= rBEY; i++ {
		if mask&(1<<i) != 0 {
			r |= c.succ1(i)
		}
	}
	return r
}

func (c ListCfg) pred(mask int) int {
	r := 0
	all := c.allRegs()
	for i := rNEG; i <= rBEY; i++ {
		if all&(1<<i) != 0 && c.succ1(i)&mask != 0 {
			r |= 1 << i
		}
	}
	return r
}

func rkey(v Val, l *Term) string { return key(v) + "@" + l.key }

// regionMask is the set of regions of list l in which integer v may lie.
func (in *Interp) regionMask(st *State, v Val, l *Term) int {
	c := in.cfg(st, l)
	all := c.allRegs()
	f, hasF := st.regs[rkey(v, l)]
	lim := func(m int) int {
		if hasF {
			return m & f.Mask
		}
		return m
	}
	if e, ok := in.exactOf(st, v); ok {
		if cf, ok2 := st.regs[rkey(intV(e), l)]; ok2 {
			if hasF {
				f.Mask &= cf.Mask
			} else {
				f, hasF = cf, true
			}
		}
		if e < 0 {
			return 1 << rNEG
		}
		if c.Exact >= 0 {
			switch {
			case e < c.Exact:
				return 1 << rS0
			case e == c.Exact:
				return 1 << rEND
			}
			return 1 << rBEY
		}
		if e > 6 {
			return lim(all &^ (1 << rNEG))
		}
		// value known: chain from 0
		m := c.start()
		if cf, ok := st.regs[rkey(intV(0), l)]; ok {
			m &= cf.Mask
		}
		for k := 1; k <= e; k++ {
			m = c.succ(m)
			if cf, ok := st.regs[rkey(intV(k), l)]; ok {
				m &= cf.Mask
			}
		}
		m = lim(m)
		if iv, ok := v.(*Int); ok && iv.B != nil {
			if m2 := m & in.baseMask(st, iv, l, c, all); m2 != 0 {
				m = m2
			}
		}
		return m
	}
	iv, ok := v.(*Int)
	if !ok {
		return all
	}
	if iv.B != nil {
		return lim(in.baseMask(st, iv, l, c, all))
	}
	m, known := all, hasF
	if hasF {
		m = f.Mask
	}
	if !hasF || oneBit(m) < 0 {
		meet := func(x int) {
			known = true
			if m&x != 0 {
				m &= x
			}
		}
		for d := 1; d <= 4; d++ {
			if f, ok := st.regs[rkey(&Int{iv.P, nil, iv.Off - d}, l)]; ok {
				x := f.Mask
				for k := 0; k < d; k++ {
					x = c.succ(x)
				}
				meet(x)
			}
			if f, ok := st.regs[rkey(&Int{iv.P, nil, iv.Off + d}, l)]; ok {
				x := f.Mask
				for k := 0; k < d; k++ {
					x = c.pred(x)
				}
				meet(x)
			}
			if known && !hasF {
				break
			}
		}
	}
	if known {
		return m
	}
	if st.pvs[iv.P].Min+iv.Off >= 0 {
		all &^= 1 << rNEG
	}
	return all
}

func (in *Interp) baseMask(st *State, iv *Int, l *Term, c ListCfg, all int) int {
	step := func(m int) int {
		for k := 0; k < iv.Off; k++ {
			m = c.succ(m)
		}
		for k := 0; k > iv.Off; k-- {
			m = c.pred(m)
		}
		return m
	}
	switch iv.B.Op {
	case "len":
		if lt, ok := iv.B.A[0].(*Term); ok && lt.key == l.key {
			return step(1 << rEND)
		}
	case "focus":
		if lt, ok := iv.B.A[0].(*Term); ok && lt.key == l.key {
			k, _ := constInt(iv.B.A[1])
			return step(1 << (rW1 + 2*(k-1)))
		}
	}
	// a fact recorded for some offset of the same base
	for d := 1; d <= 3; d++ {
		if f, ok := st.regs[rkey(&Int{0, iv.B, iv.Off - d}, l)]; ok {
			m := f.Mask
			for k := 0; k < d; k++ {
				m = c.succ(m)
			}
			return m
		}
	}
	return all
}

func oneBit(m int) int {
	for i := 0; i < 8; i++ {
		if m == 1<<i {
			return i
		}
	}
	return -1
}

// region decides the region of v in l, forking when several are possible.
func (in *Interp) region(st *State, v Val, l *Term) int {
	m := in.regionMask(st, v, l)
	if m == 0 {
		panic(&infeasible{})
	}
	if b := oneBit(m); b >= 0 {
		in.setRegion(st, v, l, b)
		return b
	}
	var alts []func(*State)
	var ds []string
	for i := 0; i < 8; i++ {
		if m&(1<<i) != 0 {
			i := i
			alts = append(alts, func(s *State) { in.setRegion(s, v, l, i) })
			ds = append(ds, fmt.Sprintf("%s of %s is %s", key(v), l.key, regName[i]))
		}
	}
	panic(&forkReq{alts, ds})
}

type infeasible struct{}

func (in *Interp) setRegion(st *State, v Val, l *Term, r int) {
	k := rkey(v, l)
	c := in.cfg(st, l)
	if c.Exact >= 0 {
		return
	}
	e, isEx := in.exactOf(st, v)
	iv, isInt := v.(*Int)
	if isInt && iv.B != nil && (iv.B.Op == "len" || iv.B.Op == "focus") {
		if lt, ok := iv.B.A[0].(*Term); ok && lt.key == l.key && oneBit(in.baseMask(st, iv, l, c, c.allRegs())) >= 0 {
			if isEx {
				st.regs[rkey(intV(e), l)] = regFact{intV(e), l, 1 << r}
			}
			return
		}
	}
	if isEx && e >= 0 && e <= 6 {
		st.regs[rkey(intV(e), l)] = regFact{intV(e), l, 1 << r}
	}
	if isInt {
		if f, ok := st.regs[k]; !ok || f.Mask != 1<<r {
			st.regs[k] = regFact{v, l, 1 << r}
		}
		if iv.P > 0 && len(l.pv) > 0 {
			if _, ok := st.owner[iv.P]; !ok {
				st.owner[iv.P] = append([]int(nil), l.pv...)
			}
		}
		if iv.P > 0 && (r == rW1 || r == rW2) {
			fk := 1
			if r == rW2 {
				fk = 2
			}
			b := fidx(l, fk)
			if isEx {
				st.exact[b.B.key] = exFact{b.B, e}
			}
			in.substPV(st, iv.P, &Int{B: b.B, Off: -iv.Off})
		}
		if iv.P > 0 && r == rEND {
			in.dropStale(st, iv.P)
			b := lenTerm(l)
			if isEx {
				st.exact[b.key] = exFact{b, e}
			}
			in.substPV(st, iv.P, &Int{B: b, Off: -iv.Off})
		}
	} else if !isEx {
		st.regs[k] = regFact{v, l, 1 << r}
	}
}

// maxDrift bounds how far behind a loop index a remembered element may be.
const maxDrift = 5

// substPV replaces position variable p by base int (p == to).
func (in *Interp) substPV(st *State, p int, to *Int) {
	has := func(v Val) bool {
		set := map[int]bool{}
		pvOf(v, set)
		return set[p]
	}
	f := func(i *Int) Val {
		if i.P == p {
			if o := i.Off + to.Off; o > maxDrift || o < -maxDrift {
				return &Top{types.Typ[types.Int]}
			}
			return &Int{to.P, to.B, i.Off + to.Off}
		}
		return i
	}
	in.mapState(st, has, f)
	delete(st.pvs, p)
	if st.blind[p] {
		delete(st.blind, p)
		// decisions made about it now concern a focus element
		set := map[int]bool{}
		pvOf(to, set)
		for q := range set {
			st.blind[q] = true
		}
	}
}

// mapState rewrites every value of the state.
func (in *Interp) mapState(st *State, has func(Val) bool, f intSubst) {
	sv := func(v Val) Val {
		if v == nil {
			return nil
		}
		return in.renorm(st, substVal(v, f, has))
	}
	for _, fr := range st.frames {
		for k, v := range fr.regs {
			fr.regs[k] = sv(v)
		}
		for i := range fr.defers {
			d := fr.defers[i]
			d.fn = sv(d.fn)
			na := make([]Val, len(d.args))
			for j, a := range d.args {
				na[j] = sv(a)
			}
			d.args = na
			nd := append([]deferred(nil), fr.defers...)
			nd[i] = d
			fr.defers = nd
		}
		if fr.panicVal != nil {
			fr.panicVal = sv(fr.panicVal)
		}
	}
	for id, o := range st.heap {
		if in.base != nil && id <= in.baseMax && in.base.heap[id] == o {
			continue
		}
		switch o := o.(type) {
		case *Cell:
			if n := sv(o.V); n != o.V {
				st.heap[id] = &Cell{n, o.T}
			}
		case *ListObj:
			n := &ListObj{View: o.View, Elem: o.Elem, Len: sv(o.Len), Rest: sv(o.Rest)}
			for _, s := range o.At {
				i, v := sv(s.I), sv(s.V)
				if _, top := i.(*Top); top {
					n.Rest = joinVal(n.Rest, v, o.Elem)
					continue
				}
				n.At = append(n.At, Slot{i, v})
			}
			st.heap[id] = n
		case *MapObj:
			n := &MapObj{T: o.T, HasOthers: o.HasOthers}
			for _, e := range o.E {
				k := sv(e.K)
				if _, top := k.(*Top); top {
					if e.Present {
						n.HasOthers = true
						n.Others = append(n.Others, &Top{o.T.Elem()})
					}
					continue
				}
				n.E = append(n.E, MapEnt{k, e.Present, sv(e.V)})
			}
			for _, v := range o.Others {
				n.Others = append(n.Others, sv(v))
			}
			st.heap[id] = n
		case *IterObj:
			n := *o
			n.Seen = nil
			for _, s := range o.Seen {
				n.Seen = append(n.Seen, sv(s))
			}
			n.Str = sv(o.Str)
			st.heap[id] = &n
		}
	}
	na := map[string]Atom{}
	for _, a := range st.atoms {
		if t, ok := substVal(a.T, f, has).(*Term); ok {
			if old, ok := na[t.key]; ok && old.V != a.V {
				panic(&infeasible{})
			}
			na[t.key] = Atom{t, a.V}
		}
	}
	st.atoms = na
	nr := map[string]regFact{}
	for _, r := range st.regs {
		i := substVal(r.I, f, has)
		l, ok := substVal(r.L, f, has).(*Term)
		if _, top := i.(*Top); top || !ok {
			continue
		}
		k := rkey(i, l)
		m := r.Mask
		if o, ok := nr[k]; ok {
			m &= o.Mask
			if m == 0 {
				panic(&infeasible{})
			}
		}
		nr[k] = regFact{i, l, m}
	}
	st.regs = nr
	ne := map[string]exFact{}
	for _, e := range st.exact {
		if t, ok := substVal(e.T, f, has).(*Term); ok {
			ne[t.key] = exFact{t, e.N}
		}
	}
	st.exact = ne
	for k, s := range st.snaps {
		ns := &snapshot{id: s.id, ints: map[string]Val{}}
		for p, v := range s.ints {
			ns.ints[p] = substVal(v, f, has)
		}
		st.snaps[k] = ns
	}
	if len(st.pins) > 0 {
		np := make([]Val, len(st.pins))
		for i, e := range st.pins {
			np[i] = sv(e)
		}
		st.pins = np
	}
	for i, e := range st.events {
		if has(e) {
			ev := append([]Val(nil), st.events...)
			ev[i] = sv(e)
			st.events = ev
		}
	}
}

// renorm re-applies the scenario's rewriting after a substitution.
func (in *Interp) renorm(st *State, v Val) Val {
	switch v := v.(type) {
	case *Term:
		na := make([]Val, len(v.A))
		ch := false
		for i, a := range v.A {
			na[i] = in.renorm(st, a)
			if na[i] != a {
				ch = true
			}
		}
		t := v
		if ch {
			for _, x := range na {
				if _, ok := x.(*Top); ok {
					return &Top{v.T}
				}
			}
			t = rawTerm(v.Op, v.T, na...)
		}
		if r := in.Sc.resolve(in, st, t); r != nil {
			return r
		}
		return t
	case *Struct:
		n := &Struct{make([]Val, len(v.F)), v.T}
		for i, x := range v.F {
			n.F[i] = in.renorm(st, x)
		}
		return n
	case *Iface:
		return &Iface{v.T, in.renorm(st, v.V)}
	case *Tuple:
		n := &Tuple{make([]Val, len(v.V))}
		for i, x := range v.V {
			n.V[i] = in.renorm(st, x)
		}
		return n
	}
	return v
}

// compare evaluates a op b on integers.
func (in *Interp) compare(st *State, op token.Token, a, b Val) bool {
	switch op {
	case token.NEQ:
		return !in.compare(st, token.EQL, a, b)
	case token.GEQ:
		return !in.compare(st, token.LSS, a, b)
	case token.GTR:
		return in.compare(st, token.LSS, b, a)
	case token.LEQ:
		return !in.compare(st, token.LSS, b, a)
	}
	ea, oka := in.exactOf(st, a)
	eb, okb := in.exactOf(st, b)
	if oka && okb {
		if op == token.EQL {
			return ea == eb
		}
		return ea < eb
	}
	ia, isA := a.(*Int)
	ib, isB := b.(*Int)
	if isA && isB && ia.P == ib.P && (ia.B == nil && ib.B == nil || ia.B != nil && ib.B != nil && ia.B.key == ib.B.key) {
		if op == token.EQL {
			return ia.Off == ib.Off
		}
		return ia.Off < ib.Off
	}
	lenOf := func(i *Int) *Term {
		if i != nil && i.B != nil && i.B.Op == "len" {
			t, _ := i.B.A[0].(*Term)
			return t
		}
		return nil
	}
	focOf := func(i *Int) (*Term, int) {
		if i != nil && i.B != nil && i.B.Op == "focus" {
			t, _ := i.B.A[0].(*Term)
			k, _ := constInt(i.B.A[1])
			return t, k
		}
		return nil, 0
	}
	intLike := func(v Val) bool {
		if _, ok := v.(*Int); ok {
			return true
		}
		_, ok := constInt(v)
		return ok
	}
	// rel evaluates pred on every region v may be in, forking if needed
	rel := func(v Val, l *Term, pred func(r int) bool) bool {
		m := in.regionMask(st, v, l)
		yes, no := false, false
		for i := 0; i < 8; i++ {
			if m&(1<<i) != 0 {
				if pred(i) {
					yes = true
				} else {
					no = true
				}
			}
		}
		if yes != no {
			if iv, ok := v.(*Int); ok && iv.P > 0 {
				if _, ok := st.regs[rkey(v, l)]; !ok {
					st.regs[rkey(v, l)] = regFact{v, l, m}
				}
			}
			return yes
		}
		return pred(in.region(st, v, l))
	}
	if l := lenOf(ib); l != nil && intLike(a) {
		return rel(in.addInt(a, -ib.Off), l, func(r int) bool {
			if op == token.EQL {
				return r == rEND
			}
			return r < rEND
		})
	}
	if l := lenOf(ia); l != nil && intLike(b) {
		// len+k < b  <=>  len < b-k  <=> region(b-k) beyond
		return rel(in.addInt(b, -ia.Off), l, func(r int) bool {
			if op == token.EQL {
				return r == rEND
			}
			return r == rBEY
		})
	}
	if l, k := focOf(ib); l != nil && intLike(a) {
		w := rW1 + 2*(k-1)
		return rel(in.addInt(a, -ib.Off), l, func(r int) bool {
			if op == token.EQL {
				return r == w
			}
			return r < w
		})
	}
	if l, k := focOf(ia); l != nil && intLike(b) {
		w := rW1 + 2*(k-1)
		return rel(in.addInt(b, -ia.Off), l, func(r int) bool {
			if op == token.EQL {
				return r == w
			}
			return w < r
		})
	}
	// position variable against a constant
	if isA && okb {
		if lo, ok := in.lower(st, ia); ok {
			if op == token.LSS && lo >= eb {
				return false
			}
			if op == token.EQL && lo > eb {
				return false
			}
		}
	}
	if isB && oka {
		if lo, ok := in.lower(st, ib); ok {
			if op == token.LSS && lo > ea {
				return true
			}
			if op == token.EQL && lo > ea {
				return false
			}
		}
	}
	_, ta := a.(*Top)
	_, tb := b.(*Top)
	if ta || tb {
		return st.choose(2, "unknown comparison") == 0
	}
	if isA && isB && ia.P > 0 && ib.P > 0 {
		// decided by a common list?
		for _, f := range st.regs {
			if fi, ok := f.I.(*Int); ok && fi.P == ia.P {
				ma, mb := in.regionMask(st, a, f.L), in.regionMask(st, b, f.L)
				x, y := oneBit(ma), oneBit(mb)
				if x >= 0 && y >= 0 && x != y {
					if op == token.EQL {
						return false
					}
					return x < y
				}
			}
		}
	}
	// lengths of texts of which one is the beginning of the other
	if isA && isB && ia.P == 0 && ib.P == 0 {
		if d, ok := in.lenDiff(st, ia, ib); ok { // b-a >= d
			if d > 0 {
				return op == token.LSS
			}
		}
		if d, ok := in.lenDiff(st, ib, ia); ok { // a-b >= d
			if d > 0 || d == 0 && op == token.LSS {
				return false
			}
		}
	}
	o := "lt"
	if op == token.EQL {
		o = "eq"
		if key(a) > key(b) {
			a, b = b, a
		}
	}
	return in.decide(st, rawTerm(o, types.Typ[types.Bool], a, b))
}

// lower is a known lower bound of i.
func (in *Interp) lower(st *State, i *Int) (int, bool) {
	if i.P > 0 {
		m := st.pvs[i.P].Min
		for _, f := range st.regs {
			if fi, ok := f.I.(*Int); ok && fi.P == i.P {
				if f.Mask&(1<<rNEG) == 0 && -fi.Off > m {
					m = -fi.Off
				}
				if c := in.cfg(st, f.L); f.Mask&(1<<rNEG) == 0 && c.Focus > 0 && f.Mask&(c.start()|1<<rS0) == 0 && 1-fi.Off > m {
					m = 1 - fi.Off
				}
			}
		}
		return m + i.Off, true
	}
	switch i.B.Op {
	case "len":
		if l, ok := i.B.A[0].(*Term); ok {
			c := in.cfg(st, l)
			n := c.Focus
			if n == 0 && c.Min1 {
				n = 1
			}
			return n + i.Off, true
		}
	case "focus":
		k, _ := constInt(i.B.A[1])
		return k - 1 + i.Off, true
	case "strlen":
		n := 0
		for _, p := range parts(i.B.A[0]) {
			if _, ne := in.first(st, p); ne {
				n++
			}
		}
		return n + i.Off, true
	}
	return 0, false
}

// ---- canonical keys and garbage collection ----

// rootsKey renders the state canonically, visiting everything reachable, and
// prunes what is not.
func (in *Interp) canonKey(st *State, extra []Val, prune bool) string {
	c := newCanon()
	var sb strings.Builder
	for d, f := range st.frames {
		fmt.Fprintf(&sb, "F%d:%s[", d, f.fn.String())
		type rv struct {
			n string
			v Val
		}
		rs := make([]rv, 0, len(f.regs))
		for k, v := range f.regs {
			rs = append(rs, rv{regID(k), v})
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].n < rs[j].n })
		for _, r := range rs {
			sb.WriteString(r.n)
			sb.WriteByte('=')
			wkey(&sb, r.v, c)
			sb.WriteByte(' ')
		}
		for _, df := range f.defers {
			sb.WriteString("D")
			wkey(&sb, df.fn, c)
			for _, a := range df.args {
				wkey(&sb, a, c)
			}
		}
		if f.panicVal != nil {
			sb.WriteString("P")
			wkey(&sb, f.panicVal, c)
		}
		if f.recovered {
			sb.WriteString("R")
		}
		sb.WriteString("]")
	}
	for _, x := range extra {
		sb.WriteString("X")
		wkey(&sb, x, c)
	}
	for _, e := range st.events {
		sb.WriteString("E")
		wkey(&sb, e, c)
	}
	for _, e := range st.pins {
		sb.WriteString("Q")
		wkey(&sb, e, c)
	}
	// changed base objects are roots too
	if in.base != nil {
		var ch []int
		for id, o := range in.base.heap {
			if st.heap[id] != o {
				ch = append(ch, id)
			}
		}
		sort.Ints(ch)
		for _, id := range ch {
			c.o(id)
			fmt.Fprintf(&sb, "G%d", id)
		}
	}
	if in.base == nil {
		// package initialisation: every global is a root
		var gs []int
		for _, id := range st.glob {
			gs = append(gs, id)
		}
		sort.Ints(gs)
		for _, id := range gs {
			c.o(id)
		}
	}
	for i := 0; i < len(c.objs); i++ {
		id := c.objs[i]
		o := st.heap[id]
		if in.base != nil && id <= in.baseMax && in.base.heap[id] == o {
			fmt.Fprintf(&sb, "|B%d", id)
			continue
		}
		fmt.Fprintf(&sb, "|%d:", i+1)
		switch o := o.(type) {
		case *Cell:
			wkey(&sb, o.V, c)
		case *ListObj:
			sb.WriteString("L<")
			if o.View {
				sb.WriteString("view,")
			}
			wkey(&sb, o.Len, c)
			sb.WriteString(">")
			ks := make([]string, len(o.At))
			idx := make([]int, len(o.At))
			for i, s := range o.At {
				var b2 strings.Builder
				wkey(&b2, s.I, nil)
				ks[i], idx[i] = b2.String(), i
			}
			sort.Slice(idx, func(a, b int) bool { return ks[idx[a]] < ks[idx[b]] })
			for _, i := range idx {
				wkey(&sb, o.At[i].I, c)
				sb.WriteString(":")
				wkey(&sb, o.At[i].V, c)
				sb.WriteString(",")
			}
			sb.WriteString("..")
			wkey(&sb, o.Rest, c)
		case *MapObj:
			sb.WriteString("M<")
			idx := make([]int, len(o.E))
			ks := make([]string, len(o.E))
			for i, e := range o.E {
				idx[i], ks[i] = i, key(e.K)
			}
			sort.Slice(idx, func(a, b int) bool { return ks[idx[a]] < ks[idx[b]] })
			for _, i := range idx {
				e := o.E[i]
				wkey(&sb, e.K, c)
				if e.Present {
					sb.WriteString("=")
					wkey(&sb, e.V, c)
				} else {
					sb.WriteString("!")
				}
				sb.WriteString(",")
			}
			if o.HasOthers {
				sb.WriteString("..")
				for _, v := range o.Others {
					wkey(&sb, v, c)
					sb.WriteString(",")
				}
			}
			sb.WriteString(">")
		case *IterObj:
			fmt.Fprintf(&sb, "I%d/%d", o.Idx, len(o.Seen))
			if o.M > 0 {
				fmt.Fprintf(&sb, "m%d", c.o(o.M))
			}
			wkey(&sb, o.Str, c)
			for _, s := range o.Seen {
				wkey(&sb, s, c)
			}
		case *TopObj:
			fmt.Fprintf(&sb, "TOP%v", o.View)
		case nil:
			sb.WriteString("?")
		}
	}
	// facts
	alive := func(set map[int]bool) bool {
		for p := range set {
			if _, ok := c.pv[p]; !ok {
				return false
			}
		}
		return true
	}
	var fs []string
	for k, a := range st.atoms {
		set := map[int]bool{}
		pvOf(a.T, set)
		if !alive(set) {
			if prune {
				delete(st.atoms, k)
			}
			continue
		}
		var b strings.Builder
		wkey(&b, a.T, c)
		fs = append(fs, fmt.Sprintf("A%s=%v", b.String(), a.V))
	}
	for k, r := range st.regs {
		set := map[int]bool{}
		pvOf(r.I, set)
		pvOf(r.L, set)
		if !alive(set) {
			if prune {
				delete(st.regs, k)
			}
			continue
		}
		var b strings.Builder
		wkey(&b, r.I, c)
		b.WriteString("@")
		wkey(&b, r.L, c)
		fs = append(fs, fmt.Sprintf("R%s=%d", b.String(), r.Mask))
	}
	for k, e := range st.exact {
		set := map[int]bool{}
		pvOf(e.T, set)
		if !alive(set) {
			if prune {
				delete(st.exact, k)
			}
			continue
		}
		var b strings.Builder
		wkey(&b, e.T, c)
		fs = append(fs, fmt.Sprintf("X%s=%d", b.String(), e.N))
	}
	for k, s := range st.snaps {
		if k.depth > len(st.frames) {
			if prune {
				delete(st.snaps, k)
			}
			continue
		}
		var ps []string
		for p, v := range s.ints {
			var b strings.Builder
			wkey(&b, v, c)
			ps = append(ps, p+"="+b.String())
		}
		sort.Strings(ps)
		fs = append(fs, fmt.Sprintf("S%d/%d/%s=%s", k.depth, k.block, k.fn, strings.Join(ps, ",")))
	}
	for n := range st.notes {
		fs = append(fs, "N"+n)
	}
	sort.Strings(fs)
	sb.WriteString("#")
	for _, f := range fs {
		sb.WriteString(f)
		sb.WriteByte(' ')
	}
	for i, p := range c.pvs {
		pv := st.pvs[p]
		fmt.Fprintf(&sb, "p%d<%v,%d,%d>", i+1, pv.HasExact, pv.Exact, pv.Min)
		if st.blind[p] {
			sb.WriteString("b")
		}
	}
	sticky := st.sticky && trackBlind
	for p := range st.blind {
		if _, ok := c.pv[p]; !ok {
			owners := in.ownerPVs(st, p)
			live := false
			for o := range owners {
				if _, ok := c.pv[o]; ok {
					live = true
					if prune {
						st.blind[o] = true
					} else {
						fmt.Fprintf(&sb, "o%d", c.pv[o])
					}
				}
			}
			if !live {
				sticky = true
			}
		}
	}
	if sticky {
		sb.WriteString("~")
	}
	if prune {
		st.sticky = sticky
		for p := range st.blind {
			if _, ok := c.pv[p]; !ok {
				delete(st.blind, p)
			}
		}
		for p := range st.pvs {
			if _, ok := c.pv[p]; !ok {
				delete(st.pvs, p)
				delete(st.owner, p)
			}
		}
		for id := range st.heap {
			if _, ok := c.obj[id]; !ok && id > in.baseMax {
				delete(st.heap, id)
			}
		}
	}
	return sb.String()
}

// refs visits every reference to a heap object from frames, globals, events
// and pins, transitively.
func (in *Interp) reach(st *State) map[int]int {
	n := map[int]int{}
	var q []int
	see := func(v Val) {
		objsOf(v, func(id int) {
			if id == 0 {
				return
			}
			n[id]++
			if n[id] == 1 {
				q = append(q, id)
			}
		})
	}
	for _, f := range st.frames {
		for _, v := range f.regs {
			see(v)
		}
		for _, d := range f.defers {
			see(d.fn)
			for _, a := range d.args {
				see(a)
			}
		}
		if f.panicVal != nil {
			see(f.panicVal)
		}
	}
	for _, v := range st.events {
		see(v)
	}
	for _, v := range st.pins {
		see(v)
	}
	for _, id := range st.glob {
		n[id]++
		if n[id] == 1 {
			q = append(q, id)
		}
	}
	if in.base != nil {
		for id, o := range in.base.heap {
			if st.heap[id] != o {
				n[id]++
				if n[id] == 1 {
					q = append(q, id)
				}
			}
		}
	}
	for len(q) > 0 {
		id := q[len(q)-1]
		q = q[:len(q)-1]
		switch o := st.heap[id].(type) {
		case *Cell:
			see(o.V)
		case *ListObj:
			see(o.Len)
			see(o.Rest)
			for _, s := range o.At {
				see(s.I)
				see(s.V)
			}
		case *MapObj:
			for _, e := range o.E {
				see(e.K)
				if e.Present {
					see(e.V)
				}
			}
			for _, v := range o.Others {
				see(v)
			}
		case *IterObj:
			if o.M > 0 {
				see(&Map{o.M})
			}
			see(o.Str)
			for _, v := range o.Seen {
				see(v)
			}
		}
	}
	return n
}

// gc removes unreachable objects and blanks local variables whose content
// is overwritten before its next use.
func (in *Interp) gc(st *State, mem map[*ssa.Alloc]bool) {
	n := in.reach(st)
	again := false
	for v, x := range st.top().regs {
		a, ok := v.(*ssa.Alloc)
		if !ok || mem[a] {
			continue
		}
		if p, ok := x.(*Ptr); ok && len(p.Path) == 0 && n[p.O] == 1 {
			if c, ok := st.heap[p.O].(*Cell); ok {
				if _, ok := c.V.(*Top); !ok {
					st.heap[p.O] = &Cell{&Top{c.T}, c.T}
					again = true
				}
			}
		}
	}
	if again {
		n = in.reach(st)
	}
	for id := range st.heap {
		if n[id] == 0 && id > in.baseMax {
			delete(st.heap, id)
		}
	}
}

// ownerPVs lists the positions of the elements whose list p ranges over.
func (in *Interp) ownerPVs(st *State, p int) map[int]bool {
	if o, ok := st.owner[p]; ok {
		m := map[int]bool{}
		for _, x := range o {
			m[x] = true
		}
		return m
	}
	return nil
}

func regID(v ssa.Value) string {
	switch v.(type) {
	case *ssa.Parameter:
		return "P" + v.Name()
	case *ssa.FreeVar:
		return "V" + v.Name()
	}
	return v.Name()
}

// intPaths lists integer locations of the state: header phis, list lengths,
// integer cells.
func (in *Interp) intPaths(st *State, phis []*ssa.Phi) (map[string]Val, map[string]int) {
	res := map[string]Val{}
	ids := map[string]int{}
	f := st.top()
	for _, p := range phis {
		if v, ok := f.regs[p]; ok && isIntVal(v) {
			res["phi:"+p.Name()] = v
		}
	}
	seen := map[int]bool{}
	type item struct {
		path string
		id   int
	}
	var q []item
	push := func(path string, v Val) {
		if isNil(v) && v.(*Const).T != nil {
			// a nil list is one of length 0
			if _, ok := under(v.(*Const).T).(*types.Slice); ok {
				res[path+"/0.len"] = intV(0)
			}
			return
		}
		n := 0
		objsOf(v, func(id int) {
			q = append(q, item{fmt.Sprintf("%s/%d", path, n), id})
			n++
		})
	}
	for d, f := range st.frames {
		var ks []ssa.Value
		for k := range f.regs {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return regID(ks[i]) < regID(ks[j]) })
		for _, k := range ks {
			push(fmt.Sprintf("%d.%s", d, regID(k)), f.regs[k])
		}
	}
	if in.base != nil {
		for id, o := range in.base.heap {
			if st.heap[id] != o {
				q = append(q, item{fmt.Sprintf("G%d", id), id})
			}
		}
	}
	sort.SliceStable(q, func(i, j int) bool { return q[i].path < q[j].path })
	for i := 0; i < len(q); i++ {
		it := q[i]
		if o, ok := st.heap[it.id].(*ListObj); ok {
			// under every name it has: a result of append takes over later
			if isIntVal(o.Len) {
				res[it.path+".len"] = o.Len
				ids[it.path+".len"] = it.id
			}
		}
		if seen[it.id] {
			continue
		}
		seen[it.id] = true
		switch o := st.heap[it.id].(type) {
		case *Cell:
			if isIntVal(o.V) {
				res[it.path+".cell"] = o.V
			}
			if s, ok := o.V.(*Struct); ok {
				for j, x := range s.F {
					push(fmt.Sprintf("%s.f%d", it.path, j), x)
				}
			} else {
				push(it.path+".v", o.V)
			}
		case *ListObj:
			for j, s := range o.At {
				push(fmt.Sprintf("%s.a%d", it.path, j), s.V)
			}
		case *MapObj:
			for j, e := range o.E {
				if e.Present {
					if isIntVal(e.V) {
						continue
					}
					push(fmt.Sprintf("%s.e%d", it.path, j), e.V)
				}
			}
		}
	}
	return res, ids
}

func isIntVal(v Val) bool {
	if _, ok := v.(*Int); ok {
		return true
	}
	c, ok := v.(*Const)
	return ok && c.V != nil && c.V.Kind() == constant.Int
}
