package main

import (
	"crypto/md5"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Outcome of a call.
const (
	oRet = iota
	oPanic
	oExit
)

type Outcome struct {
	Kind int
	V    Val
	St   *State
}

type summary struct {
	outs   map[string]sumOut
	used   bool
	active bool
	pure   bool
	round  int
}

type recCtx struct {
	sums  map[string]*summary
	round int
	grown bool
}

type sumOut struct {
	kind int
	v    Val
}

type budgetErr struct{ msg string }

// stopErr ends an exploration at an outcome that settles it.
type stopErr struct{ o Outcome }

// An exploration is abandoned when a violation has been found elsewhere, or
// when the time for the whole check is up.
var (
	started  = time.Now()
	maxTime  = 480 * time.Second
	stopFlag atomic.Bool
	memFlag  atomic.Bool
)

// enough violations end a check early.
const enough = 4

// watchMemory ends the analysis before the sandbox runs out of memory.
func watchMemory(limit uint64) {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for !memFlag.Load() {
		time.Sleep(time.Second)
		metrics.Read(s)
		if s[0].Value.Uint64() > limit {
			memFlag.Store(true)
		}
	}
}

type abandoned struct{}

func (in *Interp) checkBudget(fn *ssa.Function) {
	if in.steps > in.maxSteps {
		panic(&budgetErr{fmt.Sprintf("analysis budget exceeded in %s", fn)})
	}
	if in.steps&63 == 0 {
		if stopFlag.Load() {
			panic(&abandoned{})
		}
		if memFlag.Load() {
			panic(&budgetErr{fmt.Sprintf("analysis memory exceeded in %s", fn)})
		}
		if time.Since(started) > maxTime {
			panic(&budgetErr{fmt.Sprintf("analysis time exceeded in %s", fn)})
		}
	}
}

// unsupported aborts the current path as undecided.
type unsupported struct{ msg string }

func (in *Interp) fail(f string, a ...interface{}) { panic(&unsupported{fmt.Sprintf(f, a...)}) }

type runtimePanic struct{ v Val }

func (in *Interp) raise(kind string) {
	panic(&runtimePanic{rawTerm("rtpanic", errType, strV(kind))})
}

var errType = types.Universe.Lookup("error").Type()
var anyType = types.NewInterfaceType(nil, nil)

func (in *Interp) push(st *State, s string) {
	n := 0
	if st.trail != nil {
		n = st.trail.n
	}
	st.trail = &trail{st.trail, s, n + 1}
}

// run executes a function value on a state and returns all outcomes.
func (in *Interp) call(st *State, fn *ssa.Function, args []Val, binds []Val, deferOf int) []Outcome {
	if len(fn.Blocks) == 0 {
		in.fail("no body for %s", fn)
	}
	if len(st.frames) > 60 {
		in.fail("call depth exceeded at %s", fn)
	}
	in.fnsSeen[fn] = true
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, deferOf: deferOf}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.regs[p] = args[i]
		} else {
			in.fail("missing argument %d of %s", i, fn)
		}
	}
	for i, f := range fn.FreeVars {
		fr.regs[f] = binds[i]
	}
	// recursion
	onStack := false
	for _, f := range st.frames {
		if f.fn == fn {
			onStack = true
		}
	}
	if in.recursive(fn) || onStack && !in.Sc.inline {
		if onStack && in.Sc.abstractArg != nil {
			for i, p := range fn.Params {
				if t, ok := args[i].(*Term); ok {
					if op, ok := in.Sc.abstractArg(in, st, t); ok && op != "" {
						fr.regs[p] = in.rename(st, t, op)
					}
				}
			}
		}
		return in.callRec(st, fn, fr, args)
	}
	st.frames = append(st.frames, fr)
	return in.runFrame(st)
}

// rename replaces an opaque argument of a recursive call by a fresh symbol
// of the given kind; what is known about it directly carries over.
func (in *Interp) rename(st *State, t *Term, op string) *Term {
	n := rawTerm(op, t.T, &Int{P: in.newPV(st, PV{})})
	for _, a := range st.atoms {
		if len(a.T.A) == 1 && key(a.T.A[0]) == t.key {
			x := rawTerm(a.T.Op, a.T.T, n)
			if in.Sc.decide(in, st, x) != Maybe {
				continue
			}
			st.atoms[x.key] = Atom{x, a.V}
		}
	}
	return n
}

func (in *Interp) recursive(fn *ssa.Function) bool {
	p := in.P
	p.mu.Lock()
	if p.rec == nil {
		p.rec = map[*ssa.Function]bool{}
	}
	r, ok := p.rec[fn]
	p.mu.Unlock()
	if ok {
		return r
	}
	// static self-reachability inside the repository (and interpreted code)
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					g := c.Common().StaticCallee()
					if g == nil {
						continue
					}
					if g == fn {
						return true
					}
					if in.interpretable(g) && walk(g) {
						return true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if walk(a) {
				return true
			}
		}
		return false
	}
	r = walk(fn)
	p.mu.Lock()
	p.rec[fn] = r
	p.mu.Unlock()
	return r
}

// callRec tabulates recursive calls to a least fixpoint.
func (in *Interp) callRec(st *State, fn *ssa.Function, fr *Frame, args []Val) []Outcome {
	if in.rec != nil {
		return in.callInner(st, fn, fr)
	}
	// outermost call of a recursion: repeat until no summary grows
	in.rec = &recCtx{sums: map[string]*summary{}}
	defer func() { in.rec = nil }()
	for iter := 0; ; iter++ {
		if iter > 40 {
			in.fail("recursive function %s has no stable summary", fn)
		}
		in.rec.round++
		in.rec.grown = false
		n := st.clone()
		n.frames = append(n.frames, fr.copy())
		last := in.runFrame(n)
		if !in.rec.grown {
			for k, s := range in.rec.sums {
				if s.pure && s.round == in.rec.round {
					in.recDone[k] = s
				}
			}
			return last
		}
	}
}

// callInner evaluates a call inside a recursion: once per round and
// distinguishable argument state; otherwise the outcomes found so far stand.
func (in *Interp) callInner(st *State, fn *ssa.Function, fr *Frame) []Outcome {
	kst := st.clone()
	kst.frames = []*Frame{fr.copy()}
	kst.snaps = map[snapKey]*snapshot{}
	kst.events = nil
	in.localFacts(kst)
	key := in.canonKey(kst, nil, false)
	s := in.rec.sums[key]
	done := false
	if s == nil {
		s = in.recDone[key]
		done = s != nil
	}
	if s == nil {
		s = &summary{outs: map[string]sumOut{}, pure: true}
		in.rec.sums[key] = s
	}
	reuse := func() []Outcome {
		var res []Outcome
		for _, o := range sortedOuts(s.outs) {
			res = append(res, Outcome{o.kind, o.v, st.clone()})
		}
		return res
	}
	if done {
		return reuse()
	}
	if s.active {
		s.used = true
		if !s.pure {
			in.fail("recursive function %s changes what its callers see", fn)
		}
		return reuse()
	}
	if s.pure && s.round == in.rec.round {
		return reuse()
	}
	s.active, s.used = true, false
	defer func() { s.active = false }()
	nid0, ev0 := in.nid, len(st.events)
	n := st.clone()
	n.wmin = 0
	n.atoms, n.regs, n.exact = kst.atoms, kst.regs, kst.exact
	n.frames = append(n.frames, fr.copy())
	last := in.runFrame(n)
	for _, o := range last {
		k := fmt.Sprint(o.Kind) + in.canonVal(o.V)
		if hasObj(o.V) || o.St.wmin > 0 && o.St.wmin <= nid0 || len(o.St.events) != ev0 {
			s.pure = false
		}
		if st.wmin > 0 && (o.St.wmin == 0 || st.wmin < o.St.wmin) {
			o.St.wmin = st.wmin
		}
		if _, ok := s.outs[k]; !ok {
			s.outs[k] = sumOut{o.Kind, o.V}
			in.rec.grown = true
		}
	}
	s.round = in.rec.round
	if debugStates != nil {
		fmt.Println("REC", in.rec.round, s.pure, len(last), len(in.rec.sums), key)
	}
	if s.pure {
		return reuse()
	}
	if s.used {
		in.fail("recursive function %s changes what its callers see", fn)
	}
	return last
}

type digest [16]byte

func digestOf(s string) digest { return md5.Sum(unsafe.Slice(unsafe.StringData(s), len(s))) }

// localFacts keeps only facts about what the frame and the objects it
// reaches mention.
func (in *Interp) localFacts(st *State) {
	used := map[string]bool{}
	seen := map[int]bool{}
	var vis func(v Val)
	obj := func(id int) {
		if seen[id] {
			return
		}
		seen[id] = true
		switch o := st.heap[id].(type) {
		case *Cell:
			vis(o.V)
		case *ListObj:
			for _, s := range o.At {
				vis(s.V)
			}
			vis(o.Rest)
		case *MapObj:
			for _, e := range o.E {
				vis(e.K)
				vis(e.V)
			}
		}
	}
	vis = func(v Val) {
		switch v := v.(type) {
		case *Term:
			if len(v.A) > 0 {
				used[v.key] = true
			}
		case *Int:
			if v.B != nil || v.P > 0 {
				used[key(v)] = true
			}
		case *Struct:
			for _, f := range v.F {
				vis(f)
			}
		case *Ptr:
			for _, f := range v.Path {
				vis(f)
			}
			obj(v.O)
		case *Iface:
			vis(v.V)
		case *Func:
			for _, f := range v.B {
				vis(f)
			}
		case *Tuple:
			for _, f := range v.V {
				vis(f)
			}
		default:
			objsOf(v, obj)
		}
	}
	for _, f := range st.frames {
		for _, v := range f.regs {
			vis(v)
		}
	}
	for k := range st.pins {
		vis(st.pins[k])
	}
	memo := map[string]bool{}
	var ment func(v Val) bool
	ment = func(v Val) bool {
		switch v := v.(type) {
		case *Term:
			if used[v.key] {
				return true
			}
			if r, ok := memo[v.key]; ok {
				return r
			}
			r := false
			for _, a := range v.A {
				if ment(a) {
					r = true
					break
				}
			}
			memo[v.key] = r
			return r
		case *Int:
			return used[key(v)] || v.B != nil && ment(v.B)
		}
		return false
	}
	for k, a := range st.atoms {
		if !ment(a.T) {
			delete(st.atoms, k)
		}
	}
	for k, e := range st.exact {
		if !ment(e.T) {
			delete(st.exact, k)
		}
	}
	for k, r := range st.regs {
		if !ment(r.L) && !ment(r.I) {
			delete(st.regs, k)
		}
	}
}

func (f *Frame) copy() *Frame {
	g := *f
	g.regs = map[ssa.Value]Val{}
	for k, v := range f.regs {
		g.regs[k] = v
	}
	return &g
}

func sortedOuts(m map[string]sumOut) []sumOut {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []sumOut
	for _, k := range ks {
		r = append(r, m[k])
	}
	return r
}

func (in *Interp) canonVal(v Val) string {
	var sb strings.Builder
	wkey(&sb, v, newCanon())
	return sb.String()
}

var debugStates func(*State, *ssa.BasicBlock, string)

type work struct {
	st   *State
	b    *ssa.BasicBlock
	from *ssa.BasicBlock
	i    int // instruction index; -1: block entry
}

func (in *Interp) runFrame(st *State) []Outcome {
	fn := st.top().fn
	depth := len(st.frames)
	live := in.P.liveOf(fn)
	var outs []Outcome
	visited := map[digest]bool{}
	outSeen := map[digest]bool{}
	emit := func(o Outcome) {
		o.St.frames = o.St.frames[:depth-1]
		if depth > 1 {
			in.dropStale(o.St, 0, o.V)
		}
		k := fmt.Sprintf("%d|", o.Kind) + in.canonKey(o.St, []Val{o.V}, true)
		if outSeen[digestOf(k)] {
			in.joins++
			return
		}
		outSeen[digestOf(k)] = true
		outs = append(outs, o)
		if depth == 1 && in.onOut != nil && in.onOut(o) {
			panic(&stopErr{o})
		}
	}
	q := []work{{st, fn.Blocks[0], nil, -1}}
	for len(q) > 0 {
		w := q[len(q)-1]
		q = q[:len(q)-1]
		in.steps++
		in.checkBudget(fn)
		if w.i < 0 {
			if w.from != nil {
				in.phis(w.st, w.b, w.from)
			}
			// prune registers
			f := w.st.top()
			for v := range f.regs {
				if !live.in[w.b.Index][v] && !isPhiOf(v, w.b) {
					delete(f.regs, v)
				}
			}
			for sk := range w.st.snaps {
				if sk.depth == depth && !live.inLoop[sk.block][w.b.Index] {
					delete(w.st.snaps, sk)
				}
			}
			if live.header[w.b.Index] {
				in.gc(w.st, live.mem[w.b.Index])
				in.loopHead(w.st, w.b, w.from)
				in.dropStale(w.st, 0)
			}
			k := fmt.Sprintf("%d|", w.b.Index) + in.canonKey(w.st, nil, true)
			if visited[digestOf(k)] {
				in.joins++
				continue
			}
			visited[digestOf(k)] = true
			in.states++
			if debugStates != nil {
				debugStates(w.st, w.b, k)
			}
			w.i = 0
			for w.i < len(w.b.Instrs) {
				if _, ok := w.b.Instrs[w.i].(*ssa.Phi); !ok {
					break
				}
				w.i++
			}
		}
		in.step(w, depth, live, &q, emit)
	}
	return outs
}

func isPhiOf(v ssa.Value, b *ssa.BasicBlock) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == b
}

// step runs instructions of one block until it ends or forks.
func (in *Interp) step(w work, depth int, live *liveness, q *[]work, emit func(Outcome)) {
	st := w.st
	for {
		ins := w.b.Instrs[w.i]
		in.steps++
		in.checkBudget(w.b.Parent())
		if ins.Pos().IsValid() {
			in.curPos = ins.Pos()
		}
		if in.Sc.blocks && waits(ins) {
			emit(Outcome{oExit, strV("waits"), st})
			return
		}
		switch t := ins.(type) {
		case *ssa.Jump:
			*q = append(*q, work{st, w.b.Succs[0], w.b, -1})
			return
		case *ssa.If:
			v := in.val(st, t.Cond)
			forked := in.try(st, w, q, emit, func() {
				if in.truth(st, v) {
					w.i = 0
				} else {
					w.i = 1
				}
			})
			if forked {
				return
			}
			*q = append(*q, work{st, w.b.Succs[w.i], w.b, -1})
			return
		case *ssa.Return:
			var v Val
			if len(t.Results) == 1 {
				v = in.val(st, t.Results[0])
			} else {
				tp := &Tuple{}
				for _, r := range t.Results {
					tp.V = append(tp.V, in.val(st, r))
				}
				v = tp
			}
			in.push(st, fmt.Sprintf("%s: return from %s", in.P.pos(t.Pos()), w.b.Parent().Name()))
			emit(Outcome{oRet, v, st})
			return
		case *ssa.Panic:
			in.push(st, fmt.Sprintf("%s: panic in %s", in.P.pos(t.Pos()), w.b.Parent().Name()))
			in.unwind(st, in.val(st, t.X), depth, q, emit)
			return
		case *ssa.RunDefers:
			nx := in.runDefers(st, depth)
			for _, o := range nx {
				switch o.Kind {
				case oRet:
					*q = append(*q, work{o.St, w.b, nil, w.i + 1})
				case oExit:
					emit(o)
				case oPanic:
					in.unwind(o.St, o.V, depth, q, emit)
				}
			}
			return
		case *ssa.Call, *ssa.Defer, *ssa.Go:
			ci := ins.(ssa.CallInstruction)
			var res []Outcome
			done := false
			forked := in.try(st, w, q, emit, func() {
				if d, ok := ins.(*ssa.Defer); ok {
					in.deferCall(st, d)
					done = true
					return
				}
				if g, ok := ins.(*ssa.Go); ok {
					st.events = append(st.events, rawTerm("go", nil, strV(in.P.pos(g.Pos()))))
					done = true
					return
				}
				res = in.doCall(st, ci)
			})
			if forked {
				return
			}
			if done {
				w.i++
				continue
			}
			seen := map[string]bool{}
			for _, o := range res {
				o.St.tops, o.St.ti = nil, 0
				switch o.Kind {
				case oExit:
					emit(Outcome{oExit, o.V, o.St})
				case oPanic:
					in.unwind(o.St, o.V, depth, q, emit)
				case oRet:
					f := o.St.top()
					if c, ok := ins.(*ssa.Call); ok {
						f.regs[c] = o.V
						lv := live.after[ins]
						for v := range f.regs {
							if v != ssa.Value(c) && !lv[v] {
								delete(f.regs, v)
							}
						}
						if !lv[c] {
							delete(f.regs, c)
						}
					}
					if len(res) > 1 {
						k := in.canonKey(o.St, nil, true)
						if seen[k] {
							in.joins++
							continue
						}
						seen[k] = true
					}
					*q = append(*q, work{o.St, w.b, nil, w.i + 1})
				}
			}
			return
		default:
			forked := in.try(st, w, q, emit, func() { in.exec(st, ins) })
			if forked {
				return
			}
			w.i++
		}
	}
}

// try runs f on st; when f requests a fork the alternatives are queued at
// the same instruction. Returns true when the current path must stop.
func (in *Interp) try(st *State, w work, q *[]work, emit func(Outcome), f func()) (stop bool) {
	depth := len(st.frames)
	st.ti = 0
	var pos token.Pos
	if w.i >= 0 && w.i < len(w.b.Instrs) {
		pos = w.b.Instrs[w.i].Pos()
		if !pos.IsValid() {
			if i, ok := w.b.Instrs[w.i].(*ssa.If); ok {
				pos = i.Cond.Pos()
			}
		}
	}
	defer func() {
		r := recover()
		if r == nil {
			st.tops, st.ti = nil, 0
			return
		}
		switch x := r.(type) {
		case *forkReq:
			stop = true
			st.frames = st.frames[:depth]
			in.forks++
			for i := len(x.alts) - 1; i >= 0; i-- {
				n := st
				if i > 0 {
					n = st.clone()
				}
				n.ti = 0
				in.push(n, in.P.pos(pos)+": "+x.desc[i])
				ok := func() (ok bool) {
					defer func() {
						if r := recover(); r != nil {
							if _, inf := r.(*infeasible); inf {
								ok = false
								return
							}
							panic(r)
						}
					}()
					x.alts[i](n)
					return true
				}()
				if ok {
					*q = append(*q, work{n, w.b, nil, w.i})
				}
			}
		case *infeasible:
			stop = true
		case *unsupported:
			stop = true
			in.undecide("%s: %s", in.P.pos(in.curPos), x.msg)
		case *runtimePanic:
			stop = true
			st.frames = st.frames[:depth]
			st.tops, st.ti = nil, 0
			in.push(st, in.P.pos(pos)+": run-time panic "+key(x.v))
			in.unwind(st, x.v, depth, q, emit)
		default:
			panic(r)
		}
	}()
	f()
	return false
}

// unwind runs the deferred calls of the top frame with a pending panic.
func (in *Interp) unwind(st *State, v Val, depth int, q *[]work, emit func(Outcome)) {
	st.frames = st.frames[:depth]
	f := st.top()
	f.panicVal = v
	f.recovered = false
	fn := f.fn
	for _, o := range in.runDefers(st, depth) {
		switch o.Kind {
		case oExit:
			emit(o)
		case oPanic:
			in.unwind(o.St, o.V, depth, q, emit)
		case oRet:
			fr := o.St.top()
			if fr.recovered {
				fr.panicVal, fr.recovered = nil, false
				if fn.Recover != nil {
					*q = append(*q, work{o.St, fn.Recover, nil, 0})
				} else {
					emit(Outcome{oRet, zeroResults(fn.Signature), o.St})
				}
			} else {
				pv := fr.panicVal
				emit(Outcome{oPanic, pv, o.St})
			}
		}
	}
}

func zeroResults(s *types.Signature) Val {
	r := s.Results()
	switch r.Len() {
	case 0:
		return &Tuple{}
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

// runDefers runs all deferred calls of the top frame.
func (in *Interp) runDefers(st *State, depth int) []Outcome {
	f := st.top()
	if len(f.defers) == 0 {
		return []Outcome{{oRet, nil, st}}
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	var outs []Outcome
	for _, o := range in.tryCall(st, func(s *State) []Outcome {
		return in.invokeVal(s, d.fn, d.inv, d.args, depth, d.pos)
	}) {
		switch o.Kind {
		case oRet:
			outs = append(outs, in.runDefers(o.St, depth)...)
		default:
			outs = append(outs, o)
		}
	}
	return outs
}

// tryCall evaluates f with forking handled locally.
func (in *Interp) tryCall(st *State, f func(*State) []Outcome) []Outcome {
	return in.tryUntil(st, f, nil)
}

// tryUntil is tryCall that ends with the first outcome that settles matters.
func (in *Interp) tryUntil(st *State, f func(*State) []Outcome, settled func(Outcome) bool) []Outcome {
	var outs []Outcome
	q := []*State{st}
	depth := len(st.frames)
	for n := 0; len(q) > 0; n++ {
		if n > 20000 {
			in.undecide("%s: a case distinction does not end", in.P.pos(in.curPos))
			break
		}
		s := q[len(q)-1]
		q = q[:len(q)-1]
		s.ti = 0
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				switch x := r.(type) {
				case *forkReq:
					s.frames = s.frames[:depth]
					for i := len(x.alts) - 1; i >= 0; i-- {
						n := s
						if i > 0 {
							n = s.clone()
						}
						in.push(n, x.desc[i])
						func() {
							defer func() {
								if r := recover(); r != nil {
									if _, ok := r.(*infeasible); !ok {
										panic(r)
									}
								}
							}()
							x.alts[i](n)
							q = append(q, n)
						}()
					}
				case *infeasible:
				case *unsupported:
					in.undecide("%s: %s", in.P.pos(in.curPos), x.msg)
				case *runtimePanic:
					s.frames = s.frames[:depth]
					s.tops, s.ti = nil, 0
					outs = append(outs, Outcome{oPanic, x.v, s})
				default:
					panic(r)
				}
			}()
			r := f(s)
			for _, o := range r {
				o.St.tops, o.St.ti = nil, 0
				if settled != nil && settled(o) {
					q = nil
				}
			}
			outs = append(outs, r...)
		}()
	}
	return outs
}

func (in *Interp) phis(st *State, b, from *ssa.BasicBlock) {
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
		}
	}
	f := st.top()
	nv := map[ssa.Value]Val{}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		nv[p] = in.val(st, p.Edges[pi])
	}
	for k, v := range nv {
		f.regs[k] = v
	}
}

func (in *Interp) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zero(v.Type())
		}
		return &Const{v.Value, v.Type()}
	case *ssa.Global:
		return in.global(st, v)
	case *ssa.Function:
		return &Func{F: v}
	case *ssa.Builtin:
		return nil
	}
	r, ok := st.top().regs[v]
	if !ok {
		in.fail("value %s of %s not available", v.Name(), v.Parent())
	}
	return r
}

func (in *Interp) global(st *State, g *ssa.Global) Val {
	if id, ok := st.glob[g]; ok {
		return &Ptr{O: id}
	}
	// external global: unknown but fixed
	t := g.Type().(*types.Pointer).Elem()
	return &Ptr{O: 0, Path: []Val{rawTerm("global:"+g.String(), t)}}
}

func (in *Interp) truth(st *State, v Val) bool {
	if b, ok := constBool(v); ok {
		return b
	}
	switch t := v.(type) {
	case *Term:
		if t.Op == "not" {
			return !in.truth(st, t.A[0])
		}
		return in.decide(st, t)
	case *Top:
		b := st.choose(2, "unknown condition") == 0
		st.sticky = true
		return b
	}
	in.fail("condition %s", key(v))
	return false
}

// ---- memory ----

// termPtr reports whether p points into an opaque value.
func termRoot(p *Ptr) (*Term, bool) {
	if p.O == 0 && len(p.Path) > 0 {
		t, ok := p.Path[0].(*Term)
		return t, ok
	}
	return nil, false
}

// field projects field i of v.
func (in *Interp) field(st *State, v Val, i int, t types.Type) Val {
	switch v := v.(type) {
	case *Struct:
		return v.F[i]
	case *Term:
		s, ok := under(v.T).(*types.Struct)
		if !ok {
			in.fail("field of %s", v.key)
		}
		return in.fieldTerm(st, v, s, i)
	case *Top:
		if s, ok := under(v.T).(*types.Struct); ok {
			return &Top{s.Field(i).Type()}
		}
		return &Top{t}
	case *Const:
		if z, ok := zero(v.T).(*Struct); ok {
			return z.F[i]
		}
	}
	in.fail("field %d of %s", i, key(v))
	return nil
}

func (in *Interp) fieldTerm(st *State, v *Term, s *types.Struct, i int) Val {
	f := s.Field(i)
	r := in.term(st, "."+f.Name(), f.Type(), v)
	if t, ok := r.(*Term); ok {
		if _, isS := under(f.Type()).(*types.Struct); isS && isBuilderType(f.Type()) {
			return t
		}
	}
	return r
}

// expand turns an opaque struct value into a field-wise one.
func (in *Interp) expand(st *State, v Val, t types.Type) Val {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return v
	}
	switch x := v.(type) {
	case *Term:
		n := &Struct{make([]Val, s.NumFields()), t}
		for i := range n.F {
			n.F[i] = in.fieldTerm(st, x, s, i)
		}
		return n
	case *Top:
		n := &Struct{make([]Val, s.NumFields()), t}
		for i := range n.F {
			n.F[i] = &Top{s.Field(i).Type()}
		}
		return n
	}
	return v
}

func (in *Interp) path(st *State, v Val, path []Val) Val {
	for _, p := range path {
		i, ok := p.(int)
		if !ok {
			in.fail("nested array element")
		}
		v = in.field(st, v, i, nil)
	}
	return v
}

func (in *Interp) nilCheck(st *State, v Val) {
	switch x := v.(type) {
	case *Const:
		if x.V == nil {
			in.raise("nil dereference")
		}
	case *Term:
		if in.isNilTerm(st, x) {
			in.raise("nil dereference")
		}
	}
}

func (in *Interp) isNilTerm(st *State, t *Term) bool {
	switch t.Op {
	case "errnew", "errorf", "rtpanic", "errjoin":
		return false
	}
	return in.decide(st, rawTerm("isnil", types.Typ[types.Bool], t))
}

func (in *Interp) load(st *State, pv Val, t types.Type) Val {
	p, ok := pv.(*Ptr)
	if !ok {
		switch x := pv.(type) {
		case *Term:
			in.nilCheck(st, x)
			return in.term(st, "deref", t, x)
		case *Top:
			st.choose(1, "")
			return &Top{t}
		case *Const:
			in.nilCheck(st, x)
		}
		in.fail("load through %s", key(pv))
	}
	if r, ok := termRoot(p); ok {
		return in.path(st, r, p.Path[1:])
	}
	switch o := st.heap[p.O].(type) {
	case *Cell:
		return in.path(st, o.V, p.Path)
	case *ListObj:
		if len(p.Path) == 0 {
			in.fail("load of whole array")
		}
		return in.path(st, in.listGet(st, p.O, p.Path[0]), p.Path[1:])
	case *TopObj:
		return &Top{t}
	}
	in.fail("load of missing object")
	return nil
}

func (in *Interp) setPath(st *State, v Val, t types.Type, path []Val, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	i := path[0].(int)
	s, ok := under(t).(*types.Struct)
	if !ok {
		in.fail("store into field of %s", tkey(t))
	}
	e, ok := in.expand(st, v, t).(*Struct)
	if !ok {
		if c, isC := v.(*Const); isC && c.V == nil {
			e = zero(t).(*Struct)
		} else {
			in.fail("store into %s", key(v))
		}
	}
	n := &Struct{append([]Val(nil), e.F...), t}
	n.F[i] = in.setPath(st, e.F[i], s.Field(i).Type(), path[1:], nv)
	return n
}

func (in *Interp) store(st *State, pv Val, nv Val) {
	p, ok := pv.(*Ptr)
	if !ok {
		switch x := pv.(type) {
		case *Const:
			in.nilCheck(st, x)
		case *Term:
			in.nilCheck(st, x)
			in.inputWrite(st, "store through "+x.key)
			return
		case *Top:
			in.fail("store through an unknown pointer")
		}
		in.fail("store through %s", key(pv))
	}
	if r, ok := termRoot(p); ok {
		in.inputWrite(st, "store into "+r.key)
		return
	}
	st.wrote(p.O)
	switch o := st.heap[p.O].(type) {
	case *Cell:
		st.heap[p.O] = &Cell{in.setPath(st, o.V, o.T, p.Path, nv), o.T}
	case *ListObj:
		if len(p.Path) == 0 {
			in.fail("store of whole array")
		}
		if len(p.Path) > 1 {
			old := in.listGet(st, p.O, p.Path[0])
			nv = in.setPath(st, old, o.Elem, p.Path[1:], nv)
		}
		in.listSet(st, p.O, p.Path[0], nv)
	case *TopObj:
		if o.View {
			in.fail("write through a part of a slice")
		}
	default:
		in.fail("store to missing object")
	}
}

func (in *Interp) inputWrite(st *State, what string) {
	if in.Sc.inputWrite != nil {
		in.Sc.inputWrite(in, st, what)
		return
	}
	in.fail("%s", what)
}

// sameIdx decides whether two indexes are equal.
func (in *Interp) sameIdx(st *State, a, b Val) bool {
	if sameInt(a, b) {
		return true
	}
	if _, ok := a.(*Top); ok {
		return st.choose(2, "unknown index") == 0
	}
	if _, ok := b.(*Top); ok {
		return st.choose(2, "unknown index") == 0
	}
	return in.compare(st, token.EQL, a, b)
}

func (in *Interp) listGet(st *State, id int, idx Val) Val {
	o := st.heap[id].(*ListObj)
	if _, ok := idx.(*Top); ok {
		return &Top{o.Elem}
	}
	for i := len(o.At) - 1; i >= 0; i-- {
		if key(o.At[i].I) == key(idx) {
			return o.At[i].V
		}
	}
	for i := len(o.At) - 1; i >= 0; i-- {
		if in.sameIdx(st, o.At[i].I, idx) {
			return o.At[i].V
		}
	}
	if o.Rest == nil {
		return &Top{o.Elem}
	}
	return o.Rest
}

func (in *Interp) listSet(st *State, id int, idx Val, v Val) {
	o := st.heap[id].(*ListObj)
	st.wrote(id)
	if o.View {
		in.fail("write through a part of a slice")
	}
	n := &ListObj{Elem: o.Elem, Len: o.Len, Rest: o.Rest}
	if _, ok := idx.(*Top); ok {
		// may hit anything
		for _, s := range o.At {
			n.At = append(n.At, Slot{s.I, joinVal(s.V, v, o.Elem)})
		}
		n.Rest = &Top{o.Elem}
		st.heap[id] = n
		return
	}
	hit := -1
	for i, s := range o.At {
		if key(s.I) == key(idx) {
			hit = i
		}
	}
	if hit < 0 {
		for i, s := range o.At {
			if in.sameIdx(st, s.I, idx) {
				hit = i
				break
			}
		}
	}
	for i, s := range o.At {
		if i == hit {
			n.At = append(n.At, Slot{s.I, v})
		} else {
			n.At = append(n.At, s)
		}
	}
	if hit < 0 {
		n.At = append(n.At, Slot{idx, v})
	}
	st.heap[id] = n
}

func joinVal(a, b Val, t types.Type) Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if key(a) == key(b) {
		return a
	}
	return &Top{t}
}

// ---- slices ----

// sliceParts views a slice value: heap list or opaque list, with an offset.
func (in *Interp) lenOf(st *State, v Val) Val {
	switch v := v.(type) {
	case *Slice:
		if o, ok := st.heap[v.O].(*ListObj); ok {
			return o.Len
		}
		return &Top{types.Typ[types.Int]}
	case *Const:
		if v.V == nil {
			return intV(0)
		}
		if s, ok := constStr(v); ok {
			return intV(len(s))
		}
	case *Term:
		switch u := under(v.T).(type) {
		case *types.Slice:
			if v.Op == "from" {
				k, _ := constInt(v.A[1])
				return in.addInt(in.lenOf(st, v.A[0]), -k)
			}
			if v.Op == "upto" {
				return v.A[1]
			}
			return in.listLen(st, v)
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return in.strLen(st, v)
			}
		case *types.Map:
			return &Top{types.Typ[types.Int]}
		}
	case *Map:
		return in.mapLen(st, v)
	case *Top:
		return &Top{types.Typ[types.Int]}
	}
	in.fail("len of %s", key(v))
	return nil
}

func (in *Interp) elemTerm(st *State, l *Term, idx Val) Val {
	et := under(l.T).(*types.Slice).Elem()
	for l.Op == "from" || l.Op == "upto" {
		if l.Op == "from" {
			k, _ := constInt(l.A[1])
			idx = in.addInt(idx, k)
		}
		b, ok := l.A[0].(*Term)
		if !ok {
			return &Top{et}
		}
		l = b
	}
	if _, ok := idx.(*Top); ok {
		return &Top{et}
	}
	c := in.cfg(st, l)
	if c.Exact >= 0 {
		if e, ok := in.exactOf(st, idx); ok {
			idx = intV(e)
		}
	}
	// name a focus element by its focus index
	if c.Focus > 0 {
		m := in.region(st, idx, l)
		if m == rW1 || m == rW2 {
			idx = fidx(l, 1+(m-rW1)/2)
		}
	}
	return in.term(st, "elem", et, l, idx)
}

func (in *Interp) bounds(st *State, idx, n Val) {
	_, t1 := idx.(*Top)
	_, t2 := n.(*Top)
	if t1 || t2 {
		return // unknown: assume in range (recorded by the caller's Top)
	}
	if c, ok := constInt(idx); ok && c < 0 {
		in.raise("index out of range")
	}
	if i, ok := idx.(*Int); ok {
		if lo, ok := in.lower(st, i); ok && lo < 0 && !in.nonNeg(st, i, n) {
			if in.compare(st, token.LSS, idx, intV(0)) {
				in.raise("index out of range")
			}
		}
	}
	if !in.compare(st, token.LSS, idx, n) {
		in.raise("index out of range")
	}
}

// nonNeg: the list region facts exclude a negative index.
func (in *Interp) nonNeg(st *State, i *Int, n Val) bool {
	if e, ok := in.exactOf(st, i); ok {
		return e >= 0
	}
	for _, f := range st.regs {
		if f.Mask&(1<<rNEG) == 0 && key(f.I) == key(i) {
			return true
		}
		if fi, ok := f.I.(*Int); ok && fi.P == i.P && fi.P > 0 && f.Mask&(1<<rNEG) == 0 && fi.Off <= i.Off {
			return true
		}
	}
	return false
}

func (in *Interp) indexAddr(st *State, x, idx Val, elem types.Type) Val {
	switch x := x.(type) {
	case *Slice:
		if o, ok := st.heap[x.O].(*ListObj); ok {
			in.bounds(st, idx, o.Len)
			return &Ptr{O: x.O, Path: []Val{idx}}
		}
		return &Top{types.NewPointer(elem)}
	case *Ptr: // array
		if o, ok := st.heap[x.O].(*ListObj); ok && len(x.Path) == 0 {
			in.bounds(st, idx, o.Len)
			return &Ptr{O: x.O, Path: []Val{idx}}
		}
	case *Term:
		if _, ok := under(x.T).(*types.Slice); ok {
			in.bounds(st, idx, in.lenOf(st, x))
			e := in.elemTerm(st, x, idx)
			if t, ok := e.(*Term); ok {
				return &Ptr{O: 0, Path: []Val{t}}
			}
			// resolved to something else: a fresh read-only cell
			return &Ptr{O: in.alloc(st, &Cell{e, elem})}
		}
	case *Const:
		if x.V == nil {
			in.raise("index out of range")
		}
	case *Top:
		return &Ptr{O: in.alloc(st, &Cell{&Top{elem}, elem})}
	}
	in.fail("index of %s", key(x))
	return nil
}

func (in *Interp) newList(st *State, elem types.Type, vals ...Val) *Slice {
	o := &ListObj{Elem: elem, Len: intV(len(vals))}
	for i, v := range vals {
		o.At = append(o.At, Slot{intV(i), v})
	}
	return &Slice{in.alloc(st, o)}
}

// listVals returns the elements of a fully known list.
func (in *Interp) listVals(st *State, v Val) ([]Val, bool) {
	switch v := v.(type) {
	case *Const:
		return nil, v.V == nil
	case *Slice:
		o, ok := st.heap[v.O].(*ListObj)
		if !ok {
			return nil, false
		}
		n, ok := in.exactOf(st, o.Len)
		if !ok {
			return nil, false
		}
		res := make([]Val, n)
		for i := range res {
			for _, s := range o.At {
				if e, ok := in.exactOf(st, s.I); ok && e == i {
					res[i] = s.V
				}
			}
			if res[i] == nil {
				if o.Rest == nil {
					return nil, false
				}
				res[i] = o.Rest
			}
		}
		return res, true
	}
	return nil, false
}

// asList turns a slice value into (len, slots, rest).
func (in *Interp) asList(st *State, v Val, elem types.Type) *ListObj {
	switch v := v.(type) {
	case *Const:
		if v.V == nil {
			return &ListObj{Elem: elem, Len: intV(0)}
		}
	case *Slice:
		if o, ok := st.heap[v.O].(*ListObj); ok {
			return o
		}
		return nil
	case *Term:
		if _, ok := under(v.T).(*types.Slice); !ok {
			return nil
		}
		if v.Op == "upto" {
			b := in.asList(st, v.A[0], elem)
			if b == nil {
				return nil
			}
			o := &ListObj{Elem: elem, Len: v.A[1], Rest: b.Rest}
			for _, s := range b.At {
				if in.compare(st, token.LSS, s.I, v.A[1]) {
					o.At = append(o.At, s)
				}
			}
			return o
		}
		c := in.cfg(st, v)
		o := &ListObj{Elem: elem, Len: in.lenOf(st, v), Rest: &Top{elem}}
		for k := 1; k <= c.Focus; k++ {
			ix := fidx(v, k)
			o.At = append(o.At, Slot{ix, in.elemTerm(st, v, ix)})
		}
		return o
	}
	return nil
}

func (in *Interp) appendTo(st *State, a, b Val, elem types.Type) Val {
	if bc, ok := b.(*Const); ok {
		if bc.V == nil {
			return a
		}
		if s, isS := constStr(bc); isS && s == "" {
			return a
		}
	}
	oa := in.asList(st, a, elem)
	if oa == nil {
		return &Slice{in.alloc(st, &TopObj{})}
	}
	ob := in.asList(st, b, elem)
	if ob == nil {
		return &Slice{in.alloc(st, &TopObj{})}
	}
	if n, ok := constInt(oa.Len); ok && n == 0 {
		c := *ob
		c.View = false
		return &Slice{in.alloc(st, &c)}
	}
	n := &ListObj{Elem: elem, At: append([]Slot(nil), oa.At...), Rest: oa.Rest}
	if nb, ok := in.exactOf(st, ob.Len); ok {
		if vs, ok := in.listVals(st, b); ok {
			for i, v := range vs {
				n.At = append(n.At, Slot{in.addInt(oa.Len, i), v})
			}
		} else {
			n.Rest = &Top{elem}
		}
		n.Len = in.addInt(oa.Len, nb)
		if _, top := n.Len.(*Top); top {
			n.At = nil
			n.Rest = &Top{elem}
		}
		return &Slice{in.alloc(st, n)}
	}
	if na, ok := in.exactOf(st, oa.Len); ok {
		for _, s := range ob.At {
			n.At = append(n.At, Slot{in.addInt(s.I, na), s.V})
		}
		n.Rest = joinVal(oa.Rest, ob.Rest, elem)
		n.Len = in.addInt(ob.Len, na)
		if _, top := n.Len.(*Top); !top {
			return &Slice{in.alloc(st, n)}
		}
	}
	n.Len = &Top{types.Typ[types.Int]}
	n.At = nil
	n.Rest = &Top{elem}
	return &Slice{in.alloc(st, n)}
}

// ---- maps ----

func (in *Interp) mapLen(st *State, m *Map) Val {
	o, ok := st.heap[m.O].(*MapObj)
	if !ok || o.HasOthers {
		return &Top{types.Typ[types.Int]}
	}
	n := 0
	for _, e := range o.E {
		if e.Present {
			n++
		}
	}
	return intV(n)
}

// mapGet returns (value, present).
func (in *Interp) mapGet(st *State, mv, k Val, mt *types.Map) (Val, bool) {
	et := mt.Elem()
	switch m := mv.(type) {
	case *Const:
		return zero(et), false
	case *Term:
		if in.decide(st, rawTerm("inmap", types.Typ[types.Bool], m, k)) {
			return in.term(st, "mapval", et, m, k), true
		}
		return zero(et), false
	case *Top:
		if st.choose(2, "unknown map lookup") == 0 {
			return &Top{et}, true
		}
		return zero(et), false
	case *Map:
		o, ok := st.heap[m.O].(*MapObj)
		if !ok {
			st.sticky = true
			if st.choose(2, "unknown map lookup") == 0 {
				return &Top{et}, true
			}
			return zero(et), false
		}
		kk := key(k)
		for _, e := range o.E {
			if key(e.K) == kk {
				if e.Present {
					return e.V, true
				}
				return zero(et), false
			}
		}
		for _, e := range o.E {
			if !e.Present {
				// known absent key: equality gives absence
				if in.eqQuick(st, e.K, k) == Yes {
					return zero(et), false
				}
				continue
			}
			if in.valEq(st, e.K, k) {
				return e.V, true
			}
		}
		if !o.HasOthers || in.distinguished(o, k) {
			return zero(et), false
		}
		// some unnamed entry may match: remember the choice
		n := &MapObj{o.T, append([]MapEnt(nil), o.E...), o.Others, true}
		pick := st.choose(len(o.Others)+1, "other entry of map")
		if pick > 0 {
			st.sticky = true
		}
		if pick == 0 {
			n.E = append(n.E, MapEnt{k, false, nil})
			st.heap[m.O] = n
			return zero(et), false
		}
		v := o.Others[pick-1]
		n.E = append(n.E, MapEnt{k, true, v})
		st.heap[m.O] = n
		return v, true
	}
	in.fail("lookup in %s", key(mv))
	return nil, false
}

func (in *Interp) mapSet(st *State, mv, k, v Val) {
	m, ok := mv.(*Map)
	if !ok {
		if c, ok := mv.(*Const); ok && c.V == nil {
			in.raise("assignment to nil map")
		}
		if t, ok := mv.(*Term); ok {
			in.inputWrite(st, "map store into "+t.key)
			return
		}
		in.fail("map store into %s", key(mv))
	}
	o, ok := st.heap[m.O].(*MapObj)
	if !ok {
		return
	}
	k = in.distinguish(st, o, k)
	// decide equality with every known entry first
	eq := make([]bool, len(o.E))
	kk := key(k)
	hit := -1
	for i, e := range o.E {
		if key(e.K) == kk {
			hit = i
		}
	}
	if hit < 0 {
		for i, e := range o.E {
			eq[i] = in.valEq(st, e.K, k)
			if eq[i] {
				hit = i
				break
			}
		}
	}
	n := &MapObj{o.T, append([]MapEnt(nil), o.E...), o.Others, o.HasOthers}
	if hit >= 0 {
		n.E[hit] = MapEnt{n.E[hit].K, true, v}
	} else {
		n.E = append(n.E, MapEnt{k, true, v})
	}
	st.wrote(m.O)
	st.heap[m.O] = n
}

// distinguish compares a new key with the keys the scenario follows, so that
// no unnamed entry of a map can be one of them.
func (in *Interp) distinguish(st *State, o *MapObj, k Val) Val {
	for _, d := range in.Sc.mapKeys {
		if d.T == nil || !types.Identical(o.T.Key(), d.T) {
			continue
		}
		if key(k) == d.key || in.valEq(st, k, d) {
			return d
		}
	}
	return k
}

func (in *Interp) distinguished(o *MapObj, k Val) bool {
	for _, d := range in.Sc.mapKeys {
		if d.T != nil && types.Identical(o.T.Key(), d.T) && key(k) == d.key {
			return true
		}
	}
	return false
}

func (in *Interp) mapDelete(st *State, mv, k Val) {
	m, ok := mv.(*Map)
	if !ok {
		if isNil(mv) {
			return
		}
		in.fail("delete from %s", key(mv))
	}
	o, ok := st.heap[m.O].(*MapObj)
	if !ok {
		return
	}
	kk := key(k)
	hit := -1
	for i, e := range o.E {
		if key(e.K) == kk {
			hit = i
		}
	}
	if hit < 0 {
		for i, e := range o.E {
			if in.valEq(st, e.K, k) {
				hit = i
				break
			}
		}
	}
	n := &MapObj{o.T, append([]MapEnt(nil), o.E...), o.Others, o.HasOthers}
	if hit >= 0 {
		n.E[hit] = MapEnt{n.E[hit].K, false, nil}
	} else if o.HasOthers {
		n.E = append(n.E, MapEnt{k, false, nil})
	}
	st.wrote(m.O)
	st.heap[m.O] = n
}

// ---- equality ----

func (in *Interp) eqQuick(st *State, a, b Val) Tri {
	if key(a) == key(b) {
		if _, ok := a.(*Top); !ok {
			return Yes
		}
	}
	return Maybe
}

func (in *Interp) valEq(st *State, a, b Val) bool {
	if t, ok := a.(*Top); ok {
		_ = t
		st.sticky = true
		return st.choose(2, "unknown equality") == 0
	}
	if _, ok := b.(*Top); ok {
		st.sticky = true
		return st.choose(2, "unknown equality") == 0
	}
	ca, okA := a.(*Const)
	cb, okB := b.(*Const)
	if okA && okB {
		if ca.V == nil || cb.V == nil {
			return ca.V == nil && cb.V == nil
		}
		if ca.V.Kind() != cb.V.Kind() {
			return constant.Compare(constant.ToFloat(ca.V), token.EQL, constant.ToFloat(cb.V))
		}
		return constant.Compare(ca.V, token.EQL, cb.V)
	}
	if isIntVal(a) && isIntVal(b) {
		return in.compare(st, token.EQL, a, b)
	}
	if _, ok := a.(*Int); ok {
		return in.compare(st, token.EQL, a, b)
	}
	if _, ok := b.(*Int); ok {
		return in.compare(st, token.EQL, a, b)
	}
	// nil comparisons
	if okA && ca.V == nil {
		return in.isNil(st, b)
	}
	if okB && cb.V == nil {
		return in.isNil(st, a)
	}
	ia, okIA := a.(*Iface)
	ib, okIB := b.(*Iface)
	if okIA && okIB {
		if !types.Identical(ia.T, ib.T) {
			return false
		}
		return in.valEq(st, ia.V, ib.V)
	}
	if okIA {
		if t, ok := b.(*Term); ok {
			if neverIs(t) {
				return false
			}
			if !in.isType(st, t, ia.T) {
				return false
			}
			return in.valEq(st, ia.V, in.term(st, "as:"+tkey(ia.T), ia.T, t))
		}
	}
	if okIB {
		return in.valEq(st, b, a)
	}
	pa, okA2 := a.(*Ptr)
	pb, okB2 := b.(*Ptr)
	if okA2 && okB2 {
		return key(pa) == key(pb)
	}
	if okA2 || okB2 {
		return false
	}
	sa, okA3 := a.(*Struct)
	sb, okB3 := b.(*Struct)
	if okA3 || okB3 {
		var t types.Type
		if okA3 {
			t = sa.T
		} else {
			t = sb.T
		}
		sa, okA3 = in.expand(st, a, t).(*Struct)
		sb, okB3 = in.expand(st, b, t).(*Struct)
		if okA3 && okB3 {
			for i := range sa.F {
				if !in.valEq(st, sa.F[i], sb.F[i]) {
					return false
				}
			}
			return true
		}
	}
	if key(a) == key(b) && !hasTop(a) {
		return true
	}
	if isStr(a) && isStr(b) {
		return in.strEq(st, a, b)
	}
	ta, okT := a.(*Term)
	tb, okT2 := b.(*Term)
	if okT && okT2 && (isErrTerm(ta) || isErrTerm(tb)) && ta.key != tb.key {
		return false
	}
	if okA {
		if x, ok := constBool(ca); ok && okT2 {
			return in.truth(st, tb) == x
		}
	}
	if okB {
		if x, ok := constBool(cb); ok && okT {
			return in.truth(st, ta) == x
		}
	}
	if key(a) > key(b) {
		a, b = b, a
	}
	return in.decide(st, rawTerm("eq", types.Typ[types.Bool], a, b))
}

func isErrTerm(t *Term) bool {
	switch t.Op {
	case "errnew", "errorf", "errjoin", "rtpanic":
		return true
	}
	return false
}

func neverIs(t *Term) bool { return isErrTerm(t) }

func isStr(v Val) bool {
	t := typeOf(v)
	if t == nil {
		return false
	}
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *Interp) isNil(st *State, v Val) bool {
	switch v := v.(type) {
	case *Const:
		return v.V == nil
	case *Ptr, *Slice, *Map, *Iface, *Func:
		return false
	case *Term:
		if _, ok := under(v.T).(*types.Slice); ok {
			// an absent list and an empty one are not told apart
			c := in.cfg(st, v)
			if c.Exact > 0 || c.Focus > 0 || c.Min1 {
				return false
			}
			r := in.region(st, intV(0), v)
			if r != rEND {
				return false
			}
			return in.decide(st, rawTerm("isnil", types.Typ[types.Bool], v))
		}
		return in.isNilTerm(st, v)
	case *Top:
		st.sticky = true
		return st.choose(2, "unknown value nil") == 0
	}
	in.fail("nil test of %s", key(v))
	return false
}

// ---- dynamic types ----

func (in *Interp) isType(st *State, t *Term, want types.Type) bool {
	if isErrTerm(t) {
		if types.IsInterface(want) {
			return types.Implements(errStringType, under(want).(*types.Interface)) || isErrIface(want)
		}
		return false
	}
	k := "istype:" + tkey(want)
	in.opType[k] = want
	tm := rawTerm(k, types.Typ[types.Bool], t)
	if a, ok := st.atoms[tm.key]; ok {
		return a.V
	}
	if !types.IsInterface(want) {
		for _, a := range st.atoms {
			if a.V && a.T.Op != k && strings.HasPrefix(a.T.Op, "istype:") && key(a.T.A[0]) == t.key {
				if o := in.opType[a.T.Op]; o != nil && !types.IsInterface(o) {
					return false
				}
			}
		}
	}
	return in.decide(st, tm)
}

var errStringType = types.NewPointer(types.NewStruct(nil, nil))

func isErrIface(t types.Type) bool {
	return types.Identical(under(t), under(errType)) || under(t).(*types.Interface).NumMethods() == 0
}

func (in *Interp) typeAssert(st *State, x Val, want types.Type) (Val, bool) {
	switch v := x.(type) {
	case *Const:
		if v.V == nil {
			return zero(want), false
		}
	case *Iface:
		if iw, ok := under(want).(*types.Interface); ok {
			if types.Implements(v.T, iw) {
				return v, true
			}
			return zero(want), false
		}
		if types.Identical(v.T, want) {
			return v.V, true
		}
		return zero(want), false
	case *Term:
		if !isErrTerm(v) && in.isNilTerm(st, v) {
			return zero(want), false
		}
		if iw, ok := under(want).(*types.Interface); ok && v.T != nil {
			if vi, ok := under(v.T).(*types.Interface); ok && types.Implements(vi, iw) {
				return v, true
			}
		}
		if !in.isType(st, v, want) {
			return zero(want), false
		}
		if types.IsInterface(want) {
			return v, true
		}
		return in.term(st, "as:"+tkey(want), want, v), true
	case *Top:
		st.sticky = true
		if st.choose(2, "unknown dynamic type") == 0 {
			return &Top{want}, true
		}
		return zero(want), false
	}
	in.fail("type assertion on %s", key(x))
	return nil, false
}

// ---- plain instructions ----

func (in *Interp) exec(st *State, ins ssa.Instruction) {
	f := st.top()
	set := func(v ssa.Value, x Val) { f.regs[v] = x }
	switch t := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := t.Type().(*types.Pointer).Elem()
		if a, ok := under(et).(*types.Array); ok {
			set(t, &Ptr{O: in.alloc(st, &ListObj{Elem: a.Elem(), Len: intV(int(a.Len())), Rest: zero(a.Elem())})})
			return
		}
		set(t, &Ptr{O: in.alloc(st, &Cell{zero(et), et})})
	case *ssa.Store:
		in.store(st, in.val(st, t.Addr), in.val(st, t.Val))
	case *ssa.UnOp:
		x := in.val(st, t.X)
		switch t.Op {
		case token.MUL:
			set(t, in.load(st, x, t.Type()))
		case token.NOT:
			if b, ok := constBool(x); ok {
				set(t, boolV(!b))
			} else if tm, ok := x.(*Term); ok {
				if tm.Op == "not" {
					set(t, tm.A[0])
				} else {
					set(t, rawTerm("not", types.Typ[types.Bool], tm))
				}
			} else {
				set(t, &Top{t.Type()})
			}
		case token.SUB:
			if c, ok := x.(*Const); ok && c.V != nil {
				set(t, &Const{constant.UnaryOp(token.SUB, c.V, 0), t.Type()})
			} else {
				set(t, &Top{t.Type()})
			}
		case token.XOR:
			set(t, &Top{t.Type()})
		case token.ARROW:
			in.fail("channel receive")
		}
	case *ssa.BinOp:
		set(t, in.binop(st, t, in.val(st, t.X), in.val(st, t.Y)))
	case *ssa.ChangeType:
		set(t, in.val(st, t.X))
	case *ssa.Convert:
		set(t, in.convert(st, in.val(st, t.X), t.X.Type(), t.Type()))
	case *ssa.ChangeInterface:
		set(t, in.val(st, t.X))
	case *ssa.MakeInterface:
		v := in.val(st, t.X)
		set(t, &Iface{t.X.Type(), v})
	case *ssa.MakeClosure:
		var b []Val
		for _, x := range t.Bindings {
			b = append(b, in.val(st, x))
		}
		set(t, &Func{t.Fn.(*ssa.Function), b})
	case *ssa.MakeMap:
		set(t, &Map{in.alloc(st, &MapObj{T: under(t.Type()).(*types.Map)})})
	case *ssa.MakeSlice:
		et := under(t.Type()).(*types.Slice).Elem()
		set(t, &Slice{in.alloc(st, &ListObj{Elem: et, Len: in.val(st, t.Len), Rest: zero(et)})})
	case *ssa.MakeChan:
		set(t, rawTerm("chan", t.Type()))
	case *ssa.Field:
		set(t, in.field(st, in.val(st, t.X), t.Field, t.Type()))
	case *ssa.FieldAddr:
		x := in.val(st, t.X)
		switch p := x.(type) {
		case *Ptr:
			set(t, &Ptr{p.O, append(p.Path[:len(p.Path):len(p.Path)], t.Field)})
		case *Term:
			in.nilCheck(st, p)
			et := under(p.T).(*types.Pointer).Elem()
			d := in.term(st, "deref", et, p)
			if dt, ok := d.(*Term); ok {
				set(t, &Ptr{0, []Val{dt, t.Field}})
			} else {
				set(t, &Ptr{in.alloc(st, &Cell{d, et}), []Val{t.Field}})
			}
		case *Const:
			in.nilCheck(st, p)
		case *Top:
			et := t.Type().(*types.Pointer).Elem()
			set(t, &Ptr{O: in.alloc(st, &Cell{&Top{et}, et})})
		default:
			in.fail("field address of %s", key(x))
		}
	case *ssa.IndexAddr:
		set(t, in.indexAddr(st, in.val(st, t.X), in.val(st, t.Index), t.Type().(*types.Pointer).Elem()))
	case *ssa.Index:
		x := in.val(st, t.X)
		if isStr(x) {
			set(t, in.strIndex(st, x, in.val(st, t.Index)))
			return
		}
		in.fail("index of array value")
	case *ssa.Lookup:
		x := in.val(st, t.X)
		if mt, ok := under(t.X.Type()).(*types.Map); ok {
			v, ok := in.mapGet(st, x, in.val(st, t.Index), mt)
			if t.CommaOk {
				set(t, &Tuple{[]Val{v, boolV(ok)}})
			} else {
				set(t, v)
			}
			return
		}
		set(t, in.strIndex(st, x, in.val(st, t.Index)))
	case *ssa.MapUpdate:
		in.mapSet(st, in.val(st, t.Map), in.val(st, t.Key), in.val(st, t.Value))
	case *ssa.TypeAssert:
		v, ok := in.typeAssert(st, in.val(st, t.X), t.AssertedType)
		if t.CommaOk {
			set(t, &Tuple{[]Val{v, boolV(ok)}})
		} else if !ok {
			in.raise("type assertion")
		} else {
			set(t, v)
		}
	case *ssa.Extract:
		tp := in.val(st, t.Tuple)
		switch x := tp.(type) {
		case *Tuple:
			set(t, x.V[t.Index])
		case *Top:
			set(t, &Top{t.Type()})
		default:
			in.fail("extract from %s", key(tp))
		}
	case *ssa.Slice:
		set(t, in.slice(st, t))
	case *ssa.Range:
		x := in.val(st, t.X)
		switch x := x.(type) {
		case *Map:
			set(t, &Iter{in.alloc(st, &IterObj{M: x.O, T: t.X.Type()})})
		default:
			if isNil(x) {
				set(t, &Iter{in.alloc(st, &IterObj{M: -1, T: t.X.Type()})})
				return
			}
			set(t, &Iter{in.alloc(st, &IterObj{M: 0, Str: x, T: t.X.Type()})})
		}
	case *ssa.Next:
		set(t, in.next(st, t))
	case *ssa.SliceToArrayPointer, *ssa.Select, *ssa.Send, *ssa.MultiConvert:
		in.fail("instruction %s", ins)
	default:
		in.fail("instruction %T", ins)
	}
}

func (in *Interp) next(st *State, t *ssa.Next) Val {
	it := in.val(st, t.Iter).(*Iter)
	o := st.heap[it.O].(*IterObj)
	tp := t.Type().(*types.Tuple)
	kt, vt := tp.At(1).Type(), tp.At(2).Type()
	end := &Tuple{[]Val{boolV(false), zeroOrNil(kt), zeroOrNil(vt)}}
	if t.IsString {
		if s, ok := constStr(o.Str); ok {
			rs := []rune(s)
			if o.Idx >= len(rs) {
				return end
			}
			n := *o
			n.Idx++
			st.heap[it.O] = &n
			return &Tuple{[]Val{boolV(true), intV(len(string(rs[:o.Idx]))), &Const{constant.MakeInt64(int64(rs[o.Idx])), types.Typ[types.Rune]}}}
		}
		if st.choose(2, "next character") == 0 {
			return end
		}
		return &Tuple{[]Val{boolV(true), &Top{types.Typ[types.Int]}, &Top{types.Typ[types.Rune]}}}
	}
	if o.M == -1 {
		return end
	}
	mo, ok := st.heap[o.M].(*MapObj)
	if o.M == 0 || !ok {
		st.sticky = true
		if st.choose(2, "next map entry") == 0 {
			return end
		}
		return &Tuple{[]Val{boolV(true), &Top{kt}, &Top{vt}}}
	}
	// any not yet seen present entry may come next
	var cand []MapEnt
	for _, e := range mo.E {
		if !e.Present {
			continue
		}
		seen := false
		for _, s := range o.Seen {
			if key(s) == key(e.K) {
				seen = true
			}
		}
		if !seen {
			cand = append(cand, e)
		}
	}
	n := len(cand)
	if mo.HasOthers {
		n += 1 + len(mo.Others)
	}
	if n == 0 {
		return end
	}
	c := 0
	if n > 1 {
		c = st.choose(n, "next map entry")
	}
	if c < len(cand) {
		no := *o
		no.Seen = append(append([]Val(nil), o.Seen...), cand[c].K)
		st.heap[it.O] = &no
		return &Tuple{[]Val{boolV(true), cand[c].K, cand[c].V}}
	}
	c -= len(cand)
	if c == 0 {
		if len(cand) > 0 {
			panic(&infeasible{})
		}
		return end
	}
	p := in.newPV(st, PV{})
	st.blind[p] = true
	return &Tuple{[]Val{boolV(true), in.anonKey(p, mo.T.Key()), mo.Others[c-1]}}
}

func (in *Interp) anonKey(p int, t types.Type) Val {
	return rawTerm("anykey", t, &Int{P: p})
}

func zeroOrNil(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nilV(nil)
	}
	return zero(t)
}

func (in *Interp) slice(st *State, t *ssa.Slice) Val {
	x := in.val(st, t.X)
	var lo, hi Val
	if t.Low != nil {
		lo = in.val(st, t.Low)
	}
	if t.High != nil {
		hi = in.val(st, t.High)
	}
	if isStr(x) {
		return in.substr(st, x, lo, hi)
	}
	if lo != nil {
		if c, ok := constInt(lo); ok && c == 0 {
			lo = nil
		}
	}
	switch v := x.(type) {
	case *Ptr: // array
		if o, ok := st.heap[v.O].(*ListObj); ok && len(v.Path) == 0 {
			if lo == nil && (hi == nil || sameInt(hi, o.Len)) {
				return &Slice{v.O}
			}
			return in.reslice(st, o, lo, hi)
		}
	case *Slice:
		if o, ok := st.heap[v.O].(*ListObj); ok {
			if lo == nil && (hi == nil || sameInt(hi, o.Len)) {
				return v
			}
			return in.reslice(st, o, lo, hi)
		}
		if lo == nil && hi == nil {
			return v
		}
		return &Slice{in.alloc(st, &TopObj{View: true})}
	case *Const:
		if v.V == nil {
			if lo == nil && hi == nil {
				return v
			}
			if c, ok := constInt(hi); ok && c == 0 && lo == nil {
				return v
			}
			in.raise("slice bounds")
		}
	case *Term:
		if _, ok := under(v.T).(*types.Slice); ok {
			if lo == nil && (hi == nil || sameInt(hi, in.lenOf(st, v))) {
				return v
			}
			if c, ok := constInt(lo); ok && hi == nil {
				in.bounds(st, intV(c-1), in.lenOf(st, v))
				return rawTerm("from", v.T, v, intV(c))
			}
			if _, top := hi.(*Top); lo == nil && hi != nil && !top {
				if in.compare(st, token.LSS, hi, intV(0)) || in.compare(st, token.LSS, in.lenOf(st, v), hi) {
					in.raise("slice bounds")
				}
				return rawTerm("upto", v.T, v, hi)
			}
			return in.reslice(st, in.asList(st, v, under(v.T).(*types.Slice).Elem()), lo, hi)
		}
	case *Top:
		return v
	}
	in.fail("slice of %s", key(x))
	return nil
}

// hasTop: a part of the value is unknown.
func hasTop(v Val) bool {
	var vs []Val
	switch x := v.(type) {
	case *Top:
		return true
	case *Struct:
		vs = x.F
	case *Tuple:
		vs = x.V
	case *Term:
		vs = x.A
	case *Iface:
		vs = []Val{x.V}
	}
	for _, x := range vs {
		if hasTop(x) {
			return true
		}
	}
	return false
}

// sameInt: the two are known to be equal.
func sameInt(a, b Val) bool {
	_, top := a.(*Top)
	return !top && key(a) == key(b)
}

// reslice copies (aliasing between overlapping heap slices is not tracked, so
// later writes through such a slice are refused).
func (in *Interp) reslice(st *State, o *ListObj, lo, hi Val) Val {
	if lo == nil {
		lo = intV(0)
	}
	if hi == nil {
		hi = o.Len
	}
	cl, ok := constInt(lo)
	if !ok {
		return &Slice{in.alloc(st, &TopObj{View: true})}
	}
	if _, top := hi.(*Top); !top {
		if _, top := o.Len.(*Top); !top {
			if in.compare(st, token.LSS, o.Len, hi) {
				in.raise("slice bounds")
			}
			if in.compare(st, token.LSS, hi, lo) {
				in.raise("slice bounds")
			}
		}
	}
	n := &ListObj{View: true, Elem: o.Elem, Rest: o.Rest, Len: in.addInt(hi, -cl)}
	for _, s := range o.At {
		if in.compare(st, token.LSS, s.I, lo) {
			continue
		}
		if _, top := hi.(*Top); !top && !in.compare(st, token.LSS, s.I, hi) {
			continue
		}
		n.At = append(n.At, Slot{in.addInt(s.I, -cl), s.V})
	}
	return &Slice{in.alloc(st, n)}
}

func (in *Interp) binop(st *State, t *ssa.BinOp, a, b Val) Val {
	switch t.Op {
	case token.EQL, token.NEQ:
		r := in.valEq(st, a, b)
		return boolV(r == (t.Op == token.EQL))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		ca, ok1 := a.(*Const)
		cb, ok2 := b.(*Const)
		if ok1 && ok2 && ca.V != nil && cb.V != nil {
			return boolV(constant.Compare(ca.V, t.Op, cb.V))
		}
		if isStr(a) || isStr(b) {
			return rawTerm("str"+t.Op.String(), types.Typ[types.Bool], a, b)
		}
		if ta, ok := a.(*Term); ok {
			return boolV(in.charCmp(st, t.Op, ta, b))
		}
		if tb, ok := b.(*Term); ok {
			return boolV(in.charCmp(st, flip(t.Op), tb, a))
		}
		return boolV(in.compare(st, t.Op, a, b))
	}
	ca, ok1 := a.(*Const)
	cb, ok2 := b.(*Const)
	if ok1 && ok2 && ca.V != nil && cb.V != nil {
		switch t.Op {
		case token.SHL, token.SHR:
			s, _ := constant.Uint64Val(cb.V)
			return &Const{constant.Shift(ca.V, t.Op, uint(s)), t.Type()}
		case token.QUO, token.REM:
			if constant.Sign(cb.V) == 0 {
				in.raise("division by zero")
			}
			if ca.V.Kind() == constant.Int {
				op := t.Op
				if op == token.QUO {
					op = token.QUO_ASSIGN
				}
				return &Const{constant.BinaryOp(ca.V, op, cb.V), t.Type()}
			}
		}
		return &Const{constant.BinaryOp(ca.V, t.Op, cb.V), t.Type()}
	}
	if isStr(a) && t.Op == token.ADD {
		return in.concat(st, a, b)
	}
	switch t.Op {
	case token.ADD:
		if k, ok := constInt(b); ok && isIntVal(a) {
			return in.addInt(a, k)
		}
		if k, ok := constInt(a); ok && isIntVal(b) {
			return in.addInt(b, k)
		}
		if k, ok := in.exactOf(st, b); ok && isIntVal(a) {
			return in.addInt(a, k)
		}
		if k, ok := in.exactOf(st, a); ok && isIntVal(b) {
			return in.addInt(b, k)
		}
	case token.SUB:
		if k, ok := constInt(b); ok && isIntVal(a) {
			return in.addInt(a, -k)
		}
		ia, ok1 := a.(*Int)
		ib, ok2 := b.(*Int)
		if ok1 && ok2 && ia.P == ib.P && (ia.B == nil) == (ib.B == nil) && (ia.B == nil || ia.B.key == ib.B.key) {
			return intV(ia.Off - ib.Off)
		}
		if k, ok := in.exactOf(st, b); ok && isIntVal(a) {
			return in.addInt(a, -k)
		}
		if i, ok := a.(*Int); ok && i.B != nil && i.B.Op == "strlen" {
			return rawTermInt(in, "sub", a, b)
		}
	case token.AND:
		if ok2 {
			if ta, ok := a.(*Term); ok {
				return in.term(st, "&", t.Type(), ta, b)
			}
		}
		if ok1 {
			if tb, ok := b.(*Term); ok {
				return in.term(st, "&", t.Type(), tb, a)
			}
		}
	}
	return &Top{t.Type()}
}

func rawTermInt(in *Interp, op string, a, b Val) Val {
	return &Int{B: rawTerm(op, types.Typ[types.Int], a, b)}
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func (in *Interp) convert(st *State, v Val, from, to types.Type) Val {
	if c, ok := v.(*Const); ok && c.V != nil {
		fb, ok1 := under(from).(*types.Basic)
		tb, ok2 := under(to).(*types.Basic)
		if ok1 && ok2 {
			switch {
			case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				return &Const{c.V, to}
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
				i, _ := constant.Int64Val(c.V)
				return &Const{constant.MakeString(string(rune(i))), to}
			case tb.Info()&types.IsInteger != 0:
				x := constant.ToInt(c.V)
				if x.Kind() == constant.Int {
					return &Const{x, to}
				}
			case tb.Info()&types.IsFloat != 0:
				return &Const{constant.ToFloat(c.V), to}
			}
		}
	}
	fs, isFS := under(from).(*types.Basic)
	ts, isTS := under(to).(*types.Basic)
	if isFS && isTS && fs.Info()&types.IsString != 0 && ts.Info()&types.IsString != 0 {
		return v
	}
	if isFS && isTS && fs.Info()&types.IsInteger != 0 && ts.Info()&types.IsInteger != 0 {
		return v
	}
	if isFS && fs.Info()&types.IsString != 0 {
		if _, ok := v.(*Top); ok {
			return &Top{to}
		}
		if t, ok := v.(*Term); ok && t.Op == "str" {
			if b, ok := t.A[0].(*Term); ok && types.Identical(b.T, to) {
				return b
			}
		}
		return rawTerm("bytes", to, v)
	}
	if isTS && ts.Info()&types.IsString != 0 {
		switch t := v.(type) {
		case *Term:
			if t.Op == "bytes" {
				return t.A[0]
			}
			return in.term(st, "str", to, t)
		case *Const:
			if t.V == nil {
				return &Const{constant.MakeString(""), to}
			}
		case *Slice:
			return &Top{to}
		}
	}
	return &Top{to}
}

// waits: the instruction waits for a channel nobody sends to.
func waits(ins ssa.Instruction) bool {
	switch t := ins.(type) {
	case *ssa.UnOp:
		return t.Op == token.ARROW
	case *ssa.Select:
		return len(t.States) == 0 && t.Blocking
	}
	return false
}
