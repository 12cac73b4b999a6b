package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Scenario fixes what is known about the input of one analysis run.
type Scenario struct {
	absorb   func(s string) bool // may a constant between forgotten parts of a text be forgotten?
	inline   bool                // calls nest no deeper than the input
	name     string
	decideF  func(in *Interp, st *State, t *Term) Tri
	resolveF func(in *Interp, st *State, t *Term) Val
	cfgF     func(in *Interp, st *State, l *Term) (ListCfg, bool)
	// fn overrides calls of functions
	fn func(in *Interp, st *State, f *ssa.Function, name string, args []Val) ([]Outcome, bool)
	// method overrides interface method calls on known dynamic types
	method func(in *Interp, st *State, r *Iface, m *types.Func, args []Val) ([]Outcome, bool)
	// invoke overrides interface method calls on opaque values
	invoke      func(in *Interp, st *State, r *Term, m *types.Func, args []Val) ([]Outcome, bool)
	strFirst    func(in *Interp, st *State, t *Term) (string, bool)
	trimmed     func(in *Interp, st *State, t *Term) bool
	sliceBounds func(in *Interp, st *State, x, lo, hi Val) bool
	inputWrite  func(in *Interp, st *State, what string)
	blocks      bool // a channel operation waits for ever
	onPrint     func(in *Interp, st *State, fn *ssa.Function, a []Val)
	interpPkgs  map[string]bool
	forgetLists bool    // what is known of the length of a list may be forgotten after its use
	mapKeys     []*Term // keys followed through every map
	// abstractArg names the kind of symbol that stands for an argument of a
	// recursive call
	abstractArg func(in *Interp, st *State, t *Term) (string, bool)
}

func (s *Scenario) decide(in *Interp, st *State, t *Term) Tri {
	if s.decideF != nil {
		return s.decideF(in, st, t)
	}
	return Maybe
}

func (s *Scenario) resolve(in *Interp, st *State, t *Term) Val {
	if s.resolveF != nil {
		return s.resolveF(in, st, t)
	}
	return nil
}

func (s *Scenario) listCfg(in *Interp, st *State, l *Term) ListCfg {
	if s.cfgF != nil {
		if c, ok := s.cfgF(in, st, l); ok {
			return c
		}
	}
	return ListCfg{Exact: -1}
}

func newInterp(p *Program, sc *Scenario) *Interp {
	return &Interp{P: p, Sc: sc, maxSteps: 20000000, undecided: map[string]bool{}, recDone: map[string]*summary{},
		fnsSeen: map[*ssa.Function]bool{}, callsSeen: map[string]int{}, loops: map[string]bool{}, opType: map[string]types.Type{}, notes: map[string]bool{}}
}

// fresh derives an interpreter sharing the initialised globals.
func (in *Interp) fresh(sc *Scenario) *Interp {
	n := newInterp(in.P, sc)
	n.nid, n.npv = in.nid, in.npv
	n.base, n.baseMax = in.base, in.baseMax
	return n
}

// start is a state right after initialisation.
func (in *Interp) start() *State { return in.base.clone() }

// run calls fn and returns the outcomes.
func (in *Interp) run(st *State, fn *ssa.Function, args []Val, binds []Val) []Outcome {
	return in.tryCall(st, func(s *State) []Outcome { return in.callFunc(s, fn, args, binds, 0) })
}
