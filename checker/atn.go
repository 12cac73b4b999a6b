package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// The published grammar: the serialised automata next to the generated code.

type atnState struct{ Type, Rule, X int }

type atnEdge struct{ Src, Trg, Type, A1, A2, A3 int }

const (
	eEPS   = 1
	eRANGE = 2
	eRULE  = 3
	ePRED  = 4
	eATOM  = 5
	eACT   = 6
	eSET   = 7
	eNSET  = 8
	eWILD  = 9
	ePREC  = 10
)

type atn struct {
	Version, Grammar, Max int
	States                []atnState
	NonGreedy, Prec       []int
	Rules                 [][2]int // start state, token type (lexer)
	Modes                 []int
	Sets                  [][][2]int
	Edges                 []atnEdge
	Decisions             []int
	Actions               [][3]int
	out                   map[int][]atnEdge
	stop                  []int
}

func decodeATN(a []int) (r *atn, err error) {
	defer func() {
		if x := recover(); x != nil {
			r, err = nil, fmt.Errorf("serialised automaton is malformed: %v", x)
		}
	}()
	i := 0
	n := func() int { v := a[i]; i++; return v }
	r = &atn{Version: n(), Grammar: n(), Max: n(), out: map[int][]atnEdge{}}
	for k := n(); k > 0; k-- {
		t := n()
		if t == 0 {
			r.States = append(r.States, atnState{0, -1, 0})
			continue
		}
		s := atnState{Type: t, Rule: n()}
		if t == 3 || t == 4 || t == 5 || t == 12 {
			s.X = n()
		}
		r.States = append(r.States, s)
	}
	for k := n(); k > 0; k-- {
		r.NonGreedy = append(r.NonGreedy, n())
	}
	for k := n(); k > 0; k-- {
		r.Prec = append(r.Prec, n())
	}
	for k := n(); k > 0; k-- {
		s := n()
		tt := 0
		if r.Grammar == 0 {
			tt = n()
		}
		r.Rules = append(r.Rules, [2]int{s, tt})
	}
	for k := n(); k > 0; k-- {
		r.Modes = append(r.Modes, n())
	}
	for k := n(); k > 0; k-- {
		c := n()
		eof := n()
		var iv [][2]int
		if eof != 0 {
			iv = append(iv, [2]int{-1, -1})
		}
		for ; c > 0; c-- {
			lo := n()
			iv = append(iv, [2]int{lo, n()})
		}
		r.Sets = append(r.Sets, iv)
	}
	for k := n(); k > 0; k-- {
		e := atnEdge{n(), n(), n(), n(), n(), n()}
		r.Edges = append(r.Edges, e)
		r.out[e.Src] = append(r.out[e.Src], e)
	}
	for k := n(); k > 0; k-- {
		r.Decisions = append(r.Decisions, n())
	}
	if r.Grammar == 0 {
		for k := n(); k > 0; k-- {
			r.Actions = append(r.Actions, [3]int{n(), n(), n()})
		}
	}
	if i != len(a) {
		return nil, fmt.Errorf("serialised automaton: %d trailing numbers", len(a)-i)
	}
	r.stop = make([]int, len(r.Rules))
	for s, x := range r.States {
		if x.Type == 7 && x.Rule >= 0 && x.Rule < len(r.stop) {
			r.stop[x.Rule] = s
		}
	}
	return r, nil
}

// interpFile is one *.interp file.
type interpFile struct {
	Literal, Symbolic, Rules, Channels, Modes []string
	Numbers                                   []int
	*atn

	mu   sync.Mutex
	memo map[int][]map[string]int // of alts
}

var (
	interpMu    sync.Mutex
	interpFiles = map[string]*interpFile{}
)

// readInterp reads one *.interp file (once).
func readInterp(name string) (*interpFile, error) {
	interpMu.Lock()
	defer interpMu.Unlock()
	if f := interpFiles[name]; f != nil {
		return f, nil
	}
	f, err := parseInterp(name)
	if err == nil {
		interpFiles[name] = f
	}
	return f, err
}

func parseInterp(name string) (*interpFile, error) {
	b, err := os.ReadFile(filepath.Join(repoDir(), "kfgrammar", name))
	if err != nil {
		return nil, err
	}
	f := &interpFile{}
	var cur *[]string
	atnNext := false
	for _, l := range strings.Split(string(b), "\n") {
		switch l {
		case "token literal names:":
			cur = &f.Literal
		case "token symbolic names:":
			cur = &f.Symbolic
		case "rule names:":
			cur = &f.Rules
		case "channel names:":
			cur = &f.Channels
		case "mode names:":
			cur = &f.Modes
		case "atn:":
			atnNext = true
		case "":
		default:
			if atnNext {
				if err := json.Unmarshal([]byte(l), &f.Numbers); err != nil {
					return nil, fmt.Errorf("%s: %v", name, err)
				}
				atnNext = false
			} else if cur != nil {
				*cur = append(*cur, l)
			}
		}
	}
	f.atn, err = decodeATN(f.Numbers)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", name, err)
	}
	return f, nil
}

// sym is the symbolic name of token t.
func (f *interpFile) sym(t int) string {
	if t < 0 {
		return "EOF"
	}
	if t < len(f.Symbolic) {
		return f.Symbolic[t]
	}
	return fmt.Sprint("token ", t)
}

// lit is the fixed text of token t, if it has one.
func (f *interpFile) lit(sym string) (string, bool) {
	for i, s := range f.Symbolic {
		if s == sym && i < len(f.Literal) && f.Literal[i] != "null" {
			return strings.Trim(f.Literal[i], "'"), true
		}
	}
	return "", false
}

// tokens matched by a consuming edge.
func (a *atn) edgeToks(e atnEdge, max int) []int {
	var r []int
	add := func(lo, hi int) {
		for t := lo; t <= hi; t++ {
			r = append(r, t)
		}
	}
	switch e.Type {
	case eATOM:
		if e.A3 != 0 {
			return []int{-1}
		}
		return []int{e.A1}
	case eRANGE:
		add(e.A1, e.A2)
	case eSET:
		for _, iv := range a.Sets[e.A1] {
			add(iv[0], iv[1])
		}
	case eNSET, eWILD:
		in := map[int]bool{}
		if e.Type == eNSET {
			for _, iv := range a.Sets[e.A1] {
				for t := iv[0]; t <= iv[1]; t++ {
					in[t] = true
				}
			}
		}
		for t := 1; t <= max; t++ {
			if !in[t] {
				r = append(r, t)
			}
		}
	}
	return r
}

// many stands for any number of occurrences, none included.
const many = 1 << 20

// alts lists, for rule r of a parser grammar, the possible numbers of
// children by symbol ("rule" or "TOKEN").
func (f *interpFile) alts(r int) []map[string]int {
	f.mu.Lock()
	defer f.mu.Unlock()
	if v, ok := f.memo[r]; ok {
		return v
	}
	if f.memo == nil {
		f.memo = map[int][]map[string]int{}
	}
	v := f.alts1(r)
	f.memo[r] = v
	return v
}

func (f *interpFile) alts1(r int) []map[string]int {
	start, stop := f.atn.Rules[r][0], f.stop[r]
	// states of the rule
	var states []int
	seen := map[int]bool{}
	var walk func(s int)
	walk = func(s int) {
		if seen[s] {
			return
		}
		seen[s] = true
		states = append(states, s)
		if s == stop {
			return
		}
		for _, e := range f.out[s] {
			walk(e.Trg)
		}
	}
	walk(start)
	comp := sccOf(states, func(s int) []int {
		var r []int
		if s == stop {
			return nil
		}
		for _, e := range f.out[s] {
			r = append(r, e.Trg)
		}
		return r
	})
	label := func(e atnEdge) []string {
		switch e.Type {
		case eRULE:
			return []string{f.Rules[e.A2]}
		case eATOM, eRANGE, eSET, eNSET, eWILD:
			var r []string
			for _, t := range f.edgeToks(e, len(f.Symbolic)-1) {
				r = append(r, f.sym(t))
			}
			return r
		}
		return []string{""}
	}
	loopSyms := map[int]map[string]bool{}
	for _, s := range states {
		if s == stop {
			continue
		}
		for _, e := range f.out[s] {
			if comp[s] == comp[e.Trg] {
				if loopSyms[comp[s]] == nil {
					loopSyms[comp[s]] = map[string]bool{}
				}
				for _, l := range label(e) {
					if l != "" {
						loopSyms[comp[s]][l] = true
					}
				}
			}
		}
	}
	var res []map[string]int
	dup := map[string]bool{}
	var paths func(s int, v map[string]int)
	// from component entry s: every exit edge of the component
	paths = func(s int, v map[string]int) {
		c := comp[s]
		w := map[string]int{}
		for k, n := range v {
			w[k] = n
		}
		for l := range loopSyms[c] {
			w[l] |= many
		}
		if c == comp[stop] {
			k := fmt.Sprint(w)
			if !dup[k] {
				dup[k] = true
				res = append(res, w)
			}
			return
		}
		for _, x := range states {
			if comp[x] != c || x == stop {
				continue
			}
			for _, e := range f.out[x] {
				if comp[e.Trg] == c {
					continue
				}
				for _, l := range label(e) {
					y := w
					if l != "" {
						y = map[string]int{}
						for k, n := range w {
							y[k] = n
						}
						y[l]++
					}
					paths(e.Trg, y)
				}
			}
		}
	}
	paths(start, map[string]int{})
	return res
}

// sccOf numbers the strongly connected components of a graph.
func sccOf(nodes []int, succ func(int) []int) map[int]int {
	idx, low, on, comp := map[int]int{}, map[int]int{}, map[int]bool{}, map[int]int{}
	var stack []int
	n, c := 0, 0
	var visit func(v int)
	visit = func(v int) {
		n++
		idx[v], low[v] = n, n
		stack = append(stack, v)
		on[v] = true
		for _, w := range succ(v) {
			if idx[w] == 0 {
				visit(w)
				if low[w] < low[v] {
					low[v] = low[w]
				}
			} else if on[w] && idx[w] < low[v] {
				low[v] = idx[w]
			}
		}
		if low[v] == idx[v] {
			c++
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				comp[w] = c
				if w == v {
					break
				}
			}
		}
	}
	sort.Ints(nodes)
	for _, v := range nodes {
		if idx[v] == 0 {
			visit(v)
		}
	}
	return comp
}

func (f *interpFile) ruleIndex(name string) int {
	for i, r := range f.Rules {
		if r == name {
			return i
		}
	}
	return -1
}

// range of numbers of children sym over all alternatives of rule name.
func (f *interpFile) counts(name, sym string) (lo, hi int) {
	lo = many
	for _, v := range f.alts(f.ruleIndex(name)) {
		n := v[sym]
		if l := n &^ many; l < lo {
			lo = l
		}
		if n > hi {
			hi = n
		}
	}
	return
}
