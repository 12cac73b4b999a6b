package main

import (
	"sort"
	"strings"
)

// Questions about the published grammar: which tokens may stand next to each
// other, and how a text is cut into tokens.

type lexer struct{ f *interpFile }

func newLexer() (*lexer, error) {
	f, err := readInterp("KuneiformLexer.interp")
	if err != nil {
		return nil, err
	}
	return &lexer{f}, nil
}

type lexTok struct{ sym, text string }

type lexCfg struct {
	state int
	stack string // return states, most recent last
	rule  int    // top-level rule
}

// one cuts the first token off s (longest match, first rule); "" if none.
func (l *lexer) one(s string) lexTok {
	a := l.f.atn
	start := a.Modes[0]
	cur := map[lexCfg]bool{}
	var close func(c lexCfg, set map[lexCfg]bool, depth int)
	best, bestN := -1, -1
	pos := 0
	close = func(c lexCfg, set map[lexCfg]bool, depth int) {
		if set[c] {
			return
		}
		set[c] = true
		st := a.States[c.state]
		if st.Type == 7 { // rule stop
			if c.stack == "" {
				if pos > bestN || pos == bestN && c.rule < best {
					best, bestN = c.rule, pos
				}
				return
			}
			i := strings.LastIndexByte(c.stack[:len(c.stack)-1], ',') + 1
			ret := 0
			for _, d := range c.stack[i : len(c.stack)-1] {
				ret = ret*10 + int(d-'0')
			}
			close(lexCfg{ret, c.stack[:i], c.rule}, set, depth+1)
			return
		}
		for _, e := range a.out[c.state] {
			switch e.Type {
			case eEPS, eACT, ePRED, ePREC:
				r := c.rule
				if c.state == start {
					r = a.States[e.Trg].Rule
				}
				close(lexCfg{e.Trg, c.stack, r}, set, depth+1)
			case eRULE:
				close(lexCfg{e.A1, c.stack + itoa(e.Trg) + ",", c.rule}, set, depth+1)
			}
		}
	}
	close(lexCfg{start, "", -1}, cur, 0)
	for i, ch := range s {
		next := map[lexCfg]bool{}
		pos = i + len(string(ch))
		var moved []lexCfg
		for c := range cur {
			for _, e := range a.out[c.state] {
				switch e.Type {
				case eATOM, eRANGE, eSET, eNSET, eWILD:
					if a.matches(e, int(ch)) {
						moved = append(moved, lexCfg{e.Trg, c.stack, c.rule})
					}
				}
			}
		}
		if len(moved) == 0 {
			break
		}
		for _, c := range moved {
			close(c, next, 0)
		}
		cur = next
	}
	if bestN <= 0 {
		return lexTok{}
	}
	return lexTok{l.f.sym(a.Rules[best][1]), s[:bestN]}
}

func (l *lexer) all(s string) []lexTok {
	var r []lexTok
	for s != "" {
		t := l.one(s)
		if t.text == "" {
			r = append(r, lexTok{"?", s})
			return r
		}
		r = append(r, t)
		s = s[len(t.text):]
	}
	return r
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	s := ""
	for ; i > 0; i /= 10 {
		s = string(rune('0'+i%10)) + s
	}
	return s
}

// matches: character c passes the edge.
func (a *atn) matches(e atnEdge, c int) bool {
	in := func() bool {
		for _, iv := range a.Sets[e.A1] {
			if iv[0] <= c && c <= iv[1] {
				return true
			}
		}
		return false
	}
	switch e.Type {
	case eATOM:
		return e.A3 == 0 && e.A1 == c
	case eRANGE:
		return e.A1 <= c && c <= e.A2
	case eSET:
		return in()
	case eNSET:
		return !in()
	}
	return e.Type == eWILD
}

// samples spells a few tokens of kind sym: the fixed spelling, or texts built
// from representatives of the characters at its start and end.
func (l *lexer) samples(sym string) []string {
	cand := []string{}
	if s, ok := l.f.lit(sym); ok {
		cand = append(cand, s)
	}
	firsts := []string{"", "#", "$", "@", "'", "a", "Z", "n", "e", "i", "s", "0", "5", "+", "-", "/", "_", "<", ">", "=", "!", "|", "."}
	lasts := []string{"", "a", "Z", "n", "e", "7", "_", "'", "5a"}
	for _, f := range firsts {
		for _, m := range []string{"", "a", "q", "qq"} {
			for _, x := range lasts {
				cand = append(cand, f+m+x)
			}
		}
	}
	seen := map[string]bool{}
	ends := map[string]bool{}
	var r []string
	for _, c := range cand {
		if c == "" || seen[c] {
			continue
		}
		seen[c] = true
		t := l.all(c)
		if len(t) == 1 && t[0].sym == sym {
			k := class(c[0]) + class(c[len(c)-1])
			if len(c) == 1 {
				k += "1"
			}
			if ends[k] {
				continue
			}
			ends[k] = true
			r = append(r, c)
		}
	}
	if r == nil {
		if s, ok := l.spell(sym); ok {
			r = append(r, s)
		}
	}
	return r
}

func class(c byte) string {
	switch {
	case c >= 'a' && c <= 'z':
		return "a"
	case c >= 'A' && c <= 'Z':
		return "A"
	case c >= '0' && c <= '9':
		return "0"
	}
	return string(c)
}

// spell finds some text of a token by a shortest walk of its rule.
func (l *lexer) spell(sym string) (string, bool) {
	a := l.f.atn
	for ri, r := range a.Rules {
		if l.f.sym(r[1]) != sym {
			continue
		}
		s, ok := l.shortest(ri, map[int]bool{})
		if !ok {
			continue
		}
		if t := l.all(s); len(t) == 1 && t[0].sym == sym {
			return s, true
		}
	}
	return "", false
}

func (l *lexer) shortest(ri int, active map[int]bool) (string, bool) {
	if active[ri] {
		return "", false
	}
	active[ri] = true
	defer delete(active, ri)
	a := l.f.atn
	type item struct {
		s    int
		text string
	}
	best := map[int]string{}
	q := []item{{a.Rules[ri][0], ""}}
	for len(q) > 0 {
		sort.SliceStable(q, func(i, j int) bool { return len(q[i].text) < len(q[j].text) })
		x := q[0]
		q = q[1:]
		if _, ok := best[x.s]; ok {
			continue
		}
		best[x.s] = x.text
		if x.s == a.stop[ri] {
			return x.text, true
		}
		for _, e := range a.out[x.s] {
			switch e.Type {
			case eEPS, eACT, ePRED, ePREC:
				q = append(q, item{e.Trg, x.text})
			case eRULE:
				sub := a.States[e.A1].Rule
				if s, ok := l.shortest(sub, active); ok {
					q = append(q, item{e.Trg, x.text + s})
				}
			default:
				for _, c := range "aq5 _'-=<>.,;:|/*#$@!(){}\n" {
					if a.matches(e, int(c)) {
						q = append(q, item{e.Trg, x.text + string(c)})
						break
					}
				}
				for c := 33; c < 127; c++ {
					if a.matches(e, c) {
						q = append(q, item{e.Trg, x.text + string(rune(c))})
						break
					}
				}
			}
		}
	}
	return "", false
}

// pairs lists the token pairs that may stand next to each other inside nodes
// of the rule.
func (f *interpFile) pairs(rule string) [][2]string {
	a := f.atn
	// rules reachable from rule, and where each is used
	reach := map[int]bool{}
	follow := map[int][]int{} // rule -> states after its uses
	var visit func(ri int)
	visit = func(ri int) {
		if reach[ri] {
			return
		}
		reach[ri] = true
		for s, x := range a.States {
			if x.Rule != ri || x.Type == 0 {
				continue
			}
			for _, e := range a.out[s] {
				if e.Type == eRULE {
					follow[e.A2] = append(follow[e.A2], e.Trg)
					visit(e.A2)
				}
			}
		}
	}
	top := f.ruleIndex(rule)
	visit(top)
	// tokens that may come next at state s
	next := func(s int) []string {
		seen := map[int]bool{}
		set := map[string]bool{}
		var walk func(s int)
		walk = func(s int) {
			if seen[s] {
				return
			}
			seen[s] = true
			if a.States[s].Type == 7 {
				if r := a.States[s].Rule; r != top {
					for _, t := range follow[r] {
						walk(t)
					}
				}
				return
			}
			for _, e := range a.out[s] {
				switch e.Type {
				case eRULE:
					walk(e.A1)
				case eATOM, eRANGE, eSET, eNSET, eWILD:
					for _, k := range a.edgeToks(e, len(f.Symbolic)-1) {
						set[f.sym(k)] = true
					}
				default:
					walk(e.Trg)
				}
			}
		}
		walk(s)
		return sortedKeys(set)
	}
	res := map[[2]string]bool{}
	for s, x := range a.States {
		if x.Type == 0 || !reach[x.Rule] {
			continue
		}
		for _, e := range a.out[s] {
			switch e.Type {
			case eATOM, eRANGE, eSET, eNSET, eWILD:
				for _, k := range a.edgeToks(e, len(f.Symbolic)-1) {
					for _, n := range next(e.Trg) {
						res[[2]string{f.sym(k), n}] = true
					}
				}
			}
		}
	}
	var r [][2]string
	for p := range res {
		r = append(r, p)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i][0] != r[j][0] {
			return r[i][0] < r[j][0]
		}
		return r[i][1] < r[j][1]
	})
	return r
}

// spacing says for two neighbouring tokens with the given texts whether they
// are read differently without a space in between.
type spacing struct {
	a, b  string
	fused bool
}

// spacings lists the distinguishable neighbours inside nodes of the rule.
func (l *lexer) spacings(g *interpFile, rule string) ([]spacing, []string) {
	var r []spacing
	var missing []string
	sm := map[string][]string{}
	get := func(s string) []string {
		if _, ok := sm[s]; !ok {
			sm[s] = l.samples(s)
			if sm[s] == nil {
				missing = append(missing, s)
			}
		}
		return sm[s]
	}
	seen := map[string]bool{}
	for _, p := range g.pairs(rule) {
		for _, x := range get(p[0]) {
			for _, y := range get(p[1]) {
				t := l.all(x + y)
				fused := !(len(t) == 2 && t[0].sym == p[0] && t[1].sym == p[1] && t[0].text == x)
				k := class(x[0]) + class(x[len(x)-1]) + one(x) + " " + class(y[0]) + class(y[len(y)-1]) + one(y)
				if fused {
					k += " f"
				}
				if seen[k] {
					continue
				}
				seen[k] = true
				r = append(r, spacing{x, y, fused})
			}
		}
	}
	return r, missing
}

func one(s string) string {
	if len(s) == 1 {
		return "1"
	}
	return ""
}
