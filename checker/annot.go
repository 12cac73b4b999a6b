package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// ---- C24: decoding annotations ----
//
// The text given to utils.ParseAnnotation is a concatenation of segments: texts
// of unknown length of which only the first, last and possible characters are
// known. Library calls that look for a character are decided on the segments.
// What the regular expression finds in the attribute list is decided by a product
// of its compiled program (ordered threads, leftmost-first as the regexp package
// defines it) with the automaton of the annotation rule, down to the characters of
// its tokens.

// aseg is a segment of the text.
type aseg struct {
	ne          bool // not empty
	not         string
	notL        string // characters it neither contains, nor ends with
	first, last string // if not "", the characters it may start and end with
	solid       bool   // neither starts nor ends with white space
}

type aworld struct {
	c     *vctx
	name  string
	segs  map[string]aseg
	text  []Val
	found map[string]*Term // what the expression finds
}

func (w *aworld) seg(name string, s aseg) *Term {
	t := rawTerm("text", strType, rawTerm("seg:"+name, strType))
	w.segs[t.key] = s
	return t
}

// may tells whether segment v may contain character ch.
func (w *aworld) may(v Val, ch byte) bool {
	s, ok := w.segs[key(v)]
	return !ok || strings.IndexByte(s.not, ch) < 0
}

// find looks for the first (last) ch in v: the parts before and after it.
func (w *aworld) find(v Val, ch byte, last bool) (before, after Val, r Tri) {
	ps := parts(v)
	for k := range ps {
		i := k
		if last {
			i = len(ps) - 1 - k
		}
		if s, ok := constStr(ps[i]); ok {
			j := strings.IndexByte(s, ch)
			if last {
				j = strings.LastIndexByte(s, ch)
			}
			if j >= 0 {
				b := append(append([]Val(nil), ps[:i]...), strV(s[:j]))
				a := append([]Val{strV(s[j+1:])}, ps[i+1:]...)
				return catOf(b), catOf(a), Yes
			}
			continue
		}
		if w.may(ps[i], ch) {
			return nil, nil, Maybe
		}
	}
	return nil, nil, No
}

// contains: whether ch occurs at all.
func (w *aworld) contains(v Val, ch byte) Tri {
	if _, _, r := w.find(v, ch, false); r != Maybe {
		return r
	}
	for _, p := range parts(v) {
		if s, ok := constStr(p); ok && strings.IndexByte(s, ch) >= 0 {
			return Yes
		}
	}
	return Maybe
}

// lastChars: the characters v may end with ("" unknown), and those it does not end with.
func (w *aworld) lastChars(v Val) (set, not string, ne bool) {
	ps := parts(v)
	if len(ps) == 0 {
		return "", "", false
	}
	p := ps[len(ps)-1]
	if s, ok := constStr(p); ok {
		return s[len(s)-1:], "", true
	}
	g, ok := w.segs[key(p)]
	if !ok || !g.ne {
		return "", "", false
	}
	return g.last, g.notL, true
}

func (w *aworld) char(v Val) (byte, bool) {
	if s, ok := constStr(v); ok && len(s) == 1 {
		return s[0], true
	}
	if n, ok := constInt(v); ok && n > 0 && n < 128 {
		return byte(n), true
	}
	return 0, false
}

func (w *aworld) scenario() *Scenario {
	sc := &Scenario{name: w.name}
	sc.strFirst = func(in *Interp, st *State, t *Term) (string, bool) {
		s, ok := w.segs[t.key]
		if !ok || !s.ne {
			return "", false
		}
		return s.first, true
	}
	sc.trimmed = func(in *Interp, st *State, t *Term) bool { s := w.segs[t.key]; return s.solid && s.ne }
	sc.decideF = func(in *Interp, st *State, t *Term) Tri {
		if len(t.A) == 2 && (t.Op == "ch==" || t.Op == "eq") {
			for i := 0; i < 2; i++ {
				lc, ok := t.A[i].(*Term)
				if !ok || lc.Op != "lastchar" {
					continue
				}
				k, ok := constInt(t.A[1-i])
				set, not, ne := w.lastChars(lc.A[0])
				if !ok || !ne || k < 0 || k > 127 {
					continue
				}
				switch {
				case strings.IndexByte(not, byte(k)) >= 0, set != "" && strings.IndexByte(set, byte(k)) < 0:
					return No
				case len(set) == 1:
					return Yes
				}
			}
		}
		return Maybe
	}
	sc.cfgF = func(in *Interp, st *State, l *Term) (ListCfg, bool) {
		switch l.Op {
		case "found":
			return ListCfg{Focus: 1, Segs: 5, Exact: -1}, true
		case "groups":
			n, _ := constInt(l.A[1])
			return ListCfg{Exact: n}, true
		}
		return ListCfg{}, false
	}
	sc.resolveF = func(in *Interp, st *State, t *Term) Val {
		// a match is the list of its groups
		if t.Op == "elem" && len(t.A) == 2 {
			if l, ok := t.A[0].(*Term); ok && l.Op == "found" {
				n, _ := constInt(l.A[3])
				return rawTerm("groups", t.T, t.A[1], intV(n), l)
			}
		}
		return nil
	}
	sc.fn = func(in *Interp, st *State, f *ssa.Function, n string, a []Val) ([]Outcome, bool) {
		pos := func(b Val, r Tri) ([]Outcome, bool) {
			switch r {
			case Yes:
				return retv(st, in.strLen(st, b)), true
			case No:
				return retv(st, intV(-1)), true
			}
			return nil, false
		}
		switch n {
		case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
			if ch, ok := w.char(a[1]); ok {
				if r := w.contains(a[0], ch); r != Maybe {
					return retv(st, boolV(r == Yes)), true
				}
			}
		case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny":
			if ch, ok := w.char(a[1]); ok {
				b, _, r := w.find(a[0], ch, false)
				return pos(b, r)
			}
		case "strings.LastIndex", "strings.LastIndexByte", "strings.LastIndexAny":
			if ch, ok := w.char(a[1]); ok {
				b, _, r := w.find(a[0], ch, true)
				return pos(b, r)
			}
		case "strings.HasSuffix":
			if ch, ok := w.char(a[1]); ok {
				if r := w.endsWith(a[0], ch); r != Maybe {
					return retv(st, boolV(r == Yes)), true
				}
			}
		case "strings.TrimSuffix", "strings.CutSuffix", "strings.TrimRight":
			ch, ok := w.char(a[1])
			if !ok {
				break
			}
			cur, cut := a[0], false
			for {
				r := w.endsWith(cur, ch)
				if r == Maybe {
					return nil, false
				}
				if r == No || cut && n != "strings.TrimRight" {
					break
				}
				ps := append([]Val(nil), parts(cur)...)
				s, _ := constStr(ps[len(ps)-1])
				if s == "" {
					return nil, false // the last character of a segment
				}
				ps[len(ps)-1] = strV(s[:len(s)-1])
				cur, cut = catOf(ps), true
			}
			if n == "strings.CutSuffix" {
				return retv(st, &Tuple{[]Val{cur, boolV(cut)}}), true
			}
			return retv(st, cur), true
		case "strings.Cut":
			if ch, ok := w.char(a[1]); ok {
				b, x, r := w.find(a[0], ch, false)
				switch r {
				case Yes:
					return retv(st, &Tuple{[]Val{b, x, boolV(true)}}), true
				case No:
					return retv(st, &Tuple{[]Val{a[0], strV(""), boolV(false)}}), true
				}
			}
		case "strings.SplitN", "strings.Split", "strings.SplitAfterN":
			ch, ok := w.char(a[1])
			max := -1
			if n != "strings.Split" {
				m, ok2 := constInt(a[2])
				ok = ok && ok2 && m != 0
				max = m
			}
			if !ok {
				break
			}
			var out []Val
			rest := a[0]
			for max < 0 || len(out) < max-1 {
				b, x, r := w.find(rest, ch, false)
				if r == Maybe {
					return nil, false
				}
				if r == No {
					break
				}
				if n == "strings.SplitAfterN" {
					b = catOf([]Val{b, strV(string(ch))})
				}
				out = append(out, b)
				rest = x
			}
			return retv(st, in.newList(st, strType, append(out, rest)...)), true
		}
		switch n {
		case "(*regexp.Regexp).FindAllStringSubmatch", "(*regexp.Regexp).FindStringSubmatch":
			re, ok := regexOf(a[0])
			if !ok {
				in.fail("regular expression %s is not a constant", short(a[0]))
			}
			p, err := syntax.Parse(re, syntax.Perl)
			if err != nil {
				in.fail("regular expression: %v", err)
			}
			groups := p.MaxCap() + 1
			if n != "(*regexp.Regexp).FindAllStringSubmatch" {
				return retv(st, rawTerm("groups", f.Signature.Results().At(0).Type(), a[1], intV(groups), rawTerm("once", nil, strV(re)))), true
			}
			k, ok := constInt(a[2])
			if !ok {
				in.fail("the number of matches is not a constant")
			}
			l := rawTerm("found", f.Signature.Results().At(0).Type(), strV(re), a[1], intV(k), intV(groups))
			w.found[l.key] = l
			return retv(st, l), true
		case "(*regexp.Regexp).SubexpIndex":
			if re, ok := regexOf(a[0]); ok {
				if g, ok := constStr(a[1]); ok {
					if p, err := syntax.Parse(re, syntax.Perl); err == nil {
						for i, n := range p.CapNames() {
							if n == g && g != "" {
								return retv(st, intV(i)), true
							}
						}
						return retv(st, intV(-1)), true
					}
				}
			}
		case "(*regexp.Regexp).NumSubexp":
			if re, ok := regexOf(a[0]); ok {
				if p, err := syntax.Parse(re, syntax.Perl); err == nil {
					return retv(st, intV(p.MaxCap())), true
				}
			}
		}
		return nil, false
	}
	return sc
}

func (w *aworld) endsWith(v Val, ch byte) Tri {
	if s, ok := constStr(v); ok {
		return triOf(s != "" && s[len(s)-1] == ch)
	}
	set, not, ne := w.lastChars(v)
	switch {
	case len(set) == 1 && ne && set[0] == ch:
		return Yes
	case strings.IndexByte(not, ch) >= 0, ne && set != "" && strings.IndexByte(set, ch) < 0:
		return No
	}
	// a segment that may be empty and does not contain it
	ps := parts(v)
	g, ok := w.segs[key(ps[len(ps)-1])]
	if ok && strings.IndexByte(g.not, ch) >= 0 {
		if g.ne {
			return No
		}
		if r := w.endsWith(catOf(ps[:len(ps)-1]), ch); r == No {
			return No
		}
	}
	return Maybe
}

// regexOf is the pattern of a compiled expression.
func regexOf(v Val) (string, bool) {
	t, ok := v.(*Term)
	if !ok || len(t.A) != 1 {
		return "", false
	}
	switch t.Op {
	case "call:regexp.MustCompile.0", "call:regexp.MustCompile", "call:regexp.Compile.0":
		return constStr(t.A[0])
	}
	return "", false
}

func checkC24(c *vctx) {
	c.rep.rule("for an annotation of the grammar, whatever its attributes, the decoder returns on every path no error, the target, and in order each attribute with the name and value the grammar assigns to it (what the regular expression finds is decided for every attribute list by a product of its program with the automaton of the rule); for every other text no path panics; the schema holds the annotation as written")
	fn := c.p.fn("utils", "ParseAnnotation")
	if fn == nil {
		c.rep.undecided("no function utils.ParseAnnotation")
		return
	}
	c.job(func() {
		w := &aworld{c: c, name: "an annotation with attributes", segs: map[string]aseg{}, found: map[string]*Term{}}
		m, err := annotationNFA()
		if err != nil {
			c.rep.undecided("%v", err)
			return
		}
		tgt := w.seg("target", m.about("target"))
		al := w.seg("attributes", m.about("attributes"))
		w.text = []Val{tgt, strV("("), al, strV(")")}
		c.decode(w, fn, m, tgt, al)
	})
	// every other text: by the place of its parentheses
	type shape struct{ name, form string }
	for _, s := range []shape{
		{"no parenthesis", "X"}, {"opening parentheses only", "X(O"}, {"closing parentheses only", "C)X"},
		{"( before )", "A(B)D"}, {") before (", "E)X(D"},
	} {
		segs := []int{}
		for i, ch := range s.form {
			if ch != '(' && ch != ')' {
				segs = append(segs, i)
			}
		}
		for mask := 0; mask < 1<<len(segs); mask++ {
			s, mask := s, mask
			c.job(func() {
				w := &aworld{c: c, segs: map[string]aseg{}, found: map[string]*Term{}}
				k := 0
				desc := ""
				for _, ch := range s.form {
					if ch == '(' || ch == ')' {
						w.text = append(w.text, strV(string(ch)))
						desc += string(ch)
						continue
					}
					g := aseg{ne: mask&(1<<k) != 0}
					k++
					if !g.ne {
						continue
					}
					desc += "..."
					switch ch {
					case 'X':
						g.not = "()"
					case 'O', 'D':
						g.not = ")"
					case 'C', 'A':
						g.not = "("
					}
					if s.form == "E)X(D" && (ch == 'E' || ch == 'D') {
						// before the last ) and before the first (
						g.not = map[rune]string{'E': "(", 'D': ")"}[ch]
					}
					g.notL = g.not
					w.text = append(w.text, w.seg(string(ch), g))
				}
				w.name = fmt.Sprintf("any text with %s: %q", s.name, desc)
				c.decode(w, fn, nil, nil, nil)
			})
		}
	}
	c.flush()
	c.rep.minimum("texts", 20)
	c.annotationText()
	c.flush()
}

func (c *vctx) decode(w *aworld, fn *ssa.Function, m *annotNFA, tgt, al *Term) {
	const rule = "annotation-decoded"
	con := w.name + ": utils.ParseAnnotation"
	in := c.base.fresh(w.scenario())
	in.maxSteps = 100000
	st := in.start()
	outs := in.run(st, fn, []Val{catOf(w.text)}, nil)
	c.rep.absorb(w.name, in, outs)
	c.rep.add("texts", 1)
	if len(outs) == 0 {
		c.rep.undecided("%s: no outcome", w.name)
	}
	for u := range in.undecided {
		c.rep.undecided("%s: %s", w.name, u)
	}
	regs := map[string]map[int]string{}
	for _, v := range verdicts(in, outs) {
		c.rep.add("results_checked", 1)
		tr := trailOf(v)
		if v.o.Kind != oRet {
			c.rep.viol("annotation-never-panics", con, "the call "+okind(v.o), tr)
			continue
		}
		if m == nil {
			continue
		}
		if !v.nilErr {
			c.rep.viol(rule, con, "the annotation is refused: "+short(v.err), tr)
			continue
		}
		res := v.o.V.(*Tuple).V[0]
		msg, cond := "", v.o.St
		depth := len(cond.frames)
		for _, o := range in.tryCall(cond, func(s *State) (outs []Outcome) {
			defer func() {
				if x := recover(); x != nil {
					mm, ok := x.(*mismatch)
					if !ok {
						panic(x)
					}
					s.frames = s.frames[:depth]
					outs = []Outcome{{oRet, strV(mm.msg), s}}
				}
			}()
			c.annotation(w, reader{in, s}, res, m, tgt, al, regs)
			return []Outcome{{oRet, nil, s}}
		}) {
			if o.Kind != oRet {
				msg = "the result lacks a part: " + short(o.V)
			} else if x, ok := constStr(o.V); ok {
				msg = x
			}
			if msg != "" {
				c.rep.viol(rule, con, msg, o.St.trail.list(60))
			}
		}
	}
}

// annotation checks a decoded annotation.
func (c *vctx) annotation(w *aworld, r reader, res Val, m *annotNFA, tgt, al *Term, seen map[string]map[int]string) {
	r.same("the target", r.field(res, "Target"), tgt)
	l := r.field(res, "Attributes")
	if len(w.found) != 1 {
		r.bad("attributes are looked for in %d ways", len(w.found))
	}
	var list *Term
	for _, l := range w.found {
		list = l
	}
	re, _ := constStr(list.A[0])
	if k, _ := constInt(list.A[2]); k >= 0 {
		r.bad("at most %d attributes are looked for", k)
	}
	r.count("attributes", l, r.in.lenOf(r.st, list))
	// the list consists of what is found in the text given to the expression
	capsKey := re + "@" + key(list.A[1])
	caps, ok := seen[capsKey]
	if !ok {
		var err error
		caps, err = m.search(re, list.A[1], tgt, al, c)
		if err != nil {
			r.bad("regular expression %s: %v", re, err)
		}
		seen[capsKey] = caps
	}
	el := r.at(l, at(list))
	for _, f := range [][3]string{{"Name", "NS", "NE"}, {"Value", "VS", "VE"}} {
		v := r.in.renorm(r.st, r.field(el, f[0]))
		t, ok := v.(*Term)
		g := -1
		if ok && t.Op == "elem" {
			if gl, ok := t.A[0].(*Term); ok && gl.Op == "groups" && key(gl.A[2]) == list.key {
				if key(r.in.renorm(r.st, gl.A[0])) != key(at(list)) {
					r.bad("the %s of an attribute is taken from another one", strings.ToLower(f[0]))
				}
				if x, ok := r.in.exactOf(r.st, t.A[1]); ok {
					g = x
				}
			}
		}
		if g < 0 {
			r.bad("the %s of an attribute is %s, not what is found in the text", strings.ToLower(f[0]), short(v))
		}
		if got, want := caps[2*g]+" to "+caps[2*g+1], f[1]+" to "+f[2]; got != want {
			r.bad("group %d of %s is not the %s of the attribute: it spans %s", g, re, strings.ToLower(f[0]), got)
		}
	}
}

// ---- the annotation rule as an automaton over characters ----

type nedge struct {
	to   int
	mark string   // "" for none; only on edges without characters
	set  [][2]int // nil: no character
	neg  bool
}

type annotNFA struct {
	edges       [][]nedge
	start, stop int
}

func (m *annotNFA) node() int { m.edges = append(m.edges, nil); return len(m.edges) - 1 }

func (m *annotNFA) eps(a, b int, mark string) {
	m.edges[a] = append(m.edges[a], nedge{to: b, mark: mark})
}

func (m *annotNFA) chars(a, b int, set [][2]int, neg bool) {
	m.edges[a] = append(m.edges[a], nedge{to: b, set: set, neg: neg})
}

var annotMarks = map[string][2]string{
	"annotation_target_name": {"TS", "TE"}, "annotation_attr_list": {"LS", "LE"},
	"annotation_attr_name": {"NS", "NE"}, "annotation_attr_value": {"VS", "VE"},
}

// annotationNFA expands rule annotation_decl into the characters of its tokens.
func annotationNFA() (*annotNFA, error) {
	g, err := readInterp("KuneiformParser.interp")
	if err != nil {
		return nil, err
	}
	lx, err := newLexer()
	if err != nil {
		return nil, err
	}
	m := &annotNFA{}
	tokRule := map[string]int{}
	for i, r := range lx.f.atn.Rules {
		tokRule[lx.f.sym(r[1])] = i
	}
	var tok func(a, b int, sym string) error
	lexer := func(a, b, rule int) error { return m.expand(lx.f, rule, a, b, nil, map[int]bool{}) }
	tok = func(a, b int, sym string) error {
		i, ok := tokRule[sym]
		if !ok {
			return fmt.Errorf("no token %s", sym)
		}
		return lexer(a, b, i)
	}
	r := g.ruleIndex("annotation_decl")
	if r < 0 {
		return nil, fmt.Errorf("the grammar has no rule annotation_decl")
	}
	m.start, m.stop = m.node(), m.node()
	if err := m.expand(g, r, m.start, m.stop, tok, map[int]bool{}); err != nil {
		return nil, err
	}
	// the schema leaves out the @
	cur := m.close(map[int]string{m.start: ""})
	s := m.node()
	n := 0
	for q := range cur {
		for _, e := range m.edges[q] {
			if e.set != nil && in(e, '@') {
				n++
				m.eps(s, e.to, "")
				m.eps(s, e.to, "TS")
			}
		}
	}
	if n == 0 {
		return nil, fmt.Errorf("annotations do not start with @")
	}
	m.start = s
	return m, nil
}

// expand adds the automaton of a rule between nodes a and b.
func (m *annotNFA) expand(f *interpFile, rule, a, b int, tok func(a, b int, sym string) error, active map[int]bool) error {
	if active[rule] {
		return fmt.Errorf("rule %s is recursive", f.Rules[rule])
	}
	active[rule] = true
	defer delete(active, rule)
	ids := map[int]int{}
	var visit func(s int) (int, error)
	visit = func(s int) (int, error) {
		if id, ok := ids[s]; ok {
			return id, nil
		}
		id := m.node()
		ids[s] = id
		if f.atn.States[s].Type == 7 {
			m.eps(id, b, "")
			return id, nil
		}
		for _, e := range f.atn.out[s] {
			to, err := visit(e.Trg)
			if err != nil {
				return 0, err
			}
			switch e.Type {
			case eEPS, eACT:
				m.eps(id, to, "")
			case eRULE:
				x, y := m.node(), m.node()
				name := ""
				if tok != nil {
					name = f.Rules[e.A2]
				}
				mk := annotMarks[name]
				m.eps(id, x, mk[0])
				m.eps(y, to, mk[1])
				if err := m.expand(f, e.A2, x, y, tok, active); err != nil {
					return 0, err
				}
			case eATOM, eSET, eRANGE, eNSET, eWILD:
				if tok != nil {
					for _, t := range f.atn.edgeToks(e, f.atn.Max) {
						if err := tok(id, to, f.sym(t)); err != nil {
							return 0, err
						}
					}
					continue
				}
				switch e.Type {
				case eATOM:
					m.chars(id, to, [][2]int{{e.A1, e.A1}}, false)
				case eRANGE:
					m.chars(id, to, [][2]int{{e.A1, e.A2}}, false)
				case eSET, eNSET:
					m.chars(id, to, f.atn.Sets[e.A1], e.Type == eNSET)
				default:
					m.chars(id, to, [][2]int{{0, unicode.MaxRune}}, false)
				}
			default:
				return 0, fmt.Errorf("rule %s is not regular", f.Rules[rule])
			}
		}
		return id, nil
	}
	s, err := visit(f.atn.Rules[rule][0])
	if err != nil {
		return err
	}
	m.eps(a, s, "")
	return nil
}

func in(e nedge, ch int) bool {
	for _, iv := range e.set {
		if iv[0] <= ch && ch <= iv[1] {
			return !e.neg
		}
	}
	return e.neg
}

// close follows the edges without characters, collecting the marks on the way.
func (m *annotNFA) close(cur map[int]string) map[int]string {
	out := map[int]string{}
	var f func(q int, mk string)
	f = func(q int, mk string) {
		if o, ok := out[q]; ok {
			if o != mk && len(mk) <= len(o) {
				return
			}
			if o == mk {
				return
			}
		}
		out[q] = mk
		for _, e := range m.edges[q] {
			if e.set == nil {
				x := mk
				if e.mark != "" && !strings.Contains(x, e.mark) {
					x += e.mark + " "
				}
				f(e.to, x)
			}
		}
	}
	for q, mk := range cur {
		f(q, mk)
	}
	return out
}

// step reads a character: the nodes reached and the marks passed just before it.
func (m *annotNFA) step(cur map[int]bool, ch int) (next map[int]bool, marks string, err error) {
	c0 := map[int]string{}
	for q := range cur {
		c0[q] = ""
	}
	cl := m.close(c0)
	next = map[int]bool{}
	first := true
	for q, mk := range cl {
		for _, e := range m.edges[q] {
			if e.set == nil || !in(e, ch) {
				continue
			}
			next[e.to] = true
			if !first && mk != marks {
				return nil, "", fmt.Errorf("the grammar does not tell where a part of an annotation ends")
			}
			marks, first = mk, false
		}
	}
	return next, marks, nil
}

// end: whether the text may end here, and the marks passed.
func (m *annotNFA) end(cur map[int]bool) (string, bool) {
	c0 := map[int]string{}
	for q := range cur {
		c0[q] = ""
	}
	mk, ok := m.close(c0)[m.stop]
	return mk, ok
}

// reps are characters representative for all, given the expression.
func (m *annotNFA) reps(prog *syntax.Prog) []int {
	cut := map[int]bool{0: true, 128: true, 0xD800: true, 0xE000: true, '\n': true, '\n' + 1: true,
		'0': true, '9' + 1: true, 'A': true, 'Z' + 1: true, 'a': true, 'z' + 1: true, '_': true, '_' + 1: true}
	for _, es := range m.edges {
		for _, e := range es {
			for _, iv := range e.set {
				cut[iv[0]] = true
				cut[iv[1]+1] = true
			}
		}
	}
	if prog != nil {
		for _, i := range prog.Inst {
			for _, r := range i.Rune {
				cut[int(r)] = true
				cut[int(r)+1] = true
				for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
					cut[int(f)] = true
					cut[int(f)+1] = true
				}
			}
		}
	}
	var r []int
	for k := range cut {
		if k <= unicode.MaxRune && !(k >= 0xD800 && k < 0xE000) {
			r = append(r, k)
		}
	}
	sort.Ints(r)
	return r
}

func setKey(s map[int]bool) string {
	var k []int
	for q := range s {
		k = append(k, q)
	}
	sort.Ints(k)
	return fmt.Sprint(k)
}

// about collects what is known of the characters between two marks.
func (m *annotNFA) about(what string) aseg {
	from, to := "TS", "TE"
	if what == "attributes" {
		from, to = "LS", "LE"
	}
	type st struct {
		set    map[int]bool
		inside bool
		prev   int
	}
	seenCh, firsts, lasts := map[int]bool{}, map[int]bool{}, map[int]bool{}
	ne := true
	reps := m.reps(nil)
	seen := map[string]bool{}
	work := []st{{map[int]bool{m.start: true}, false, -1}}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for _, ch := range reps {
			next, mk, err := m.step(s.set, ch)
			if err != nil || len(next) == 0 {
				continue
			}
			inside := s.inside
			if strings.Contains(mk, to) && inside {
				lasts[s.prev] = true
				inside = false
			}
			if strings.Contains(mk, from) {
				inside = !strings.Contains(mk, to)
				ne = ne && inside
				if inside {
					firsts[ch] = true
				}
			}
			if inside {
				seenCh[ch] = true
			}
			k := fmt.Sprint(setKey(next), inside, ch)
			if !seen[k] {
				seen[k] = true
				work = append(work, st{next, inside, ch})
			}
		}
	}
	g := aseg{ne: ne}
	for _, ch := range "()=, \t\n'\"" {
		if !seenCh[int(ch)] {
			g.not += string(ch)
		}
	}
	byteSet := func(s map[int]bool) string {
		r := ""
		ks := []int{}
		for ch := range s {
			if ch >= 128 {
				return ""
			}
			ks = append(ks, ch)
		}
		sort.Ints(ks)
		for _, ch := range ks { // a representative stands for the characters up to the next one
			r += string(rune(ch))
			i := sort.SearchInts(reps, ch)
			for x := ch + 1; i+1 < len(reps) && x < reps[i+1]; x++ {
				r += string(rune(x))
			}
		}
		return r
	}
	g.first, g.last = byteSet(firsts), byteSet(lasts)
	g.solid = !strings.ContainsAny(g.first+g.last, " \t\r\n\v\f") && g.first != "" && g.last != ""
	return g
}

// ---- what the expression finds ----

type rthread struct {
	pc   int
	caps []string
}

type sstate struct {
	gram    map[int]bool
	prev    int // character before, -1 at the start
	k       int // names passed since the start of the search
	ths     []rthread
	match   []string
	started bool // a first character was read
	wit     string
	open    bool // the search starts at an attribute's end
}

func (s *sstate) id() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s|%s|%d|%v|%v|%v", setKey(s.gram), class1(s.prev), s.k, s.started, s.open, s.match)
	for _, t := range s.ths {
		fmt.Fprintf(&sb, "|%d%v", t.pc, t.caps)
	}
	return sb.String()
}

func class1(ch int) string {
	switch {
	case ch < 0:
		return "start"
	case ch == '\n':
		return "nl"
	case isWord(ch):
		return "word"
	}
	return "other"
}

func isWord(c int) bool {
	return c == '_' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

// search decides, for every attribute list, what successive matches of the
// expression are: from the start of the text and from the end of each
// attribute on, the next match is the next attribute, and none after the last. It
// returns which part of the attribute each end of a group is at.
func (m *annotNFA) search(re string, text Val, tgt, al *Term, c *vctx) (map[int]string, error) {
	p, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return nil, err
	}
	ncap := 2 * (p.MaxCap() + 1)
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	sub, err := m.cut(text, tgt, al)
	if err != nil {
		return nil, err
	}
	reps := sub.reps(prog)
	// places from which a search starts
	type place struct {
		gram map[int]bool
		prev int
	}
	var starts []sstate
	{
		seen := map[string]bool{}
		work := []place{{map[int]bool{sub.start: true}, -1}}
		starts = append(starts, sstate{gram: work[0].gram, prev: -1})
		for len(work) > 0 {
			s := work[len(work)-1]
			work = work[:len(work)-1]
			if mk, ok := sub.end(s.gram); ok && strings.Contains(mk, "VE") {
				starts = append(starts, sstate{gram: s.gram, prev: s.prev, open: true})
			}
			for _, ch := range reps {
				next, mk, err := sub.step(s.gram, ch)
				if err != nil {
					return nil, err
				}
				if len(next) == 0 {
					continue
				}
				if strings.Contains(mk, "VE") {
					starts = append(starts, sstate{gram: s.gram, prev: s.prev, open: true})
				}
				k := setKey(next) + class1(ch)
				if !seen[k] {
					seen[k] = true
					work = append(work, place{next, ch})
				}
			}
		}
	}
	var result map[int]string
	finish := func(s *sstate) error {
		if s.k == 0 {
			if s.match != nil {
				return fmt.Errorf("something that is no attribute is found in %q", s.wit)
			}
			return nil
		}
		if s.match == nil {
			return fmt.Errorf("an attribute of %q is not found", s.wit)
		}
		if s.match[1] != "VE" {
			return fmt.Errorf("the match in %q does not end with the attribute", s.wit)
		}
		if result == nil {
			result = map[int]string{}
			for i, v := range s.match {
				result[i] = v
			}
		}
		for i, v := range s.match {
			if result[i] != v {
				result[i] = "varying places"
			}
		}
		return nil
	}
	seen := map[string]bool{}
	var work []*sstate
	for i := range starts {
		s := starts[i]
		if id := s.id(); !seen[id] {
			seen[id] = true
			work = append(work, &s)
		}
	}
	n := 0
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		n++
		if n > 200000 {
			return nil, fmt.Errorf("too many states")
		}
		try := func(ch int, next map[int]bool, mk string) error {
			t := &sstate{gram: next, prev: ch, k: s.k, match: s.match, started: true, wit: s.wit}
			if ch >= 0 {
				t.wit += string(rune(ch))
			}
			if s.open {
				if !strings.Contains(mk, "VE") {
					return nil // not the end of an attribute
				}
				mk = strings.ReplaceAll(mk, "VE ", "")
			}
			if strings.Contains(mk, "NS ") && t.k < 2 {
				t.k++
			}
			here := "elsewhere"
			if t.k == 1 {
				for _, x := range []string{"NS", "NE", "VS", "VE"} {
					if strings.Contains(mk, x+" ") {
						here = x
					}
				}
			}
			// the threads at this place, in order of preference
			flags := syntax.EmptyOpContext(rune(s.prev), rune(ch))
			var cl []rthread
			on := map[int]bool{}
			var add func(pc int, caps []string)
			add = func(pc int, caps []string) {
				if on[pc] {
					return
				}
				on[pc] = true
				i := &prog.Inst[pc]
				switch i.Op {
				case syntax.InstAlt, syntax.InstAltMatch:
					add(int(i.Out), caps)
					add(int(i.Arg), caps)
				case syntax.InstEmptyWidth:
					if syntax.EmptyOp(i.Arg)&^flags == 0 {
						add(int(i.Out), caps)
					}
				case syntax.InstNop:
					add(int(i.Out), caps)
				case syntax.InstCapture:
					if int(i.Arg) < ncap {
						caps = append([]string(nil), caps...)
						caps[i.Arg] = here
					}
					add(int(i.Out), caps)
				case syntax.InstFail:
				default:
					cl = append(cl, rthread{pc, caps})
				}
			}
			for _, th := range s.ths {
				add(th.pc, th.caps)
			}
			if s.match == nil {
				caps := make([]string, ncap)
				caps[0] = here
				add(prog.Start, caps)
			}
			var nx []rthread
			for _, th := range cl {
				i := &prog.Inst[th.pc]
				if i.Op == syntax.InstMatch {
					caps := append([]string(nil), th.caps...)
					caps[1] = here
					t.match = caps
					break
				}
				if ch < 0 {
					continue
				}
				ok := false
				switch i.Op {
				case syntax.InstRune, syntax.InstRune1:
					ok = i.MatchRune(rune(ch))
				case syntax.InstRuneAny:
					ok = true
				case syntax.InstRuneAnyNotNL:
					ok = ch != '\n'
				}
				if ok {
					nx = append(nx, rthread{int(i.Out), th.caps})
				}
			}
			t.ths = nx
			if ch < 0 || t.match != nil && len(nx) == 0 {
				// an attribute follows unless the text ends without one
				if t.k == 0 && t.match != nil {
					return fmt.Errorf("something that is no attribute is found in %q", t.wit)
				}
				return finish(t)
			}
			if t.k >= 2 {
				return fmt.Errorf("an attribute of %q is not found by itself", t.wit)
			}
			if id := t.id(); !seen[id] {
				seen[id] = true
				work = append(work, t)
			}
			return nil
		}
		for _, ch := range reps {
			next, mk, err := sub.step(s.gram, ch)
			if err != nil {
				return nil, err
			}
			if len(next) == 0 {
				continue
			}
			if err := try(ch, next, mk); err != nil {
				return nil, err
			}
		}
		if mk, ok := sub.end(s.gram); ok {
			if err := try(-1, nil, mk); err != nil {
				return nil, err
			}
		}
	}
	c.rep.add("regexp_product_states", n)
	if result == nil {
		return nil, fmt.Errorf("no attribute is found")
	}
	return result, nil
}

// cut is the automaton of the text given to the expression: the attribute list or
// parts around it.
func (m *annotNFA) cut(text Val, tgt, al *Term) (*annotNFA, error) {
	r := &annotNFA{}
	r.start = r.node()
	cur := r.start
	for _, p := range parts(text) {
		nx := r.node()
		if s, ok := constStr(p); ok {
			for i := 0; i < len(s); i++ {
				to := nx
				if i < len(s)-1 {
					to = r.node()
				}
				r.chars(cur, to, [][2]int{{int(s[i]), int(s[i])}}, false)
				cur = to
			}
			continue
		}
		from, to := "LS", "LE"
		switch key(p) {
		case tgt.key:
			from, to = "TS", "TE"
		case al.key:
		default:
			return nil, fmt.Errorf("attributes are looked for in %s", short(text))
		}
		if from == "TS" && tgtSeen(parts(text), tgt) > 1 {
			return nil, fmt.Errorf("attributes are looked for in %s", short(text))
		}
		// a copy of the part between the marks
		base := len(r.edges)
		for range m.edges {
			r.node()
		}
		reach := map[int]bool{}
		var walk func(q int)
		walk = func(q int) {
			if reach[q] {
				return
			}
			reach[q] = true
			for _, e := range m.edges[q] {
				if e.set == nil && e.mark == to {
					r.eps(base+q, nx, "")
					continue
				}
				e2 := e
				e2.to += base
				if e2.mark == "TS" || e2.mark == "TE" || e2.mark == "LS" || e2.mark == "LE" {
					e2.mark = ""
				}
				r.edges[base+q] = append(r.edges[base+q], e2)
				walk(e.to)
			}
		}
		n := 0
		for _, es := range m.edges {
			for _, e := range es {
				if e.set == nil && e.mark == from {
					n++
					r.eps(cur, base+e.to, "")
					walk(e.to)
				}
			}
		}
		if n == 0 {
			return nil, fmt.Errorf("the grammar has no mark %s", from)
		}
		cur = nx
	}
	r.stop = cur
	return r, nil
}

func tgtSeen(ps []Val, t *Term) int {
	n := 0
	for _, p := range ps {
		if key(p) == t.key {
			n++
		}
	}
	return n
}

// annotationText: the schema holds annotations as written.
func (c *vctx) annotationText() {
	c.modeList = c.plainMode()
	c.modes(func(mode int, sfx string) { c.actionParts(mode, sfx, "annotations") })
}
