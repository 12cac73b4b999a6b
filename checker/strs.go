package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

var strType = types.Typ[types.String]

// parts flattens a string value.
func parts(v Val) []Val {
	if t, ok := v.(*Term); ok && t.Op == "cat" {
		return t.A
	}
	if s, ok := constStr(v); ok && s == "" {
		return nil
	}
	return []Val{v}
}

func catOf(ps []Val) Val {
	var out []Val
	for _, p := range ps {
		for _, q := range parts(p) {
			if s, ok := constStr(q); ok {
				if s == "" {
					continue
				}
				if n := len(out); n > 0 {
					if prev, ok := constStr(out[n-1]); ok {
						out[n-1] = strV(prev + s)
						continue
					}
				}
				out = append(out, strV(s))
				continue
			}
			if t, ok := q.(*Term); ok && t.Op == "any" && len(out) > 0 {
				if p, ok := out[len(out)-1].(*Term); ok && p.Op == "any" {
					continue
				}
			}
			out = append(out, q)
		}
	}
	switch len(out) {
	case 0:
		return strV("")
	case 1:
		return out[0]
	}
	return rawTerm("cat", strType, out...)
}

func (in *Interp) concat(st *State, a, b Val) Val {
	if _, ok := a.(*Top); ok {
		a = rawTerm("any", strType)
	}
	if _, ok := b.(*Top); ok {
		b = rawTerm("any", strType)
	}
	r := catOf([]Val{a, b})
	if t, ok := r.(*Term); ok && len(t.key) > 3000 {
		return &Top{strType}
	}
	return r
}

// first returns the possible first bytes of a string part ("" unknown) and
// whether it cannot be empty.
func (in *Interp) first(st *State, v Val) (string, bool) {
	ps := parts(v)
	if len(ps) == 0 {
		return "", false
	}
	if s, ok := constStr(ps[0]); ok {
		return s[:1], true
	}
	t, ok := ps[0].(*Term)
	if !ok {
		return "", false
	}
	set, ne := "", false
	if in.Sc.strFirst != nil {
		set, ne = in.Sc.strFirst(in, st, t)
	}
	if a, ok := st.atoms[eqEmptyKey(t)]; ok && !a.V {
		ne = true
	}
	if ne {
		if set == "" {
			return "", true
		}
		return in.charSet(st, t, set), true
	}
	for _, p := range ps[1:] {
		if s, ok := constStr(p); ok && s != "" {
			return "", true
		}
		if pt, ok := p.(*Term); ok && in.Sc.strFirst != nil {
			if _, n := in.Sc.strFirst(in, st, pt); n {
				return "", true
			}
		}
	}
	return "", false
}

func eqEmptyKey(t *Term) string {
	a, b := Val(t), strV("")
	if key(a) > key(b) {
		a, b = b, a
	}
	return rawTerm("eq", types.Typ[types.Bool], a, b).key
}

// charSet narrows set by the recorded comparisons of t's first byte.
func (in *Interp) charSet(st *State, t *Term, set string) string {
	c0 := "char0(" + t.key + ")"
	for _, a := range st.atoms {
		if !strings.HasPrefix(a.T.Op, "ch") || a.T.Op == "char0" || key(a.T.A[0]) != c0 {
			continue
		}
		k, _ := constInt(a.T.A[1])
		var sb strings.Builder
		for i := 0; i < len(set); i++ {
			if cmpByte(a.T.Op[2:], int(set[i]), k) == a.V {
				sb.WriteByte(set[i])
			}
		}
		set = sb.String()
	}
	return set
}

func cmpByte(op string, a, b int) bool {
	switch op {
	case "<":
		return a < b
	case "<=":
		return a <= b
	case ">":
		return a > b
	case ">=":
		return a >= b
	case "==":
		return a == b
	}
	return a != b
}

// charCmp compares a byte/rune term with another value.
func (in *Interp) charCmp(st *State, op token.Token, t *Term, b Val) bool {
	if k, ok := constInt(b); ok && t.Op == "char0" {
		s := t.A[0].(*Term)
		set := ""
		if in.Sc.strFirst != nil {
			set, _ = in.Sc.strFirst(in, st, s)
		}
		if set != "" {
			set = in.charSet(st, s, set)
			if set == "" {
				panic(&infeasible{})
			}
			yes, no := false, false
			for i := 0; i < len(set); i++ {
				if cmpByte(op.String(), int(set[i]), k) {
					yes = true
				} else {
					no = true
				}
			}
			if yes != no {
				return yes
			}
		}
		return in.decide(st, rawTerm("ch"+op.String(), types.Typ[types.Bool], t, b))
	}
	if op == token.EQL {
		a := Val(t)
		if key(a) > key(b) {
			a, b = b, a
		}
		return in.decide(st, rawTerm("eq", types.Typ[types.Bool], a, b))
	}
	return in.decide(st, rawTerm("cmp"+op.String(), types.Typ[types.Bool], t, b))
}

func (in *Interp) strLen(st *State, v Val) Val {
	n := 0
	var ts []Val
	for _, p := range parts(v) {
		if s, ok := constStr(p); ok {
			n += len(s)
		} else if _, ok := p.(*Term); ok {
			ts = append(ts, p)
		} else {
			return &Top{types.Typ[types.Int]}
		}
	}
	if len(ts) == 0 {
		return intV(n)
	}
	return &Int{B: rawTerm("strlen", types.Typ[types.Int], catOf(ts)), Off: n}
}

func (in *Interp) strIndex(st *State, x, idx Val) Val {
	bt := types.Typ[types.Byte]
	if s, ok := constStr(x); ok {
		if i, ok := in.exactOf(st, idx); ok {
			if i < 0 || i >= len(s) {
				in.raise("index out of range")
			}
			return &Const{constant.MakeInt64(int64(s[i])), bt}
		}
	}
	if _, ok := x.(*Top); ok {
		return &Top{bt}
	}
	ps := parts(x)
	if i, ok := in.exactOf(st, idx); ok {
		if i < 0 {
			in.raise("index out of range")
		}
		for k, p := range ps {
			if s, ok := constStr(p); ok {
				if i < len(s) {
					return &Const{constant.MakeInt64(int64(s[i])), bt}
				}
				i -= len(s)
				continue
			}
			t, ok := p.(*Term)
			if !ok {
				break
			}
			if i == 0 {
				set, ne := in.first(st, catOf(ps[k:]))
				if !ne {
					if in.strEq(st, catOf(ps[k:]), strV("")) {
						in.raise("index out of range")
					}
					set, _ = in.first(st, catOf(ps[k:]))
				}
				if len(set) == 1 {
					return &Const{constant.MakeInt64(int64(set[0])), bt}
				}
				return rawTerm("char0", bt, t)
			}
			break
		}
	}
	if i, ok := idx.(*Int); ok && in.isLastIdx(st, x, i) {
		if s, ok := constStr(ps[len(ps)-1]); ok {
			return &Const{constant.MakeInt64(int64(s[len(s)-1])), bt}
		}
		in.inBounds(st, x, idx)
		return rawTerm("lastchar", bt, x)
	}
	in.inBounds(st, x, idx)
	return rawTerm("char", bt, x, idx)
}

func (in *Interp) isLastIdx(st *State, x Val, i *Int) bool {
	l, ok := in.strLen(st, x).(*Int)
	return ok && i.B != nil && l.B != nil && i.B.key == l.B.key && i.Off == l.Off-1
}

func (in *Interp) inBounds(st *State, x, idx Val) {
	l := in.strLen(st, x)
	if _, ok := idx.(*Top); ok {
		if st.choose(2, "index out of range") == 1 {
			in.raise("index out of range")
		}
		return
	}
	if in.compare(st, token.LSS, idx, intV(0)) {
		in.raise("index out of range")
	}
	if !in.compare(st, token.LSS, idx, l) {
		in.raise("index out of range")
	}
}

func (in *Interp) substr(st *State, x, lo, hi Val) Val {
	if _, ok := x.(*Top); ok {
		return &Top{strType}
	}
	if lo == nil {
		lo = intV(0)
	}
	l := in.strLen(st, x)
	if hi == nil {
		hi = l
	}
	if s, ok := constStr(x); ok {
		a, ok1 := in.exactOf(st, lo)
		b, ok2 := in.exactOf(st, hi)
		if ok1 && ok2 {
			if a < 0 || b > len(s) || a > b {
				in.raise("slice bounds")
			}
			return strV(s[a:b])
		}
	}
	whole := sameInt(hi, l)
	a, aok := constInt(lo)
	if whole && aok {
		if a == 0 {
			return x
		}
		ps := parts(x)
		for i, p := range ps {
			if s, ok := constStr(p); ok {
				if a <= len(s) {
					return catOf(append([]Val{strV(s[a:])}, ps[i+1:]...))
				}
				a -= len(s)
				continue
			}
			if i > 0 {
				x = catOf(ps[i:])
				lo = intV(a)
				l = in.strLen(st, x)
				hi = l
			}
			break
		}
		if _, ne := in.first(st, x); !(ne && a == 1) {
			if in.compare(st, token.LSS, l, lo) {
				in.raise("slice bounds")
			}
		}
		return in.term(st, "substr", strType, x, lo, rawTerm("end", nil))
	}
	if h, ok := in.exactOf(st, hi); ok && aok && a == 0 {
		// prefix
		ps := parts(x)
		if len(ps) > 0 {
			if s, ok := constStr(ps[0]); ok && h <= len(s) {
				return strV(s[:h])
			}
		}
	}
	// trailing constant removed
	if i, ok := hi.(*Int); ok && aok && a == 0 {
		if li, ok := l.(*Int); ok && i.B != nil && li.B != nil && i.B.key == li.B.key && i.Off < li.Off {
			ps := parts(x)
			if s, ok := constStr(ps[len(ps)-1]); ok && li.Off-i.Off <= len(s) {
				q := append([]Val(nil), ps[:len(ps)-1]...)
				q = append(q, strV(s[:len(s)-(li.Off-i.Off)]))
				return catOf(q)
			}
		}
	}
	if head, _, ok := in.splitAt(st, x, hi); ok && len(parts(x)) > 1 {
		if _, tail, ok := in.splitAt(st, head, lo); ok {
			return tail
		}
	}
	for _, v := range []Val{lo, hi} {
		if _, ok := v.(*Top); ok {
			if st.choose(2, "slice bounds") == 1 {
				in.raise("slice bounds")
			}
			return &Top{strType}
		}
	}
	if in.Sc.sliceBounds == nil || !in.Sc.sliceBounds(in, st, x, lo, hi) {
		if in.compare(st, token.LSS, lo, intV(0)) || in.compare(st, token.LSS, hi, lo) || in.compare(st, token.LSS, l, hi) {
			in.raise("slice bounds")
		}
	}
	if whole {
		hi = rawTerm("end", nil)
	}
	return in.term(st, "substr", strType, x, lo, hi)
}

func (in *Interp) strEq(st *State, a, b Val) bool {
	pa := append([]Val(nil), parts(a)...)
	pb := append([]Val(nil), parts(b)...)
	for len(pa) > 0 && len(pb) > 0 {
		sa, oka := constStr(pa[0])
		sb, okb := constStr(pb[0])
		if oka && okb {
			n := len(sa)
			if len(sb) < n {
				n = len(sb)
			}
			if sa[:n] != sb[:n] {
				return false
			}
			pa, pb = trimL(pa, n), trimL(pb, n)
			continue
		}
		if !oka && !okb && key(pa[0]) == key(pb[0]) && !isAny(pa[0]) {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		la, lb := pa[len(pa)-1], pb[len(pb)-1]
		sa, oka := constStr(la)
		sb, okb := constStr(lb)
		if oka && okb {
			n := len(sa)
			if len(sb) < n {
				n = len(sb)
			}
			if sa[len(sa)-n:] != sb[len(sb)-n:] {
				return false
			}
			pa, pb = trimR(pa, n), trimR(pb, n)
			continue
		}
		if !oka && !okb && key(la) == key(lb) && !isAny(la) {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			continue
		}
		break
	}
	if len(pa) == 0 && len(pb) == 0 {
		return true
	}
	x, y := catOf(pa), catOf(pb)
	fx, nx := in.first(st, x)
	fy, ny := in.first(st, y)
	if len(pa) == 0 && ny || len(pb) == 0 && nx {
		return false
	}
	if nx && ny && fx != "" && fy != "" && !overlap(fx, fy) {
		return false
	}
	if key(x) > key(y) {
		x, y = y, x
	}
	return in.decide(st, rawTerm("eq", types.Typ[types.Bool], x, y))
}

func isAny(v Val) bool {
	t, ok := v.(*Term)
	return ok && t.Op == "any"
}

func overlap(a, b string) bool { return strings.ContainsAny(a, b) }

func trimL(ps []Val, n int) []Val {
	s, _ := constStr(ps[0])
	if n == len(s) {
		return ps[1:]
	}
	return append([]Val{strV(s[n:])}, ps[1:]...)
}

func trimR(ps []Val, n int) []Val {
	s, _ := constStr(ps[len(ps)-1])
	if n == len(s) {
		return ps[:len(ps)-1]
	}
	r := append([]Val(nil), ps[:len(ps)-1]...)
	return append(r, strV(s[:len(s)-n]))
}

// hasPrefix decides strings.HasPrefix(a, p) for constant p.
func (in *Interp) hasPrefix(st *State, a Val, p string) bool {
	if p == "" {
		return true
	}
	if s, ok := constStr(a); ok {
		return strings.HasPrefix(s, p)
	}
	if _, ok := a.(*Top); ok {
		st.sticky = true
		return st.choose(2, "prefix of unknown string") == 0
	}
	ps := parts(a)
	if s, ok := constStr(ps[0]); ok {
		if len(s) >= len(p) {
			return strings.HasPrefix(s, p)
		}
		if !strings.HasPrefix(p, s) {
			return false
		}
		return in.hasPrefix(st, catOf(ps[1:]), p[len(s):])
	}
	if f, ne := in.first(st, a); ne && f != "" && !strings.Contains(f, p[:1]) {
		return false
	} else if ne && f == p && len(p) == 1 {
		return true
	}
	return in.decide(st, rawTerm("hasprefix", types.Typ[types.Bool], a, strV(p)))
}

func (in *Interp) hasSuffix(st *State, a Val, p string) bool {
	if p == "" {
		return true
	}
	if s, ok := constStr(a); ok {
		return strings.HasSuffix(s, p)
	}
	if _, ok := a.(*Top); ok {
		st.sticky = true
		return st.choose(2, "suffix of unknown string") == 0
	}
	ps := parts(a)
	if s, ok := constStr(ps[len(ps)-1]); ok && len(s) >= len(p) {
		return strings.HasSuffix(s, p)
	}
	return in.decide(st, rawTerm("hassuffix", types.Typ[types.Bool], a, strV(p)))
}

func (in *Interp) trimPrefix(st *State, a Val, p string) Val {
	if !in.hasPrefix(st, a, p) {
		return a
	}
	if s, ok := constStr(a); ok {
		return strV(s[len(p):])
	}
	ps := parts(a)
	if s, ok := constStr(ps[0]); ok && len(s) >= len(p) {
		return catOf(append([]Val{strV(s[len(p):])}, ps[1:]...))
	}
	return in.term(st, "substr", strType, a, intV(len(p)), rawTerm("end", nil))
}

// lenDiff is a lower bound of b-a for lengths of texts, if a's text is part of b's.
func (in *Interp) lenDiff(st *State, a, b *Int) (int, bool) {
	if a.B == nil || b.B == nil || a.B.Op != "strlen" || b.B.Op != "strlen" {
		return 0, false
	}
	left := map[string]int{}
	for _, p := range parts(b.B.A[0]) {
		left[key(p)]++
	}
	for _, p := range parts(a.B.A[0]) {
		if left[key(p)]--; left[key(p)] < 0 || isAny(p) {
			return 0, false
		}
	}
	d := b.Off - a.Off
	for _, p := range parts(b.B.A[0]) {
		if left[key(p)] > 0 {
			left[key(p)]--
			if _, ne := in.first(st, p); ne {
				d++
			}
		}
	}
	return d, true
}

// splitAt cuts a text where the given position is known to be.
func (in *Interp) splitAt(st *State, x, pos Val) (l, r Val, ok bool) {
	ps := parts(x)
	want := key(pos)
	at := func(i int, pre string) Val {
		return in.strLen(st, catOf(append(append([]Val(nil), ps[:i]...), strV(pre))))
	}
	for i := 0; i <= len(ps); i++ {
		if key(at(i, "")) == want {
			return catOf(ps[:i]), catOf(ps[i:]), true
		}
		if i == len(ps) {
			break
		}
		if s, ok := constStr(ps[i]); ok {
			for k := 1; k < len(s); k++ {
				if key(at(i, s[:k])) == want {
					return catOf(append(append([]Val(nil), ps[:i]...), strV(s[:k]))), catOf(append([]Val{strV(s[k:])}, ps[i+1:]...)), true
				}
			}
		}
	}
	return nil, nil, false
}

var _ = fmt.Sprint
