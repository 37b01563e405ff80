package main

// Linear forms over named atoms, the numeric part of the abstract domain.
// An atom is a string; atoms that denote the element of an array at some
// position carry that structure in atomTab so that they can be rebased.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type term struct {
	a int32 // interned atom
	c int64
}

type Lin struct {
	c int64
	t []term // sorted by atom
	h uint64 // hash of the terms
	k string // canonical key, lazily built
}

type atomInfo struct {
	kind string // "ld" element of arr at idx; "fn" uninterpreted f(args)
	arr  ObjID
	idx  *Lin
	fn   string
	args []*Lin
	of   Val // argsort: the values in the order of the numbers
}

var atomTab = map[string]*atomInfo{}

var atomIDs = map[string]int32{}
var atomNames []string
var atomHash []uint64

func atomID(a string) int32 {
	if i, ok := atomIDs[a]; ok {
		return i
	}
	i := int32(len(atomNames))
	atomIDs[a] = i
	atomNames = append(atomNames, a)
	h := uint64(i+1) * 0x9e3779b97f4a7c15
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	atomHash = append(atomHash, h|1)
	return i
}

func linC(c int64) *Lin { return &Lin{c: c} }
func linA(a string) *Lin {
	i := atomID(a)
	return &Lin{t: []term{{i, 1}}, h: atomHash[i]}
}

func (l *Lin) isConst() bool { return l != nil && len(l.t) == 0 }

// coef is the coefficient of an atom
func (l *Lin) coef(a string) int64 {
	i, ok := atomIDs[a]
	if !ok {
		return 0
	}
	for _, t := range l.t {
		if t.a == i {
			return t.c
		}
	}
	return 0
}

func (l *Lin) atoms() []string {
	r := make([]string, 0, len(l.t))
	for _, t := range l.t {
		r = append(r, atomNames[t.a])
	}
	if len(r) > 1 {
		sort.Strings(r)
	}
	return r
}

func (l *Lin) key() string {
	if l == nil {
		return "?"
	}
	if l.k != "" {
		return l.k
	}
	var sb []byte
	for _, a := range l.atoms() {
		if c := l.coef(a); c == 1 {
			sb = append(sb, '+')
		} else {
			if c >= 0 {
				sb = append(sb, '+')
			}
			sb = strconv.AppendInt(sb, c, 10)
			sb = append(sb, '*')
		}
		sb = append(sb, a...)
	}
	if l.c != 0 || len(l.t) == 0 {
		if l.c >= 0 {
			sb = append(sb, '+')
		}
		sb = strconv.AppendInt(sb, l.c, 10)
	}
	l.k = string(sb)
	return l.k
}

func (l *Lin) String() string { return l.key() }

// linAddMax is a+sb*b, nil if it has more than max terms
func linAddMax(a, b *Lin, sb int64, max int) *Lin {
	r := &Lin{c: a.c + sb*b.c, h: a.h + uint64(sb)*b.h}
	if len(b.t) == 0 {
		r.t = a.t
		return r
	}
	if len(a.t) == 0 && sb == 1 {
		r.t = b.t
		return r
	}
	n, i, j := 0, 0, 0
	for i < len(a.t) && j < len(b.t) {
		switch {
		case a.t[i].a < b.t[j].a:
			n++
			i++
		case a.t[i].a > b.t[j].a:
			n++
			j++
		default:
			if a.t[i].c+sb*b.t[j].c != 0 {
				n++
			}
			i++
			j++
		}
	}
	n += len(a.t) - i + len(b.t) - j
	if n > max {
		return nil
	}
	if n == 0 {
		return r
	}
	t := make([]term, 0, n)
	i, j = 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j == len(b.t) || i < len(a.t) && a.t[i].a < b.t[j].a:
			t = append(t, a.t[i])
			i++
		case i == len(a.t) || a.t[i].a > b.t[j].a:
			t = append(t, term{b.t[j].a, sb * b.t[j].c})
			j++
		default:
			if c := a.t[i].c + sb*b.t[j].c; c != 0 {
				t = append(t, term{a.t[i].a, c})
			}
			i++
			j++
		}
	}
	r.t = t
	return r
}

func linAdd(a, b *Lin, sb int64) *Lin {
	if a == nil || b == nil {
		return nil
	}
	return linAddMax(a, b, sb, 8)
}

func linMulC(a *Lin, c int64) *Lin {
	if a == nil {
		return nil
	}
	if c == 0 {
		return linC(0)
	}
	r := &Lin{c: a.c * c, h: a.h * uint64(c)}
	if len(a.t) > 0 {
		r.t = make([]term, len(a.t))
		for i, t := range a.t {
			r.t[i] = term{t.a, t.c * c}
		}
	}
	return r
}

// linSame reports whether the forms are identical
func linSame(a, b *Lin) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.c != b.c || a.h != b.h || len(a.t) != len(b.t) {
		return false
	}
	for i, t := range a.t {
		if t != b.t[i] {
			return false
		}
	}
	return true
}

func linEq(a, b *Lin) bool {
	return a != nil && b != nil && linSame(a, b)
}

// base returns the sign-normalised form without its constant, its hash and
// the sign that was applied: l = sign*base + c
func (l *Lin) base() (uint64, int64, *Lin) {
	sign := int64(1)
	b := &Lin{t: l.t, h: l.h}
	if len(l.t) > 0 && l.t[0].c < 0 {
		sign = -1
		b = linMulC(b, -1)
	}
	return b.h, sign, b
}

func (l *Lin) baseHash() (uint64, int64) {
	if len(l.t) > 0 && l.t[0].c < 0 {
		return -l.h, -1
	}
	return l.h, 1
}

func ldAtom(arr ObjID, idx *Lin) string {
	a := fmt.Sprintf("ld(%s,%s)", objName(arr), idx.key())
	if len(a) > 400 {
		return ""
	}
	if _, ok := atomTab[a]; !ok {
		atomTab[a] = &atomInfo{kind: "ld", arr: arr, idx: idx}
	}
	return a
}

func fnAtom(fn string, args ...*Lin) string {
	var sb strings.Builder
	sb.WriteString(fn + "(")
	for i, x := range args {
		if x == nil {
			return ""
		}
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(x.key())
	}
	sb.WriteByte(')')
	a := sb.String()
	if len(a) > 400 {
		return ""
	}
	if _, ok := atomTab[a]; !ok {
		atomTab[a] = &atomInfo{kind: "fn", fn: fn, args: args}
	}
	return a
}

// substitution of atoms by linear forms, also inside the arguments of atoms
func (l *Lin) subst(f func(atom string) *Lin) *Lin {
	if l == nil {
		return nil
	}
	r := linC(l.c)
	for _, a := range l.atoms() {
		v := substAtom(a, f)
		if v == nil {
			return nil
		}
		r = linAdd(r, v, l.coef(a))
	}
	return r
}

func substAtom(a string, f func(atom string) *Lin) *Lin {
	if v := f(a); v != nil {
		return v
	}
	info := atomTab[a]
	if info == nil {
		return linA(a)
	}
	switch info.kind {
	case "ld":
		i := info.idx.subst(f)
		if i == nil {
			return nil
		}
		x := ldAtom(info.arr, i)
		if x == "" {
			return nil
		}
		return linA(x)
	case "fn":
		args := make([]*Lin, len(info.args))
		for i, x := range info.args {
			args[i] = x.subst(f)
			if args[i] == nil {
				return nil
			}
		}
		x := fnAtom(info.fn, args...)
		if x == "" {
			return nil
		}
		if i := atomTab[x]; i.of == nil {
			i.of = info.of
		}
		return linA(x)
	}
	return linA(a)
}

// mentions reports whether the atom occurs anywhere in the form.
func (l *Lin) mentions(p func(atom string) bool) bool {
	if l == nil {
		return false
	}
	for _, t := range l.t {
		if atomMentions(atomNames[t.a], p) {
			return true
		}
	}
	return false
}

func atomMentions(a string, p func(string) bool) bool {
	if p(a) {
		return true
	}
	info := atomTab[a]
	if info == nil {
		return false
	}
	if info.kind == "ld" {
		return info.idx.mentions(p)
	}
	for _, x := range info.args {
		if x.mentions(p) {
			return true
		}
	}
	return false
}

const piAtom = "π"

// Interval of int64 with infinities.
type Itv struct{ lo, hi int64 }

const inf = int64(1) << 60

func itvTop() Itv { return Itv{-inf, inf} }
func clampInf(x int64) int64 {
	if x < -inf {
		return -inf
	}
	if x > inf {
		return inf
	}
	return x
}
