package main

// Abstract values. All of them are immutable.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Tri int8

const (
	No Tri = iota
	Yes
	Maybe
)

func (t Tri) String() string { return [...]string{"no", "yes", "maybe"}[t] }

func triJoin(a, b Tri) Tri {
	if a == b {
		return a
	}
	return Maybe
}

func triOf(b bool) Tri {
	if b {
		return Yes
	}
	return No
}

func triNot(a Tri) Tri {
	switch a {
	case Yes:
		return No
	case No:
		return Yes
	}
	return Maybe
}

// Val is the interface of abstract values.
// key identifies the value, disc only its discrete part (used to decide which
// states are worth keeping apart).
type Val interface {
	key() string
	disc() string
}

type Deps []ObjID // arrays from which the value was directly loaded

func depsJoin(a, b Deps) Deps {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	m := map[ObjID]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	r := make(Deps, 0, len(m))
	for x := range m {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (d Deps) has(o ObjID) bool {
	for _, x := range d {
		if x == o {
			return true
		}
	}
	return false
}

func (d Deps) key() string {
	if len(d) == 0 {
		return ""
	}
	return fmt.Sprint([]ObjID(d))
}

// Unk: anything.
type Unk struct{ D Deps }

func (v Unk) key() string  { return "U" + v.D.key() }
func (v Unk) disc() string { return "U" }

// Num: an int. L is its symbolic value if known; R an exclusive upper bound of
// the range it sweeps, if L is not enough to tell.
type Num struct {
	L *Lin
	R *Lin
	D Deps
}

func (v Num) key() string {
	return "n" + v.L.key() + "<" + v.R.key() + v.D.key()
}
func (v Num) disc() string { return "n" }

// Cond describes what a boolean says, for refinement on branches.
type Cond struct {
	kind string // "lt0": L<0; "eq0": L==0; "atom": named boolean; "nil": value/location is nil; "not","and"...
	L    *Lin
	atom string
	val  ssa.Value // for "nil"
	loc  *Loc
	neg  bool
}

func (c *Cond) key() string {
	if c == nil {
		return ""
	}
	s := c.kind + ":"
	if c.L != nil {
		s += c.L.key()
	}
	s += c.atom
	if c.val != nil {
		s += c.val.Name()
	}
	if c.neg {
		s = "!" + s
	}
	return s
}

type Bool struct {
	T Tri
	C *Cond
	D Deps
}

func (v Bool) key() string {
	if v.T == Maybe {
		return "b?" + v.C.key() + v.D.key()
	}
	return "b" + v.T.String() + v.D.key()
}
func (v Bool) disc() string { return "b" + v.T.String() }

// Str: a string. K tells whether it is the tracked key.
type Str struct {
	K   Tri // Yes: the tracked key; No: certainly another; Maybe
	Lit string
	Is  bool   // literal known
	T   string // provenance atom
	D   Deps
}

func (v Str) key() string {
	return "s" + v.K.String() + fmt.Sprintf("%v%q", v.Is, v.Lit) + v.T + v.D.key()
}
func (v Str) disc() string { return "s" + v.K.String() }

// Sc: float, rune or opaque scalar with a provenance atom.
type Sc struct {
	T string
	D Deps
}

func (v Sc) key() string  { return "c" + v.T + v.D.key() }
func (v Sc) disc() string { return "c" }

// Loc: a memory location: a cell (path inside a struct) or an array element.
type Loc struct {
	Obj  ObjID
	Path string // ".0.2"
	Elem bool
	Idx  Num
	Via  *Slice // slice through which the element is addressed
}

func (l Loc) key() string {
	if l.Elem {
		return fmt.Sprintf("%d[%s]%s", l.Obj, l.Idx.key(), l.Path)
	}
	return fmt.Sprintf("%d%s", l.Obj, l.Path)
}

type Ptr struct {
	Ts  []Loc
	Nil Tri
}

func (v Ptr) key() string {
	s := "p" + v.Nil.String()
	for _, t := range v.Ts {
		s += "," + t.key()
	}
	return s
}
func (v Ptr) disc() string {
	return "p" + v.Nil.String()
}

type Slice struct {
	Arrs []ObjID
	Off  *Lin
	Ln   *Lin
	Nil  Tri
}

func (v Slice) key() string {
	return fmt.Sprintf("S%s%v@%s#%s", v.Nil, v.Arrs, v.Off.key(), v.Ln.key())
}
func (v Slice) disc() string { return "S" + v.Nil.String() }

type MapV struct {
	Objs []ObjID
	Nil  Tri
}

func (v MapV) key() string  { return fmt.Sprintf("M%s%v", v.Nil, v.Objs) }
func (v MapV) disc() string { return "M" + v.Nil.String() }

type ArrV struct{ Obj ObjID } // an array held by a struct or a variable

func (v ArrV) key() string  { return fmt.Sprintf("A%d", v.Obj) }
func (v ArrV) disc() string { return "A" }

type Struct struct{ F []Val }

func (v Struct) key() string {
	s := make([]string, len(v.F))
	for i, f := range v.F {
		s[i] = f.key()
	}
	return "{" + strings.Join(s, ";") + "}"
}
func (v Struct) disc() string {
	s := make([]string, len(v.F))
	for i, f := range v.F {
		s[i] = f.disc()
	}
	return "{" + strings.Join(s, ";") + "}"
}

type Tuple struct{ F []Val }

func (v Tuple) key() string  { return "T" + Struct{v.F}.key() }
func (v Tuple) disc() string { return "T" + Struct{v.F}.disc() }

// Iface: an interface value.
type Iface struct {
	Nil Tri
	Dyn Val        // dynamic value, if known
	Typ types.Type // dynamic type, if known
	T   string     // provenance atom (element of an object column...)
	Tag string     // "E": the injected failure; "ext": comes from outside
	D   Deps
}

func (v Iface) key() string {
	s := "i" + v.Nil.String() + v.T + "/" + v.Tag + v.D.key()
	if v.Dyn != nil {
		s += "=" + v.Dyn.key()
	}
	if v.Typ != nil {
		s += ":" + v.Typ.String()
	}
	return s
}
func (v Iface) disc() string {
	s := "i" + v.Nil.String() + v.Tag
	if v.Dyn != nil {
		s += v.Dyn.disc()
	}
	return s
}

type Clo struct {
	Fn   *ssa.Function
	Bind []Val
}

type FnV struct{ Cs []Clo }

func (v FnV) key() string {
	s := "F"
	for _, c := range v.Cs {
		s += c.Fn.String()
		for _, b := range c.Bind {
			s += "," + b.key()
		}
	}
	return s
}
func (v FnV) disc() string { return "F" }

// ChanV, IterV: references to heap objects.
type ChanV struct{ Obj ObjID }

func (v ChanV) key() string  { return fmt.Sprintf("C%d", v.Obj) }
func (v ChanV) disc() string { return "C" }

type IterV struct{ Obj ObjID }

func (v IterV) key() string  { return fmt.Sprintf("I%d", v.Obj) }
func (v IterV) disc() string { return "I" }

// ExtV: an object created by an external package (matrix, csv reader, file...)
type ExtV struct{ Objs []ObjID }

func (v ExtV) key() string  { return fmt.Sprintf("X%v", v.Objs) }
func (v ExtV) disc() string { return "X" }

func valDeps(v Val) Deps {
	switch x := v.(type) {
	case Unk:
		return x.D
	case Num:
		return x.D
	case Bool:
		return x.D
	case Str:
		return x.D
	case Sc:
		return x.D
	case Iface:
		d := x.D
		if x.Dyn != nil {
			d = depsJoin(d, valDeps(x.Dyn))
		}
		return d
	case Struct:
		var d Deps
		for _, f := range x.F {
			d = depsJoin(d, valDeps(f))
		}
		return d
	}
	return nil
}

func withDeps(v Val, d Deps) Val {
	switch x := v.(type) {
	case Unk:
		x.D = depsJoin(x.D, d)
		return x
	case Num:
		x.D = depsJoin(x.D, d)
		return x
	case Bool:
		x.D = depsJoin(x.D, d)
		return x
	case Str:
		x.D = depsJoin(x.D, d)
		return x
	case Sc:
		x.D = depsJoin(x.D, d)
		return x
	case Iface:
		x.D = depsJoin(x.D, d)
		return x
	}
	return v
}

func setDeps(v Val, d Deps) Val {
	switch x := v.(type) {
	case Unk:
		x.D = d
		return x
	case Num:
		x.D = d
		return x
	case Bool:
		x.D = d
		return x
	case Str:
		x.D = d
		return x
	case Sc:
		x.D = d
		return x
	case Iface:
		x.D = d
		if x.Dyn != nil {
			x.Dyn = setDeps(x.Dyn, d)
		}
		return x
	}
	return v
}

// substVal rebases the symbolic part of a value.
func substVal(v Val, f func(string) *Lin) Val {
	sa := func(t string) string {
		if t == "" {
			return ""
		}
		l := substAtom(t, f)
		if l == nil || len(l.t) != 1 || l.c != 0 {
			return ""
		}
		for _, t := range l.t {
			if t.c == 1 {
				return atomNames[t.a]
			}
		}
		return ""
	}
	switch x := v.(type) {
	case Num:
		x.L = x.L.subst(f)
		x.R = x.R.subst(f)
		return x
	case Sc:
		x.T = sa(x.T)
		return x
	case Str:
		x.T = sa(x.T)
		return x
	case Iface:
		x.T = sa(x.T)
		if x.Dyn != nil {
			x.Dyn = substVal(x.Dyn, f)
		}
		return x
	case Bool:
		if x.T == Maybe && x.C != nil {
			c := *x.C
			if c.L != nil {
				c.L = c.L.subst(f)
				if c.L == nil {
					x.C = nil
					return x
				}
			}
			if c.atom != "" {
				c.atom = sa(c.atom)
				if c.atom == "" {
					x.C = nil
					return x
				}
			}
			x.C = &c
		}
		return x
	case Slice:
		x.Off = x.Off.subst(f)
		x.Ln = x.Ln.subst(f)
		return x
	case Ptr:
		ts := make([]Loc, len(x.Ts))
		for i, t := range x.Ts {
			t.Idx.L = t.Idx.L.subst(f)
			ts[i] = t
		}
		x.Ts = ts
		return x
	case Struct:
		fs := make([]Val, len(x.F))
		for i := range fs {
			fs[i] = substVal(x.F[i], f)
		}
		return Struct{fs}
	case Tuple:
		fs := make([]Val, len(x.F))
		for i := range fs {
			fs[i] = substVal(x.F[i], f)
		}
		return Tuple{fs}
	}
	return v
}

// mapObjs applies a renaming of object ids.
func mapObjs(v Val, f func(ObjID) ObjID) Val {
	ids := func(a []ObjID) []ObjID {
		ch := false
		for _, x := range a {
			if f(x) != x {
				ch = true
			}
		}
		if !ch {
			return a
		}
		m := map[ObjID]bool{}
		r := []ObjID{}
		for _, x := range a {
			y := f(x)
			if !m[y] {
				m[y] = true
				r = append(r, y)
			}
		}
		sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
		return r
	}
	switch x := v.(type) {
	case Ptr:
		ch := false
		for _, t := range x.Ts {
			if f(t.Obj) != t.Obj {
				ch = true
			}
		}
		if !ch {
			return x
		}
		m := map[string]bool{}
		ts := []Loc{}
		for _, t := range x.Ts {
			t.Obj = f(t.Obj)
			if !m[t.key()] {
				m[t.key()] = true
				ts = append(ts, t)
			}
		}
		x.Ts = ts
		return x
	case Slice:
		x.Arrs = ids(x.Arrs)
		return x
	case MapV:
		x.Objs = ids(x.Objs)
		return x
	case ExtV:
		x.Objs = ids(x.Objs)
		return x
	case ArrV:
		return ArrV{f(x.Obj)}
	case ChanV:
		return ChanV{f(x.Obj)}
	case IterV:
		return IterV{f(x.Obj)}
	case Struct:
		fs := make([]Val, len(x.F))
		for i := range fs {
			fs[i] = mapObjs(x.F[i], f)
		}
		return Struct{fs}
	case Tuple:
		fs := make([]Val, len(x.F))
		for i := range fs {
			fs[i] = mapObjs(x.F[i], f)
		}
		return Tuple{fs}
	case Iface:
		if x.Dyn != nil {
			x.Dyn = mapObjs(x.Dyn, f)
		}
		return x
	case FnV:
		cs := make([]Clo, len(x.Cs))
		for i, c := range x.Cs {
			b := make([]Val, len(c.Bind))
			for j := range b {
				b[j] = mapObjs(c.Bind[j], f)
			}
			cs[i] = Clo{c.Fn, b}
		}
		return FnV{cs}
	}
	return v
}

// refs calls f on every object referred to by the value.
func refs(v Val, f func(ObjID)) {
	switch x := v.(type) {
	case Ptr:
		for _, t := range x.Ts {
			f(t.Obj)
		}
	case Slice:
		for _, o := range x.Arrs {
			f(o)
		}
	case MapV:
		for _, o := range x.Objs {
			f(o)
		}
	case ExtV:
		for _, o := range x.Objs {
			f(o)
		}
	case ArrV:
		f(x.Obj)
	case ChanV:
		f(x.Obj)
	case IterV:
		f(x.Obj)
	case Struct:
		for _, y := range x.F {
			refs(y, f)
		}
	case Tuple:
		for _, y := range x.F {
			refs(y, f)
		}
	case Iface:
		if x.Dyn != nil {
			refs(x.Dyn, f)
		}
	case FnV:
		for _, c := range x.Cs {
			for _, b := range c.Bind {
				refs(b, f)
			}
		}
	}
}
