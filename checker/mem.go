package main

// Memory: loads, stores, slices, maps, appends and copies.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type stv struct {
	st *State
	v  Val
}

// ---- induction variables inside linear forms

func isIV(a string) bool { return strings.HasPrefix(a, "iv:") }

// affineIV splits a form into induction variable + rest
func affineIV(l *Lin) (string, *Lin, bool) {
	if l == nil {
		return "", nil, false
	}
	iv := ""
	for _, t := range l.t {
		a, c := atomNames[t.a], t.c
		if isIV(a) {
			if iv != "" || c != 1 {
				return "", nil, false
			}
			iv = a
		}
	}
	if iv == "" {
		return "", nil, false
	}
	r := linAdd(l, linA(iv), -1)
	if r.mentions(isIV) {
		return "", nil, false
	}
	return iv, r, true
}

func killIV(v Val) Val { return killAtoms(v, isIV) }

// ---- loads

func (e *Engine) load(s *State, l Loc, t types.Type, in ssa.Instruction) []stv {
	if l.Elem {
		if l.Path == "" {
			return e.loadElem(s, l.Obj, l.Idx, t, in)
		}
		var r []stv
		for _, x := range e.loadElem(s, l.Obj, l.Idx, nil, in) {
			v := getPath(x.v, l.Path)
			if v == nil {
				v = e.unknown(t)
			}
			r = append(r, stv{x.st, v})
		}
		return r
	}
	o := s.heap[l.Obj]
	if o == nil || o.kind != kCell {
		return []stv{{s, e.unknown(t)}}
	}
	e.onRead(s, l.Obj, o, in)
	v := getPath(o.v, l.Path)
	if v == nil {
		v = e.unknown(t)
	} else if _, unk := v.(Unk); unk && t != nil {
		v = e.unknown(t)
	}
	return []stv{{s, v}}
}

func kpAtom(arr ObjID) string  { return "kp:" + objName(arr) }
func nkpAtom(arr ObjID) string { return "nkp:" + objName(arr) }

// position of the special element of arr relative to the index: Yes, No, Maybe
func (e *Engine) loadElem(s *State, arr ObjID, idx Num, t types.Type, in ssa.Instruction) []stv {
	o := s.heap[arr]
	if o == nil || o.kind != kArr {
		if t == nil {
			return []stv{{s, Unk{}}}
		}
		return []stv{{s, e.unknown(t)}}
	}
	if t == nil {
		t = o.elemT
	}
	e.onRead(s, arr, o, in)
	deps := func(v Val) Val {
		if o.role != "" {
			return withDeps(v, Deps{arr})
		}
		return v
	}
	if els, ok := o.v.(Struct); ok && idx.L.isConst() && idx.L.c >= 0 && int(idx.L.c) < len(els.F) && els.F[idx.L.c] != nil {
		return []stv{{s, deps(els.F[idx.L.c])}}
	}
	lastS, isS := o.lastV.(Str)
	if o.lastI != nil && o.lastV != nil && idx.L != nil && !(isS && lastS.K == Maybe && o.sp != No) && s.eq(o.lastI, idx.L) {
		return []stv{{s, deps(o.lastV)}}
	}
	_, strs := o.fun.(Str)
	if o.fun != nil && idx.L != nil && !(strs && o.sp != No) {
		v := substVal(o.fun, func(a string) *Lin {
			if a == piAtom {
				return idx.L
			}
			return nil
		})
		return []stv{{s, deps(v)}}
	}
	var res []stv
	plain := func(st *State) {
		v := e.plainElem(st, arr, o, idx, t)
		if v == nil {
			if o.sp != No {
				e.dead["no other element"]++
				return
			}
			v = e.unknown(t)
			if _, ok := v.(Str); ok {
				v = Str{K: No}
			}
		}
		res = append(res, stv{st, deps(v)})
	}
	if o.sp == No {
		plain(s)
		return res
	}
	// the special element
	special := func(st *State) {
		if o.sp == Maybe {
			c := o.clone()
			c.sp = Yes
			st.heap[arr] = c
		}
		res = append(res, stv{st, deps(o.spV)})
	}
	if idx.L != nil {
		if idx.L.key() == linA(kpAtom(arr)).key() {
			special(s)
			return res
		}
		if idx.L.key() == linA(nkpAtom(arr)).key() {
			plain(s)
			return res
		}
		r := s.rng(idx.L)
		if o.spAt == 1 && r.lo >= 1 || o.spAt == 2 && r.hi <= 0 {
			plain(s)
			return res
		}
		if o.spAt == 1 && r.hi <= 0 && r.lo >= 0 {
			special(s)
			return res
		}
	}
	if iv, c, ok := affineIV(idx.L); ok {
		key := fmt.Sprintf("sv:%d@%s", arr, iv)
		if c.isConst() {
			e.scans[key] = fmt.Sprint(c.c)
		}
		s.marks["scan:"+key] = fmt.Sprint(c.key())
		switch s.visited[key] {
		case 1:
			special(s)
			return res
		case 2, 3:
			plain(s)
			return res
		}
		k := s.clone()
		k.visited[key] = 1
		k.inK[key] = true
		k.assume(linAdd(idx.L, linA(kpAtom(arr)), -1), 0, 0)
		special(k)
		s.visited[key] = 3
		if o.spAt == 1 {
			s.assume(idx.L, 1, inf)
		}
		plain(s)
		return res
	}
	k := s.clone()
	special(k)
	plain(s)
	return res
}

// plainElem is the value of an element that is not the special one
func (e *Engine) plainElem(s *State, arr ObjID, o *Obj, idx Num, t types.Type) Val {
	var v Val
	if o.orig {
		at := ""
		if idx.L != nil && !o.dirty {
			at = ldAtom(arr, idx.L)
		}
		v = e.typedAtom(t, at, origRange[arr])
		if st, ok := v.(Str); ok {
			st.K = No
			if o.spV == nil && s.heap[arr].role == "" {
				st.K = Maybe
			}
			v = st
		}
	}
	if o.sum != nil {
		v = joinVal(v, o.sum, s, s, s, "el"+objName(arr))
	}
	if o.pfun != nil && o.sum == nil {
		v = joinVal(v, unPi(o.pfun), s, s, s, "el"+objName(arr))
	}
	if o.zero {
		z := e.zero(nil, t, "")
		if v == nil {
			return z
		}
		if n, ok := v.(Num); ok && n.L == nil {
			return v
		}
		v = joinVal(v, z, s, s, s, "el"+objName(arr))
	}
	return v
}

func (e *Engine) typedAtom(t types.Type, at string, rng *Lin) Val {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			if at == "" {
				return Bool{T: Maybe}
			}
			return Bool{T: Maybe, C: &Cond{kind: "atom", atom: at}}
		case b.Info()&types.IsString != 0:
			return Str{K: No, T: at}
		case b.Info()&types.IsInteger != 0:
			if at == "" {
				return Num{R: rng}
			}
			return Num{L: linA(at), R: rng}
		}
		return Sc{T: at}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return Iface{Nil: Maybe, T: at}
	}
	return e.unknown(t)
}

// ---- stores

func (e *Engine) store(s *State, addr Val, v Val, in ssa.Instruction) []*State {
	p, ok := addr.(Ptr)
	if !ok {
		e.lost("store through an unknown pointer")
		s.taint = "unknown store"
		return []*State{s}
	}
	if len(p.Ts) == 0 {
		if p.Nil == Yes {
			e.dead["nil dereference"]++
			return nil
		}
		return []*State{s}
	}
	weak := len(p.Ts) > 1
	e.weakW = weak
	defer func() { e.weakW = false }()
	for _, t := range p.Ts {
		if t.Elem {
			e.storeElem(s, t.Obj, t.Idx, t.Path, v, in, weak)
			continue
		}
		o := s.heap[t.Obj]
		if o == nil || o.kind != kCell {
			continue
		}
		e.onWrite(s, t.Obj, o, "cell", t.Path, in)
		c := o.clone()
		if weak || o.summary {
			old := getPath(o.v, t.Path)
			nv := v
			if old != nil {
				nv = joinVal(old, v, s, s, s, "st"+objName(t.Obj)+t.Path)
			}
			c.v = setPath(o.v, t.Path, nv)
		} else {
			if _, unk := o.v.(Unk); unk && t.Path != "" {
				continue
			}
			c.v = setPath(o.v, t.Path, v)
		}
		s.set(t.Obj, c)
	}
	return []*State{s}
}

// special reports whether a value identifies the tracked key, the injected
// failure or something that holds the tracked key
func (s *State) special(v Val) bool {
	switch x := v.(type) {
	case Str:
		return x.K == Yes
	case Iface:
		if x.Tag == "E" && x.Nil != Yes {
			return true
		}
		return x.Dyn != nil && s.special(x.Dyn)
	case Struct:
		for _, f := range x.F {
			if s.special(f) {
				return true
			}
		}
	case Ptr:
		for _, t := range x.Ts {
			if !t.Elem && s.reachesK(t.Obj) {
				return true
			}
		}
	case Num:
		at, ok := singleAtom(x.L)
		return ok && strings.HasPrefix(at, "kp:")
	case Slice:
		for _, a := range x.Arrs {
			if o := s.heap[a]; o != nil && o.sp == Yes && o.role == "" && !o.orig {
				return true
			}
		}
	}
	return false
}

func singleAtom(l *Lin) (string, bool) {
	if l == nil || l.c != 0 || len(l.t) != 1 || l.t[0].c != 1 {
		return "", false
	}
	return atomNames[l.t[0].a], true
}

// posVal turns a position that is known to be, or not to be, the position of
// the tracked name in a list into a value that says so
func (s *State) posVal(v Val) Val {
	n, ok := v.(Num)
	if !ok || n.L == nil || n.L.isConst() {
		return v
	}
	for k, st := range s.visited {
		if !strings.HasPrefix(k, "sv:") {
			continue
		}
		i := strings.IndexByte(k, '@')
		iv := k[i+1:]
		if n.L.coef(iv) == 0 {
			continue
		}
		var id int
		fmt.Sscanf(k[3:i], "%d", &id)
		if st == 1 && s.eq(n.L, linA(kpAtom(ObjID(id)))) {
			return Num{L: linA(kpAtom(ObjID(id))), R: n.R, D: n.D}
		}
		if (st == 3 || st == 2) && s.marks["scan:"+k] == linAdd(n.L, linA(iv), -1).key() {
			return Num{L: linA(nkpAtom(ObjID(id))), R: n.R, D: n.D}
		}
	}
	return v
}

func (e *Engine) storeElem(s *State, arr ObjID, idx Num, path string, v Val, in ssa.Instruction, weak bool) {
	o := s.heap[arr]
	if o == nil || o.kind != kArr {
		return
	}
	what := "elem"
	if s.gor != nil && s.gor.loop != nil && idx.L.mentions(func(a string) bool {
		return isIV(a) && strings.HasSuffix(a, fmt.Sprintf("#%d", s.gor.loopCtx))
	}) {
		what = "own"
	}
	e.onWrite(s, arr, o, what, path, in)
	if path == "" {
		e.onElemStore(s, arr, o, idx, v, in)
	}
	if isInt(o.elemT) {
		v = s.posVal(v)
	}
	v = e.rowNumber(s, v)
	v = setDeps(v, nil)
	c := o.clone()
	c.dirty = true
	c.lastI, c.lastV = nil, nil
	if els, ok := c.v.(Struct); ok {
		if path == "" && !weak && !c.summary && idx.L.isConst() && idx.L.c >= 0 && int(idx.L.c) < len(els.F) {
			f := append([]Val(nil), els.F...)
			f[idx.L.c] = v
			c.v = Struct{f}
		} else {
			c.v = nil
		}
	}
	defer func() { s.set(arr, c) }()
	if path == "" && !weak && idx.L != nil && !o.summary {
		c.lastI, c.lastV = idx.L, v
	}
	if path != "" {
		// part of a structure
		base := Val(nil)
		if c.fun != nil {
			base = unPi(c.fun)
			c.fun = nil
		} else {
			base = e.plainElem(s, arr, o, Num{}, o.elemT)
		}
		if base == nil {
			base = e.unknown(o.elemT)
		}
		if _, ok := base.(Struct); !ok {
			c.sum = Unk{}
		} else {
			c.sum = joinVal(base, setPath(base, path, killIV(v)), s, s, s, "st"+objName(arr))
		}
		c.pbad = true
		return
	}
	if c.fun != nil {
		if idx.L != nil {
			at := substVal(c.fun, func(a string) *Lin {
				if a == piAtom {
					return idx.L
				}
				return nil
			})
			if at.key() == v.key() {
				return
			}
		}
		c.sum = joinVal(c.sum, unPi(c.fun), s, s, s, "st"+objName(arr))
		c.fun = nil
	}
	iv, rest, aff := affineIV(idx.L)
	if s.special(v) && !weak {
		at := 0
		if idx.L != nil {
			r := s.rng(idx.L)
			if r.lo == 0 && r.hi == 0 {
				at = 1
			} else if r.lo >= 1 {
				at = 2
			}
		}
		kv := killIV(v)
		if c.sp == No || c.sp == Maybe && c.spV == nil {
			c.sp, c.spV, c.spAt, c.spW = Yes, kv, at, 1
		} else if c.spV != nil && c.spV.key() == kv.key() {
			c.sp = Yes
			if c.spAt != at {
				c.spAt = 0
			}
		} else {
			c.sum = joinVal(c.sum, joinVal(c.spV, kv, s, s, s, "s2"+objName(arr)), s, s, s, "st"+objName(arr))
			c.sp, c.spV, c.spAt = No, nil, 0
		}
		c.pbad = true
		return
	}
	if c.sp == Yes && !aff {
		hit := Maybe
		if idx.L != nil {
			if a, ok := singleAtom(idx.L); ok && a == nkpAtom(arr) {
				hit = No
			}
			r := s.rng(idx.L)
			if c.spAt == 1 && r.lo >= 1 || c.spAt == 2 && r.hi <= 0 {
				hit = No
			}
			if c.spAt == 1 && r.lo >= 0 && r.hi <= 0 {
				hit = Yes
			}
		}
		switch hit {
		case Yes:
			c.sp, c.spV = No, nil
		case Maybe:
			c.sp = Maybe
		}
	}
	c.sum = joinVal(c.sum, killIV(v), s, s, s, "st"+objName(arr))
	if weak || !aff {
		c.pbad = true
		return
	}
	pf := substVal(v, func(a string) *Lin {
		if a == iv {
			return linAdd(linA(piAtom), rest, -1)
		}
		if strings.HasPrefix(a, "iv:") {
			// another counter, that keeps its distance
			if d := s.rng(linAdd(linA(a), linA(iv), -1)); d.lo == d.hi {
				return linAdd(linAdd(linA(piAtom), rest, -1), linC(d.lo), 1)
			}
		}
		return nil
	})
	mark := fmt.Sprintf("st:%d@%s", arr, iv)
	switch {
	case c.pbad:
	case c.pIV == "":
		c.pfun, c.pIV, c.pC = pf, iv, rest
	case c.pIV == iv && c.pC != nil && c.pC.key() == rest.key() && c.pfun != nil && c.pfun.key() == pf.key():
	default:
		c.pbad, c.pfun = true, nil
	}
	s.marks[mark] = "1"
}

// ---- slices

func (e *Engine) indexAddr(s *State, x *ssa.IndexAddr) []*State {
	idx, _ := e.operand(s, x.Index).(Num)
	v := e.operand(s, x.X)
	switch y := v.(type) {
	case Slice:
		for _, a := range y.Arrs {
			e.onIndex(s, y, a, idx, x)
		}
		if idx.L != nil {
			if !s.assume(idx.L, 0, inf) {
				e.dead["index"]++
				return nil
			}
			if y.Ln != nil && !s.assume(linAdd(y.Ln, idx.L, -1), 1, inf) {
				e.dead["index"]++
				return nil
			}
		}
		if y.Nil == Yes || len(y.Arrs) == 0 && y.Nil == Yes {
			e.dead["index of nil"]++
			return nil
		}
		p := Ptr{Nil: No}
		for _, a := range y.Arrs {
			n := idx
			if !(y.Off != nil && y.Off.isConst() && y.Off.c == 0) {
				n.L = linAdd(y.Off, idx.L, 1)
				n.R = nil
			}
			p.Ts = append(p.Ts, Loc{Obj: a, Elem: true, Idx: n})
		}
		e.set(s, x, p)
	case Ptr:
		p := Ptr{Nil: No}
		for _, t := range y.Ts {
			for _, lv := range e.load(s, t, nil2arr(x.X.Type()), x) {
				if a, ok := lv.v.(ArrV); ok {
					if o := s.heap[a.Obj]; o != nil && len(y.Ts) == 1 && idx.L != nil {
						if !s.assume(idx.L, 0, inf) || o.ln != nil && !s.assume(linAdd(o.ln, idx.L, -1), 1, inf) {
							e.dead["index"]++
							return nil
						}
					}
					p.Ts = append(p.Ts, Loc{Obj: a.Obj, Elem: true, Idx: idx})
				}
			}
		}
		if len(p.Ts) == 0 {
			e.set(s, x, Unk{})
		} else {
			e.set(s, x, p)
		}
	default:
		e.set(s, x, Unk{})
	}
	return []*State{s}
}

func nil2arr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Engine) slice(s *State, x *ssa.Slice) []*State {
	one := []*State{s}
	v := e.operand(s, x.X)
	num := func(y ssa.Value, def *Lin) *Lin {
		if y == nil {
			return def
		}
		n, _ := e.operand(s, y).(Num)
		return n.L
	}
	switch y := v.(type) {
	case Slice:
		lo := num(x.Low, linC(0))
		hi := num(x.High, y.Ln)
		if lo != nil && !s.assume(lo, 0, inf) {
			return nil
		}
		d := linAdd(hi, lo, -1)
		if d != nil && !s.assume(d, 0, inf) {
			e.dead["slice bounds"]++
			return nil
		}
		if x.High != nil && len(y.Arrs) == 1 && hi != nil {
			if o := s.heap[y.Arrs[0]]; o != nil && o.ln != nil && y.Off != nil {
				if !s.assume(linAdd(linAdd(o.ln, y.Off, -1), hi, -1), 0, inf) {
					e.dead["slice bounds"]++
					return nil
				}
			}
		}
		e.onSlice(s, y, lo, hi, x)
		e.set(s, x, Slice{Arrs: y.Arrs, Off: linAdd(y.Off, lo, 1), Ln: d, Nil: y.Nil})
	case Ptr:
		r := Slice{Nil: No}
		for _, t := range y.Ts {
			for _, lv := range e.load(s, t, nil2arr(x.X.Type()), x) {
				if a, ok := lv.v.(ArrV); ok {
					o := s.heap[a.Obj]
					if o == nil {
						continue
					}
					lo := num(x.Low, linC(0))
					hi := num(x.High, o.ln)
					r.Arrs = append(r.Arrs, a.Obj)
					r.Off, r.Ln = lo, linAdd(hi, lo, -1)
				}
			}
		}
		if len(r.Arrs) == 0 {
			e.set(s, x, Unk{})
		} else {
			e.set(s, x, r)
		}
	case Str:
		e.set(s, x, Str{K: derivedK, D: y.D})
	default:
		e.set(s, x, e.unknown(x.Type()))
	}
	return one
}

// contentFun returns the content of a slice as a function of the position π
func (e *Engine) contentFun(s *State, sl Slice) Val {
	if len(sl.Arrs) != 1 || sl.Off == nil {
		return nil
	}
	o := s.heap[sl.Arrs[0]]
	if o == nil || o.sp != No {
		return nil
	}
	pos := linAdd(linA(piAtom), sl.Off, 1)
	if o.fun != nil {
		return substVal(o.fun, func(a string) *Lin {
			if a == piAtom {
				return pos
			}
			return nil
		})
	}
	if o.orig && !o.dirty {
		return e.typedAtom(o.elemT, ldAtom(sl.Arrs[0], pos), origRange[sl.Arrs[0]])
	}
	if !o.orig && o.sum == nil && o.pfun == nil && o.zero {
		return e.zero(nil, o.elemT, "")
	}
	return nil
}

// summary of all the elements of a slice but the special one
func (e *Engine) sliceSum(s *State, sl Slice) Val {
	var v Val
	for _, a := range sl.Arrs {
		o := s.heap[a]
		if o == nil {
			return e.lostVal()
		}
		var w Val
		if o.fun != nil {
			w = unPi(o.fun)
		} else {
			w = e.plainElem(s, a, o, Num{}, o.elemT)
		}
		v = joinVal(v, w, s, s, s, "ss"+objName(a))
	}
	return v
}

// rowNumber notes that a number that goes over the rows of a frame does so
func (e *Engine) rowNumber(s *State, v Val) Val {
	n, ok := v.(Num)
	if !ok || n.R != nil || n.L == nil || e.sc == nil || !e.sc.viewed || !n.L.mentions(isIV) || loadRange(n.L) != nil {
		return v
	}
	below := func(x string) bool { return s.provesGE0(linAdd(linAdd(linA(x), n.L, -1), linC(1), -1)) }
	row := ""
	for _, x := range e.sc.rowSyms {
		if below(x) {
			row = x
			break
		}
	}
	if row == "" || !s.provesGE0(n.L) {
		return v
	}
	g := s.rng(n.L)
	for _, x := range lenSyms {
		if g.lo != g.hi && strings.HasPrefix(x, "A") && below(x) {
			return v
		}
	}
	n.R = linA(row)
	return n
}

func (e *Engine) lostVal() Val { return Unk{} }

// bulk writes the elements of src at the positions off.. of arr
func (e *Engine) bulk(s *State, arr ObjID, off, n *Lin, src Slice, in ssa.Instruction) {
	o := s.heap[arr]
	if o == nil || o.kind != kArr {
		return
	}
	if n != nil && n.isConst() && n.c == 0 {
		return
	}
	e.onWrite(s, arr, o, "elem", "", in)
	e.onBulk(s, arr, o, off, n, src, in)
	for _, a := range src.Arrs {
		if so := s.heap[a]; so != nil {
			e.onRead(s, a, so, in)
		}
	}
	if n != nil && n.isConst() && n.c == 1 && len(src.Arrs) == 1 {
		if so := s.heap[src.Arrs[0]]; so != nil && so.kind == kArr && (so.sp == No || so.ln != nil && so.ln.isConst() && so.ln.c == 1) {
			v := so.spV
			if so.sp == No {
				v = nil
				for _, lv := range e.loadElem(s, src.Arrs[0], Num{L: src.Off}, so.elemT, in) {
					v = lv.v
				}
			}
			if v != nil {
				e.storeElem(s, arr, Num{L: off}, "", v, in, false)
				return
			}
		}
	}
	c := o.clone()
	c.dirty = true
	c.pbad = true
	c.lastI, c.lastV, c.v = nil, nil, nil
	full := off != nil && s.eq(off, linC(0)) && n != nil && s.eq(n, o.ln)
	if full {
		c.sum, c.zero, c.orig, c.fun, c.sp, c.spV = nil, false, false, nil, No, nil
		if f := e.contentFun(s, src); f != nil {
			c.fun = f
			s.set(arr, c)
			return
		}
	} else if c.fun != nil {
		c.sum = joinVal(c.sum, unPi(c.fun), s, s, s, "bk"+objName(arr))
		c.fun = nil
	}
	w := e.sliceSum(s, src)
	if w != nil {
		c.sum = joinVal(c.sum, w, s, s, s, "bk"+objName(arr))
	}
	for _, a := range src.Arrs {
		so := s.heap[a]
		if so == nil || so.sp == No || so.spV == nil {
			continue
		}
		whole := so.sp == Yes && len(src.Arrs) == 1 && s.eq(src.Off, linC(0)) && (src.Ln == nil || n == nil || s.eq(src.Ln, n))
		switch {
		case c.sp == No:
			c.sp, c.spV, c.spAt = triJoin(triOf(whole), No), so.spV, 0
			if whole {
				c.sp = Yes
				if off != nil && s.eq(off, linC(0)) {
					c.spAt = so.spAt
				} else if off != nil && s.rng(off).lo >= 1 {
					c.spAt = 2
				}
			} else {
				c.sp = Maybe
			}
		default:
			if c.spV.key() != so.spV.key() {
				c.spV = joinVal(c.spV, so.spV, s, s, s, "bks"+objName(arr))
			}
			if whole {
				c.sp = Yes
			}
			c.spAt = 0
		}
	}
	s.set(arr, c)
}

func (e *Engine) appendTo(s *State, base, more Slice, t types.Type, in ssa.Instruction, name string) Val {
	if more.Nil == Yes || more.Ln != nil && more.Ln.isConst() && more.Ln.c == 0 {
		return base
	}
	elemT := t.Underlying().(*types.Slice).Elem()
	ln := linAdd(base.Ln, more.Ln, 1)
	e.onAppend(s, base, more, in)
	// a short list whose elements are known one by one stays one
	// (a list which met the element that fails is judged as a whole)
	fails := e.sc != nil && e.sc.faults && (s.mayHoldSpecial(base) || s.mayHoldSpecial(more))
	var els []Val
	listed := false
	if a, ok := s.elements(base); ok && ln.isConst() && ln.c < int64(e.maxUnroll()) && !fails {
		if b, ok := s.elements(more); ok {
			els, listed = append(append(els, a...), b...), true
		}
	}
	if len(base.Arrs) == 1 && base.Nil != Yes {
		a := base.Arrs[0]
		o := s.heap[a]
		if o != nil && o.kind == kArr {
			fits := ln != nil && o.ln != nil && base.Off != nil && s.provesGE0(linAdd(linAdd(o.ln, base.Off, -1), ln, -1))
			own := o.role == "" && !o.orig && !o.summary
			// what was appended before stays where it is
			kept := func() {
				if c := s.heap[a]; own && c != nil && (o.app || base.Ln != nil && base.Ln.isConst() && base.Ln.c == 0) {
					c = c.clone()
					c.app = true
					s.set(a, c)
				}
				if c := s.heap[a]; own && o.sp == Yes && c != nil && c.sp == Maybe && !(base.Ln != nil && base.Ln.isConst() && base.Ln.c == 0) {
					c = c.clone()
					c.sp = Yes
					s.set(a, c)
				}
			}
			if fits {
				e.bulk(s, a, linAdd(base.Off, base.Ln, 1), more.Ln, more, in)
				kept()
				return Slice{Arrs: base.Arrs, Off: base.Off, Ln: e.lenSym(s, ln, name), Nil: No}
			}
			full := base.Off != nil && base.Ln != nil && o.ln != nil && s.eq(linAdd(base.Off, base.Ln, 1), o.ln)
			// an append in a loop, which has already allocated this array
			base0 := strings.TrimRight(strings.TrimSuffix(objName(a), ".old"), "κ")
			again := base0 == name && !listed
			if own && (!full || again) {
				c := o.clone()
				c.ln = nil
				s.set(a, c)
				e.bulk(s, a, linAdd(base.Off, base.Ln, 1), more.Ln, more, in)
				kept()
				return Slice{Arrs: base.Arrs, Off: base.Off, Ln: e.lenSym(s, ln, name), Nil: No}
			}
		}
	}
	// a new array
	tmp := mkObj(name + "~")
	s.set(tmp, &Obj{kind: kArr, ln: ln, elemT: elemT})
	if s.gor != nil {
		s.heap[tmp].own = s.gor.id
	}
	if base.Nil != Yes {
		e.bulk(s, tmp, linC(0), base.Ln, base, nil)
	}
	off := base.Ln
	if base.Nil == Yes {
		off = linC(0)
	}
	had := s.heap[tmp].sp == Yes
	e.bulk(s, tmp, off, more.Ln, more, nil)
	o := s.heap[tmp]
	delete(s.heap, tmp)
	o = o.clone()
	if had && o.sp == Maybe {
		o.sp = Yes // what is appended replaces nothing
	}
	o.pfun, o.pIV, o.pC, o.pbad, o.dirty = nil, "", nil, false, false
	o.app = true
	if listed {
		o.v = Struct{els}
	}
	id := e.alloc(s, name, o)
	return Slice{Arrs: []ObjID{id}, Off: linC(0), Ln: e.lenSym(s, ln, name), Nil: No}
}

// mayHoldSpecial: the slice may hold the special element
func (s *State) mayHoldSpecial(v Slice) bool {
	for _, a := range v.Arrs {
		if o := s.heap[a]; o != nil && o.sp != No {
			return true
		}
	}
	return false
}

// elements lists the elements of a slice, if they are all known one by one
func (s *State) elements(v Slice) ([]Val, bool) {
	if v.Nil == Yes || v.Ln.isConst() && v.Ln.c == 0 {
		return nil, true
	}
	if len(v.Arrs) != 1 || !v.Off.isConst() || !v.Ln.isConst() {
		return nil, false
	}
	o := s.heap[v.Arrs[0]]
	if o == nil || o.kind != kArr || o.summary {
		return nil, false
	}
	els, ok := o.v.(Struct)
	if !ok || v.Off.c < 0 || v.Off.c+v.Ln.c > int64(len(els.F)) {
		return nil, false
	}
	return els.F[v.Off.c : v.Off.c+v.Ln.c], true
}

// lenSym keeps a length whose exact value is unknown as "at least one"
func (e *Engine) lenSym(s *State, l *Lin, name string) *Lin {
	if l != nil {
		return l
	}
	a := "len:" + name
	s.dropAtoms(func(x string) bool { return x == a })
	s.assume(linA(a), 0, inf)
	return linA(a)
}

// ---- maps

// markLen records that len(map) was read
func (s *State) mapChanged(id ObjID) {
	k := "ml:" + objName(id)
	if _, ok := s.marks[k]; ok {
		delete(s.marks, k)
		at := "mlen:" + objName(id)
		s.dropAtoms(func(x string) bool { return x == at })
	}
}

func (e *Engine) mapLen(s *State, m MapV) Val {
	if m.Nil == Yes {
		return Num{L: linC(0)}
	}
	if len(m.Objs) != 1 {
		return Num{}
	}
	id := m.Objs[0]
	o := s.heap[id]
	if o == nil {
		return Num{}
	}
	if o.kP == No && o.oth == nil {
		return Num{L: linC(0)}
	}
	at := "mlen:" + objName(id)
	s.marks["ml:"+objName(id)] = "1"
	lo := int64(0)
	if o.kP == Yes {
		lo = 1
	}
	s.assume(linA(at), lo, inf)
	return Num{L: linA(at)}
}

func (e *Engine) lookup(s *State, x *ssa.Lookup) []*State {
	v := e.operand(s, x.X)
	key := e.operand(s, x.Index)
	m, ok := v.(MapV)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	out := func(st *State, val Val, ok Tri) *State {
		if x.CommaOk {
			e.set(st, x, Tuple{[]Val{val, Bool{T: ok}}})
		} else {
			e.set(st, x, val)
		}
		return st
	}
	if !isMap { // string index
		e.set(s, x, e.unknown(x.Type()))
		return []*State{s}
	}
	if !ok {
		e.set(s, x, e.unknown(x.Type()))
		return []*State{s}
	}
	zero := func(st *State) Val { return e.zero(nil, mt.Elem(), "") }
	if m.Nil == Yes || len(m.Objs) == 0 {
		return []*State{out(s, zero(s), No)}
	}
	if len(m.Objs) > 1 {
		var j Val
		okT := Tri(-1)
		for _, id := range m.Objs {
			o := s.heap[id]
			if o == nil {
				continue
			}
			e.onRead(s, id, o, x)
			for _, w := range []Val{o.kV, o.oth} {
				if w != nil {
					j = joinVal(j, w, s, s, s, "lk"+e.name(s, x))
				}
			}
		}
		okT = Maybe
		j = joinVal(j, zero(s), s, s, s, "lk"+e.name(s, x))
		return []*State{out(s, j, okT)}
	}
	id := m.Objs[0]
	o := s.heap[id]
	if o == nil || o.kind != kMap {
		e.set(s, x, e.unknown(x.Type()))
		return []*State{s}
	}
	e.onRead(s, id, o, x)
	var r []*State
	sk, isK := key.(Str)
	kk := No
	if o.strKey {
		kk = Maybe
		if isK {
			kk = sk.K
		}
	} else if iv, ok := key.(Iface); ok && o.strKey {
		_ = iv
		kk = Maybe
	}
	if kk != No {
		if o.kP != No {
			t := s
			if o.kP == Maybe || kk == Maybe {
				t = s.clone()
			}
			if o.kP == Maybe {
				c := o.clone()
				c.kP = Yes
				t.heap[id] = c
				t.taint = "map presence"
			}
			kv := o.kV
			if kv == nil {
				kv = e.unknown(mt.Elem())
			}
			r = append(r, out(t, kv, Yes))
		}
		if o.kP != Yes {
			t := s
			if kk == Maybe {
				t = s.clone()
			}
			if o.kP == Maybe {
				c := o.clone()
				c.kP, c.kV = No, nil
				t.heap[id] = c
				t.taint = "map presence"
			}
			r = append(r, out(t, zero(s), No))
		}
	}
	if kk != Yes {
		if o.oth != nil {
			r = append(r, out(s.clone(), o.oth, Yes))
		}
		r = append(r, out(s, zero(s), No))
	}
	return r
}

func (e *Engine) mapUpdate(s *State, mv, key, v Val, in ssa.Instruction) []*State {
	m, ok := mv.(MapV)
	if !ok {
		e.lost("update of an unknown map")
		s.taint = "unknown map"
		return []*State{s}
	}
	if m.Nil == Yes {
		e.dead["assignment to nil map"]++
		return nil
	}
	v = setDeps(v, nil)
	weak := len(m.Objs) > 1
	for _, id := range m.Objs {
		o := s.heap[id]
		if o == nil || o.kind != kMap {
			continue
		}
		s.mapChanged(id)
		o = s.heap[id]
		kk := No
		if o.strKey {
			kk = Maybe
			if sk, ok := key.(Str); ok {
				kk = sk.K
			}
		}
		e.onWrite(s, id, o, "map", kk.String(), in)
		c := o.clone()
		switch {
		case kk == Yes && !weak && !o.summary:
			c.kP, c.kV = Yes, v
		case kk == No:
			c.oth = joinVal(c.oth, killIV(v), s, s, s, "mu"+objName(id))
		default:
			if c.kP != Yes {
				c.kP = Maybe
			}
			if kk == Yes && o.kP == No {
				c.kV = v
			} else {
				c.kV = joinVal(c.kV, v, s, s, s, "muk"+objName(id))
			}
			if kk == Maybe {
				c.oth = joinVal(c.oth, killIV(v), s, s, s, "mu"+objName(id))
			}
		}
		s.set(id, c)
	}
	return []*State{s}
}

func (e *Engine) mapDelete(s *State, mv, key Val, in ssa.Instruction) {
	m, ok := mv.(MapV)
	if !ok {
		return
	}
	for _, id := range m.Objs {
		o := s.heap[id]
		if o == nil || o.kind != kMap {
			continue
		}
		s.mapChanged(id)
		o = s.heap[id]
		kk := No
		if o.strKey {
			kk = Maybe
			if sk, ok := key.(Str); ok {
				kk = sk.K
			}
		}
		if kk == Yes && o.kP == No {
			continue // nothing to delete
		}
		e.onWrite(s, id, o, "delete", kk.String(), in)
		c := o.clone()
		if kk == Yes && len(m.Objs) == 1 && !o.summary {
			c.kP, c.kV = No, nil
		} else if kk != No && c.kP == Yes {
			c.kP = Maybe
		}
		s.set(id, c)
	}
}

func (e *Engine) next(s *State, x *ssa.Next) []*State {
	it, ok := e.operand(s, x.Iter).(IterV)
	tt := x.Type().(*types.Tuple)
	unk := func(st *State, b Tri) *State {
		mk := func(i int) Val {
			if t := tt.At(i).Type(); t != nil {
				if bb, ok := t.(*types.Basic); !ok || bb.Kind() != types.Invalid {
					return e.unknown(t)
				}
			}
			return Unk{}
		}
		e.set(st, x, Tuple{[]Val{Bool{T: b}, mk(1), mk(2)}})
		return st
	}
	var o *Obj
	if ok {
		o = s.heap[it.Obj]
	}
	if o == nil || o.st == "unknown" || x.IsString {
		return []*State{unk(s, Maybe)}
	}
	inKey := fmt.Sprintf("it:%d#%d", x.Block().Index, s.top().ctx)
	delete(s.inK, inKey)
	if o.st == "empty" || len(o.over) == 0 {
		return []*State{unk(s, No)}
	}
	if len(o.over) > 1 {
		return []*State{unk(s.clone(), Yes), unk(s, No)}
	}
	id := o.over[0]
	m := s.heap[id]
	if m == nil || m.kind != kMap {
		return []*State{unk(s, Maybe)}
	}
	e.onRead(s, id, m, x)
	kt := tt.At(1).Type()
	var r []*State
	if m.strKey && m.kP != No && o.vis != Yes {
		t := s.clone()
		if m.kP == Maybe {
			c := m.clone()
			c.kP = Yes
			t.heap[id] = c
			t.taint = "map presence"
		}
		c := o.clone()
		c.vis = Yes
		t.heap[it.Obj] = c
		t.inK[inKey] = true
		kv := m.kV
		if kv == nil {
			kv = Unk{}
		}
		e.set(t, x, Tuple{[]Val{Bool{T: Yes}, Str{K: Yes}, kv}})
		r = append(r, t)
	}
	if m.oth != nil {
		t := s.clone()
		var k Val
		if m.strKey {
			k = Str{K: No}
		} else if b, ok := kt.(*types.Basic); ok && b.Kind() == types.Invalid {
			k = Unk{}
		} else {
			k = e.unknown(kt)
		}
		e.set(t, x, Tuple{[]Val{Bool{T: Yes}, k, m.oth}})
		r = append(r, t)
	}
	// the end
	if m.strKey && m.kP == Yes && o.vis == No {
		return r
	}
	if m.strKey && m.kP == Maybe && o.vis == No {
		c := m.clone()
		c.kP, c.kV = No, nil
		s.heap[id] = c
		s.taint = "map presence"
	}
	e.set(s, x, Tuple{[]Val{Bool{T: No}, Unk{}, Unk{}}})
	return append(r, s)
}

// ---- interfaces

func (e *Engine) typeAssert(s *State, x *ssa.TypeAssert) []*State {
	v, ok := e.operand(s, x.X).(Iface)
	out := func(st *State, val Val, ok Tri) *State {
		if x.CommaOk {
			e.set(st, x, Tuple{[]Val{val, Bool{T: ok}}})
		} else {
			e.set(st, x, val)
		}
		return st
	}
	if !ok {
		return []*State{out(s, e.unknown(x.AssertedType), Maybe)}
	}
	refine := func(st *State, t Tri) bool {
		f := st.top()
		if w, ok := f.env[x.X]; ok && w != nil {
			nv, ok := setNil(w, t)
			if !ok {
				return false
			}
			f.env[x.X] = nv
		}
		return true
	}
	var r []*State
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	match := Maybe
	if v.Nil == Yes {
		match = No
	} else if v.Typ != nil {
		if toIface {
			match = triOf(types.Implements(v.Typ, x.AssertedType.Underlying().(*types.Interface)))
		} else {
			match = triOf(types.Identical(v.Typ, x.AssertedType))
		}
		if v.Nil == Maybe && match == Yes {
			match = Maybe
		}
	}
	at := ""
	if match == Maybe && v.T != "" {
		at = fnAtom("is:"+x.AssertedType.String(), linA(v.T))
		if b, ok := s.batoms[at]; ok {
			match = triOf(b)
		}
	}
	if match != No {
		t := s
		if match == Maybe && x.CommaOk {
			t = s.clone()
		}
		if refine(t, No) {
			if at != "" {
				t.batoms[at] = true
			}
			var val Val
			switch {
			case toIface:
				val = v
			case v.Dyn != nil:
				val = v.Dyn
			default:
				n := ""
				if v.T != "" {
					n = fnAtom("val", linA(v.T))
				}
				val = e.typedAtom(x.AssertedType, n, nil)
				if at != "" && v.T != "" {
					if st, ok := val.(Str); ok {
						st.T = n
						val = st
					}
				}
			}
			val = withDeps(val, v.D)
			r = append(r, out(t, val, Yes))
		}
	}
	if x.CommaOk && match != Yes {
		if at != "" {
			s.batoms[at] = false
		}
		r = append(r, out(s, e.zero(nil, x.AssertedType, ""), No))
	}
	if !x.CommaOk && match == No {
		e.dead["type assertion"]++
	}
	return r
}

func (e *Engine) lost(why string) { e.dead["lost: "+why]++ }
