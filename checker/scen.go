package main

// Scenarios: abstract calls of the public functions on symbolic frames.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var mapParts = []string{"floats", "ints", "bools", "objects"}
var kinds = []string{"float", "int", "bool", "object", "string"}

func partOf(kind string) string {
	switch kind {
	case "float":
		return "floats"
	case "int":
		return "ints"
	case "bool":
		return "bools"
	case "object", "string":
		return "objects"
	}
	return ""
}

// Frame describes a symbolic data frame of the scenario.
type FrameSpec struct {
	name   string
	kind   string // kind of the tracked column κ; "": absent
	viewed bool
	maps   bool // sharedMaps: a view of another frame
	shareK bool // κ is recorded as shared
	safe   Tri
	empty  bool   // no column at all
	noOth  bool   // no other column than κ
	others string // the only table that has other columns
	n, a   string
	rows   *Lin // the number of rows, if it is not a symbol
	encNil Tri
	ownHdr bool // an empty header is nil
}

type FrameH struct {
	FrameSpec
	ptr     Ptr
	cell    ObjID
	maps_   map[string]ObjID
	col     ObjID
	idx     ObjID
	mask    ObjID
	shared  ObjID
	strhdr  ObjID
	N, A, M *Lin
}

// B builds a scenario
type B struct {
	e     *Engine
	s     *State
	w     *World
	d     *dfShape
	sc    *Scn
	f     map[string]*FrameH
	votes map[string]*vote
}

func (b *B) sym(name string) *Lin {
	for _, x := range lenSyms {
		if x == name {
			return linA(name)
		}
	}
	lenSyms = append(lenSyms, name)
	atomLo[name] = 0
	b.s.assume(linA(name), 0, inf)
	return linA(name)
}

func (b *B) obj(role string, o *Obj) ObjID {
	id := mkObj(role)
	o.role = role
	b.s.set(id, o)
	b.s.pins = append(b.s.pins, id)
	return id
}

func (b *B) hdrVal(m MapV) Val {
	if b.d.hdrPath == "" {
		return m
	}
	return setPath(b.e.zero(nil, b.d.hdr, ""), b.d.hdrPath, m)
}

func (b *B) hdrElem() Val {
	if bt, ok := b.d.hdrElem.Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
		return Bool{T: Yes}
	}
	return b.e.zero(nil, b.d.hdrElem, "")
}

func elemOf(part string) types.Type {
	switch part {
	case "floats":
		return types.Typ[types.Float64]
	case "ints":
		return types.Typ[types.Int]
	case "bools":
		return types.Typ[types.Bool]
	}
	return types.NewInterfaceType(nil, nil)
}

func (b *B) frame(sp FrameSpec) *FrameH {
	p := sp.name
	h := &FrameH{FrameSpec: sp, maps_: map[string]ObjID{}, col: -1}
	if sp.n == "" {
		sp.n = "N" + p
	}
	h.N = sp.rows
	if h.N == nil {
		h.N = b.sym(sp.n)
	}
	h.A = h.N
	if sp.viewed {
		if sp.a == "" {
			sp.a = "A" + p
		}
		h.A = b.sym(sp.a)
	}
	h.M = b.sym("M" + p)
	b.s.assume(linAdd(h.M, h.N, -1), 0, inf)
	hasOth := !sp.noOth && !sp.empty
	if sp.kind != "" {
		h.col = b.obj(p+".col", &Obj{kind: kArr, ln: h.A, elemT: elemOf(partOf(sp.kind)), orig: true})
	}
	for _, m := range mapParts {
		mo := &Obj{kind: kMap, strKey: true, kP: No}
		if hasOth && (sp.others == "" || sp.others == m) {
			oa := b.obj(p+".oth."+m, &Obj{kind: kArr, ln: h.A, elemT: elemOf(m), orig: true, summary: true})
			mo.oth = Slice{Arrs: []ObjID{oa}, Off: linC(0), Ln: h.A, Nil: No}
		}
		if partOf(sp.kind) == m {
			mo.kP = Yes
			mo.kV = Slice{Arrs: []ObjID{h.col}, Off: linC(0), Ln: h.A, Nil: No}
		}
		h.maps_[m] = b.obj(p+"."+m, mo)
	}
	h.idx = b.obj(p+".idx", &Obj{kind: kArr, ln: h.N, elemT: types.Typ[types.Int], orig: true})
	if sp.viewed {
		origRange[h.idx] = h.A
	} else {
		o := b.s.heap[h.idx]
		o.orig = false
		o.fun = Num{L: linA(piAtom)}
	}
	h.mask = b.obj(p+".mask", &Obj{kind: kArr, ln: h.M, elemT: types.Typ[types.Bool], orig: true})
	hdr := func(part string, k bool) Val {
		mo := &Obj{kind: kMap, strKey: true, kP: triOf(k)}
		if hasOth && sp.others == "" {
			mo.oth = b.hdrElem()
		}
		if k {
			mo.kV = b.hdrElem()
		}
		if !k && !hasOth && sp.ownHdr {
			return b.hdrVal(MapV{Nil: Yes})
		}
		id := b.obj(p+"."+part, mo)
		if part == "shared" {
			h.shared = id
		} else {
			h.strhdr = id
		}
		return b.hdrVal(MapV{Objs: []ObjID{id}, Nil: No})
	}
	v := b.e.unknown(b.d.df)
	if z, ok := b.e.zero(nil, b.d.df, "").(Struct); ok {
		v = z
	}
	put := func(part string, x Val) { v = setPath(v, b.d.path[part], x) }
	for _, m := range mapParts {
		put(m, MapV{Objs: []ObjID{h.maps_[m]}, Nil: No})
	}
	put("idx", Slice{Arrs: []ObjID{h.idx}, Off: linC(0), Ln: h.N, Nil: No})
	put("mask", Slice{Arrs: []ObjID{h.mask}, Off: linC(0), Ln: h.M, Nil: No})
	put("shared", hdr("shared", sp.shareK))
	put("strhdr", hdr("strhdr", sp.kind == "string"))
	put("sharedMaps", Bool{T: triOf(sp.maps)})
	put("viewed", Bool{T: triOf(sp.viewed)})
	put("safe", Bool{T: sp.safe})
	put("enc", Iface{Nil: sp.encNil, T: p + ".enc"})
	cpu := "cpu:" + p
	atomLo[cpu] = 1
	b.s.assume(linA("ncpu"), 1, inf)
	b.s.assume(linAdd(linA("ncpu"), linA(cpu), -1), 0, inf)
	put("maxCPU", Num{L: linA(cpu)})
	h.cell = b.obj(p+".df", &Obj{kind: kCell, v: v})
	h.ptr = Ptr{Ts: []Loc{{Obj: h.cell}}, Nil: No}
	b.f[p] = h
	return h
}

// strs: a list of column names given by the caller
func (b *B) strs(has Tri, name string) Slice {
	n := b.sym("n:" + name)
	o := &Obj{kind: kArr, ln: n, elemT: types.Typ[types.String], orig: true, sp: has}
	if has != No {
		o.spV = Str{K: Yes}
	}
	b.s.assume(n, 1, inf)
	id := b.obj("u."+name, o)
	return Slice{Arrs: []ObjID{id}, Off: linC(0), Ln: n, Nil: No}
}

func (b *B) noStrs() Slice { return Slice{Nil: Yes, Off: linC(0), Ln: linC(0)} }

// list of frames: the special element at a position, the others summarised
func (b *B) ptrs(special, others Ptr, at int, name string) Slice {
	n := b.sym("n:" + name)
	o := &Obj{kind: kArr, ln: n, elemT: types.NewPointer(b.d.df), sp: Yes, spV: special, spAt: at}
	if len(others.Ts) > 0 {
		o.sum = others
	}
	lo := int64(1)
	if at == 2 {
		lo = 2
	}
	b.s.assume(n, lo, inf)
	id := b.obj("u."+name, o)
	return Slice{Arrs: []ObjID{id}, Off: linC(0), Ln: n, Nil: No}
}

// listOf: a list of given frames
func (b *B) listOf(elem types.Type, vs ...Val) Slice {
	n := linC(int64(len(vs)))
	id := b.obj("u.list", &Obj{kind: kArr, ln: n, elemT: elem, v: Struct{F: vs}})
	return Slice{Arrs: []ObjID{id}, Off: linC(0), Ln: n, Nil: No}
}

func (b *B) userSlice(name string, t types.Type, n *Lin) Slice {
	if n == nil {
		n = b.sym("n:" + name)
	}
	id := b.obj("u."+name, &Obj{kind: kArr, ln: n, elemT: t, orig: true})
	return Slice{Arrs: []ObjID{id}, Off: linC(0), Ln: n, Nil: No}
}

// vote: what must be true of some outcome
type vote struct {
	prop, rule, msg string
	no              int
}

// some: it is definitely not so in this outcome; alarm if in none
func (b *B) some(prop, rule, format string, args ...interface{}) {
	if b.votes == nil {
		b.votes = map[string]*vote{}
	}
	v := b.votes[prop+rule]
	if v == nil {
		v = &vote{prop: prop, rule: rule, msg: fmt.Sprintf(format, args...)}
		b.votes[prop+rule] = v
	}
	v.no++
}

func (b *B) num(name string) Num { return Num{L: linA("arg:" + name)} }

// Res is what a scenario ends with
type Res struct {
	*B
	s   *State
	ret []Val
	fn  *ssa.Function
	n   int // number of the outcome
}

type Scenario struct {
	name    string
	props   []string // properties it bears upon
	setup   func(b *B) (*ssa.Function, []Val)
	check   func(r *Res)
	returns string                                 // the property for which there must be an outcome
	when    string                                 // the situation, as part of the rule
	final   func(b *B, fn *ssa.Function, outs int) // once, after all the outcomes
	must    []must
	sc      Scn
}

// must: memory that has to be read or written on some path
type must struct {
	what      string // "r:role" or "w:role"
	prop, msg string
}

func resetGlobals() {
	objNames, objIdx = nil, map[string]ObjID{}
	atomTab = map[string]*atomInfo{}
	atomIDs, atomNames, atomHash = map[string]int32{}, nil, nil
	atomLo = map[string]int64{}
	lenSyms = nil
	origRange = map[ObjID]*Lin{}
}

type runStats struct {
	scenarios, outcomes, steps, calls int
	funcs                             map[*ssa.Function]bool
	blocks                            map[*ssa.BasicBlock]bool
	obl, dead, ext                    map[string]int
	giveUps                           []string
}

func newStats() *runStats {
	return &runStats{funcs: map[*ssa.Function]bool{}, blocks: map[*ssa.BasicBlock]bool{}, obl: map[string]int{}, dead: map[string]int{}, ext: map[string]int{}}
}

func (w *World) run(sn *Scenario, prop string, st *runStats, trace bool) []Alarm {
	return w.run1(sn, prop, st, trace, nil)
}

// run1: known are the loops that a first run found to collect results; such a
// loop may be left before that is known
func (w *World) run1(sn *Scenario, prop string, st *runStats, trace bool, known map[*ssa.BasicBlock]bool) []Alarm {
	resetGlobals()
	e := newEngine(w)
	e.rcKnown = known
	if *flSteps > 0 {
		e.maxSteps = *flSteps
	}
	e.trace = trace
	sc := sn.sc
	sc.name = sn.name
	if prop != "" {
		sc.props = map[string]bool{prop: true}
	}
	e.sc = &sc
	b := &B{e: e, s: newState(), w: w, d: w.shape(), sc: &sc, f: map[string]*FrameH{}}
	fn, args := sn.setup(b)
	outs := e.callFn(fn, nil, args, b.s, 0, nil)
	watch := map[string]int{}
	for _, r := range sc.frozen {
		watch[r.prop]++
	}
	for i, o := range outs {
		e.curS = o.st
		for p, n := range watch {
			if p != "" {
				e.obl[p+" storage watched on a path"] += n
			}
		}
		if len(o.st.unjoin) > 0 {
			for k := range o.st.unjoin {
				_ = k
				e.alarmAt("C09", "returns before its workers are done", w.posOf(fn.Pos())+" in "+fnName(fn), "%s can return while the workers it started are still running", fnName(fn))
			}
		}
		if sn.check != nil {
			sn.check(&Res{B: b, s: o.st, ret: o.ret, fn: fn, n: i})
		}
	}
	lost := e.giveUp > 0
	for k := range e.dead {
		lost = lost || strings.HasPrefix(k, "lost") || strings.HasPrefix(k, "undecided")
	}
	for _, m := range sn.must {
		e.oblige(m.prop + " storage reached")
		if !e.touched[m.what] && !lost && len(outs) > 0 {
			e.curS = nil
			e.alarmAt(m.prop, "never reached "+m.what, w.posOf(fn.Pos())+" in "+fnName(fn), "%s", m.msg)
		}
	}
	for _, v := range b.votes {
		if v.no == len(outs) && !lost {
			e.curS = nil
			e.alarmAt(v.prop, v.rule, w.posOf(fn.Pos())+" in "+fnName(fn), "%s", v.msg)
		}
	}
	if sn.final != nil && !lost {
		e.curS = nil
		sn.final(b, fn, len(outs))
	}
	if sn.returns != "" && !lost && len(outs) == 0 {
		e.curS = nil
		e.alarmAt(sn.returns, "never returns"+sn.when, w.posOf(fn.Pos())+" in "+fnName(fn), "%s never returns normally in this situation", fnName(fn))
	}
	if len(outs) == 0 {
		e.dead["scenario without outcome: "+sn.name]++
	}
	if known == nil && len(e.rcHeads) > 0 {
		for _, a := range e.alarms {
			if strings.Contains(a.rule, "before") {
				return w.run1(sn, prop, st, trace, e.rcHeads)
			}
		}
	}
	if st != nil {
		st.scenarios++
		st.outcomes += len(outs)
		st.steps += e.steps
		st.calls += e.calls
		for f := range e.funcs {
			st.funcs[f] = true
		}
		for f := range e.blocks {
			st.blocks[f] = true
		}
		for k, v := range e.obl {
			st.obl[k] += v
		}
		for k, v := range e.dead {
			st.dead[k] += v
		}
		for k, v := range e.extCalls {
			st.ext[k] += v
		}
		if e.giveUp > 0 {
			st.giveUps = append(st.giveUps, sn.name)
		}
	}
	var r []Alarm
	for _, a := range e.alarms {
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].key() < r[j].key() })
	return r
}

func fnName(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.RelString(nil), modPath+"/", "")
}

// alarmAt reports a problem that is not tied to one instruction
func (e *Engine) alarmAt(prop, rule, where, format string, args ...interface{}) {
	if e.sc == nil || !e.sc.wants(prop) {
		return
	}
	if e.tainted(prop, rule) {
		return
	}
	a := Alarm{prop: prop, rule: rule, where: where, msg: fmt.Sprintf(format, args...), scn: e.sc.name}
	if _, ok := e.alarms[a.key()]; !ok {
		e.alarms[a.key()] = a
	}
}

func (r *Res) bad(prop, rule, format string, args ...interface{}) {
	r.e.alarmAt(prop, rule, r.w.posOf(r.fn.Pos())+" in "+fnName(r.fn), format, args...)
}

// frames: the frame structs a value may point to
func (r *Res) frames(v Val) []Val {
	var out []Val
	switch p := v.(type) {
	case Ptr:
		for _, t := range p.Ts {
			if t.Elem {
				for _, x := range r.e.loadElem(r.s.clone(), t.Obj, t.Idx, nil, nil) {
					if w := getPath(x.v, t.Path); w != nil {
						out = append(out, w)
					}
				}
				continue
			}
			if o := r.s.heap[t.Obj]; o != nil && o.kind == kCell {
				if w := getPath(o.v, t.Path); w != nil {
					out = append(out, w)
				}
			}
		}
	case Slice:
		for _, a := range p.Arrs {
			o := r.s.heap[a]
			if o == nil {
				continue
			}
			for _, x := range []Val{o.sum, o.spV, o.fun, o.pfun} {
				if x != nil {
					out = append(out, r.frames(x)...)
				}
			}
		}
	}
	return out
}

func (r *Res) part(f Val, part string) Val { return getPath(f, r.d.path[part]) }

// mapOf: the map object of a part of the frame
func (r *Res) mapOf(f Val, part string) (*Obj, ObjID, bool) {
	v := r.part(f, part)
	if part == "shared" || part == "strhdr" {
		v = getPath(v, r.d.hdrPath)
	}
	m, ok := v.(MapV)
	if !ok {
		return nil, -1, false
	}
	if m.Nil == Yes {
		return nil, -1, true
	}
	if len(m.Objs) != 1 {
		return nil, -1, false
	}
	o := r.s.heap[m.Objs[0]]
	return o, m.Objs[0], o != nil
}

// hasK: does the map part of the frame hold κ?
func (r *Res) hasK(f Val, part string) Tri {
	v := r.part(f, part)
	if v == nil {
		return Maybe
	}
	if part == "shared" || part == "strhdr" {
		v = getPath(v, r.d.hdrPath)
	}
	m, ok := v.(MapV)
	if !ok {
		return Maybe
	}
	if m.Nil == Yes {
		return No
	}
	t := Tri(-1)
	for _, id := range m.Objs {
		o := r.s.heap[id]
		if o == nil {
			return Maybe
		}
		if t == -1 {
			t = o.kP
		} else {
			t = triJoin(t, o.kP)
		}
	}
	if t == -1 {
		return Maybe
	}
	return t
}

func (r *Res) role(id ObjID) string {
	if o := r.s.heap[id]; o != nil {
		return o.role
	}
	return ""
}

type Expect struct {
	src     *FrameH
	kept    bool   // κ must be there, of the same kind
	gone    bool   // κ must not be there
	kind    string // kind of κ in the result (default: that of the source)
	storage string // "shared", "copied"
	inplace bool
	meta    bool
	noShare bool // exempt from the sharing bookkeeping
	rows    string
	order   bool // rows of the source in the same order
}

// checkFrame checks a frame that derives from another one
func (r *Res) checkFrame(f Val, x Expect) {
	src := x.src
	kind := x.kind
	if kind == "" {
		kind = src.kind
	}
	what := "the result"
	if x.inplace {
		what = "the frame"
	}
	// columns (C07)
	if src.kind != "" || x.kind != "" {
		for _, m := range mapParts {
			has := r.hasK(f, m)
			switch {
			case x.kept && m == partOf(kind):
				r.e.oblige("C07 column kept with its kind")
				if has == No {
					r.bad("C07", "column lost "+kind, "%s lacks a %s column it should have", what, kind)
				}
			case x.kept || x.gone:
				r.e.oblige("C07 column absent from other kinds")
				if has == Yes {
					if x.gone {
						r.bad("C07", "column kept "+m, "%s still has a column (among its %s) that should be gone", what, m)
					} else {
						r.bad("C07", "kind changed "+kind, "%s has a %s column of the source among its %s", what, kind, m)
					}
				}
			}
		}
		if x.kept && partOf(kind) == "objects" {
			r.e.oblige("C07 string mark")
			has := r.hasK(f, "strhdr")
			if kind == "string" && has == No {
				r.bad("C07", "string mark lost", "%s does not know that the column holds strings", what)
			}
			if kind == "object" && has == Yes {
				r.bad("C07", "string mark invented", "%s takes an object column for strings", what)
			}
		}
		if x.gone && kind == "string" {
			r.e.oblige("C07 string mark")
			if r.hasK(f, "strhdr") == Yes {
				r.bad("C07", "string mark kept", "%s still marks a column that is gone as holding strings", what)
			}
		}
	}
	// storage
	var kcol Slice
	var okCol bool
	if o, _, ok := r.mapOf(f, partOf(kind)); ok && o != nil && kind != "" && o.kP == Yes {
		kcol, okCol = o.kV.(Slice)
	}
	srcCol := false
	onlySrc := okCol
	if okCol {
		for _, a := range kcol.Arrs {
			if a == src.col && src.col >= 0 {
				srcCol = true
			} else {
				onlySrc = false
			}
		}
		if len(kcol.Arrs) == 0 {
			onlySrc = false
		}
		switch x.storage {
		case "shared":
			r.e.oblige("C03 view storage shared")
			if !srcCol && src.col >= 0 && kcol.Nil != Yes {
				r.bad("C03", "view copies "+kind, "%s does not refer to the %s storage of the source: writes through one are not seen by the other", what, kind)
			}
		case "copied":
			r.e.oblige("C02 copy storage independent")
			if onlySrc {
				r.bad("C02", "copy aliases "+kind, "%s refers to the %s storage of the source: writes through one are seen by the other", what, kind)
			}
		}
	}
	r.checkShare(f, x, what, onlySrc, kind)
	r.checkShape(f, x, what, kcol, okCol)
	r.checkContent(f, x, what, kcol, okCol)
	if x.meta {
		r.checkMeta(f, x, what)
	}
}

// checkShare: structure shared with another frame is recorded as such (C01, C02)
func (r *Res) checkShare(f Val, x Expect, what string, onlySrc bool, kind string) {
	if x.noShare || x.inplace && !x.src.maps && !x.src.shareK {
		return
	}
	sm, ok := r.part(f, "sharedMaps").(Bool)
	if !ok {
		return
	}
	for _, m := range append([]string{"strhdr"}, mapParts...) {
		_, id, ok := r.mapOf(f, m)
		if !ok || id < 0 {
			continue
		}
		r.e.oblige("C01 structure sharing recorded")
		role := r.role(id)
		if role != "" && !strings.HasPrefix(role, "u.") && sm.T == No && !(x.inplace && !x.src.maps) {
			if m == "strhdr" {
				r.bad("C01", "shared string marks", "%s uses the string marks of the source as its own: structural changes of one alter the other", what)
			} else {
				r.bad("C01", "shared map "+m, "%s uses the %s of the source as its own: structural changes of one alter the other", what, m)
			}
		}
	}
	if _, id, ok := r.mapOf(f, "shared"); ok && id >= 0 && sm.T == No {
		r.e.oblige("C02 sharing record separate")
		if role := r.role(id); role != "" && !(x.inplace && !x.src.maps) {
			r.bad("C02", "shared record", "%s uses the source's own record of what is shared: detaching one makes the other believe it owns its columns", what)
		}
	}
	if onlySrc && sm.T == No && !(r.hasK(f, "shared") != No) {
		r.bad("C02", "sharing not recorded "+kind, "%s refers to a %s column of the source but does not record it as shared: it cannot be detached", what, kind)
	}
}

// checkShape: rows, masks and columns agree (C06, C05)
func (r *Res) checkShape(f Val, x Expect, what string, kcol Slice, okCol bool) {
	idx, ok := r.part(f, "idx").(Slice)
	if !ok {
		return
	}
	mask, okM := r.part(f, "mask").(Slice)
	if okM && mask.Ln != nil && idx.Ln != nil {
		r.e.oblige("C06 mask long enough")
		d := linAdd(mask.Ln, idx.Ln, -1)
		rg := r.s.rng(d)
		if rg.hi < 0 || rg.lo < 0 && exact(mask.Ln) && exact(idx.Ln) && !d.mentions(isIV) {
			r.bad("C06", "mask too short", "%s has %s rows and a mask buffer of %s", what, idx.Ln, mask.Ln)
		}
	}
	viewed, _ := r.part(f, "viewed").(Bool)
	// range of the row list
	var R *Lin
	identity := No
	if len(idx.Arrs) == 1 {
		if o := r.s.heap[idx.Arrs[0]]; o != nil && o.kind == kArr {
			if n, ok := o.fun.(Num); ok {
				R = n.R
				if R == nil && n.L != nil {
					R = loadRange(n.L)
				}
				if at, ok := singleAtom(n.L); ok && at == piAtom && idx.Off != nil && r.s.eq(idx.Off, linC(0)) {
					identity = Yes
					R = idx.Ln
				}
			} else if o.orig && !o.dirty {
				R = origRange[idx.Arrs[0]]
			} else if n, ok := o.sum.(Num); ok && o.fun == nil && !o.orig {
				R = n.R
				if R == nil && n.L != nil {
					R = loadRange(n.L)
				}
			}
		}
	}
	if okCol && kcol.Ln != nil && R != nil && exact(kcol.Ln) && exact(R) && !(kcol.Ln.isConst() && kcol.Ln.c == 0) {
		r.e.oblige("C06 rows inside the columns")
		if r.s.rng(linAdd(kcol.Ln, R, -1)).lo < 0 && r.s.isSym(R) && (r.s.isSym(kcol.Ln) || kcol.Ln.isConst()) && !argy(linAdd(kcol.Ln, R, -1)) {
			r.bad("C06", "rows outside the columns", "the row list of %s goes up to %s but its columns have %s elements", what, R, kcol.Ln)
		}
	}
	if viewed.T == No && len(idx.Arrs) > 0 {
		r.e.oblige("C06 whole frames list all rows in order")
		rows := false // a list of row numbers, not of positions
		if R != nil && r.e.sc.viewed {
			for _, p := range rangeParts(R) {
				at, _ := singleAtom(p)
				rows = rows || r.e.isRows(at)
			}
		}
		if identity == No && R != nil && !rows {
			r.bad("C06", "selection not flagged", "%s has a row list that may be a selection or a reordering, but it claims that its rows are its storage", what)
		}
		if okCol && kcol.Ln != nil && idx.Ln != nil && exact(kcol.Ln) && exact(idx.Ln) && identity == Yes && !(kcol.Ln.isConst() && kcol.Ln.c == 0) {
			d := linAdd(kcol.Ln, idx.Ln, -1)
			rg := r.s.rng(d)
			if (rg.lo > 0 || rg.hi < 0 || rg.lo != 0 || rg.hi != 0) && !argy(d) {
				r.bad("C06", "length mismatch", "%s has %s rows but a column of %s elements", what, idx.Ln, kcol.Ln)
			}
		}
	}
	_ = viewed
}

// argy: the form speaks of arguments given by the caller
func argy(l *Lin) bool {
	return l.mentions(func(a string) bool { return strings.HasPrefix(a, "arg:") || strings.HasPrefix(a, "n:") })
}

// checkMeta: settings follow the data (C08)
func (r *Res) checkMeta(f Val, x Expect, what string) {
	src := x.src
	if n, ok := r.part(f, "maxCPU").(Num); ok && n.L != nil {
		r.e.oblige("C08 max CPU kept")
		if !r.s.eq(n.L, linA("cpu:"+src.name)) && exact(n.L) {
			r.bad("C08", "max CPU lost", "%s does not use the maximum number of CPUs of the source", what)
		}
	}
	if i, ok := r.part(f, "enc").(Iface); ok {
		r.e.oblige("C08 text encoding kept")
		if src.encNil == No && (i.Nil == Yes || i.T != "" && i.T != src.name+".enc") {
			r.bad("C08", "text encoding lost", "%s does not have the text encoding of the source", what)
		}
	}
	if sb, ok := r.part(f, "safe").(Bool); ok && src.safe != Maybe {
		r.e.oblige("C08 thread-safe masking kept")
		if sb.T != Maybe && sb.T != src.safe {
			r.bad("C08", "thread-safe masking lost", "%s does not have the thread-safe masking setting of the source", what)
		}
	}
}

// checkContent: which cell of the source does a row of the result designate? (C05)
func (r *Res) checkContent(f Val, x Expect, what string, kcol Slice, okCol bool) {
	src := x.src
	idx, ok := r.part(f, "idx").(Slice)
	if !ok || !okCol || !src.viewed || src.col < 0 || len(idx.Arrs) != 1 || len(kcol.Arrs) != 1 || kcol.Off == nil {
		return
	}
	g, _ := r.e.contentFun(r.s, idx).(Num)
	// position in the column -> position in the storage of the source
	h := r.e.contentFun(r.s, kcol)
	if h == nil {
		return
	}
	arr, pos, ok := colLoad(r.s, h)
	if !ok || arr != src.col {
		return
	}
	if g.L == nil {
		// only the range of the list is known
		R := g.R
		if o := r.s.heap[idx.Arrs[0]]; R == nil && o != nil && !o.orig && o.fun == nil {
			if n, ok := o.sum.(Num); ok {
				R = n.R
				if R == nil && n.L != nil {
					R = loadRange(n.L)
				}
			}
		}
		if at, ok := singleAtom(pos); ok && at == piAtom && R != nil {
			r.e.oblige("C05 rows of the result traced to rows of the source")
			for _, p := range rangeParts(R) {
				if !r.s.eq(p, src.N) {
					continue
				}
				r.bad("C05", "row numbers taken for positions "+src.kind, "the row list of %s holds row numbers of the source (below %s) where positions in its storage are needed", what, R)
			}
		}
		return
	}
	P := pos.subst(func(a string) *Lin {
		if a == piAtom {
			return g.L
		}
		return nil
	})
	if P == nil {
		return
	}
	if idx.Ln == nil || r.s.rng(idx.Ln).hi <= 0 {
		return // no row
	}
	r.e.oblige("C05 rows of the result traced to rows of the source")
	row, ok := rowOf(r.s, P)
	if !ok {
		if c, _, aff := affinePi(P); aff && c != 0 {
			r.bad("C05", "row numbers taken for positions "+src.kind, "row i of %s designates position %s of the storage of the source, which is not the position of one of its rows (π stands for i)", what, P)
		}
		return
	}
	if x.order && !r.s.eq(row, linA(piAtom)) {
		if c, _, aff := affinePi(row); aff && c != 0 {
			r.bad("C05", "rows moved "+src.kind, "row i of %s holds the value of row %s of the source (π stands for i)", what, row)
		}
	}
}

// affinePi: the form is a·π+constant or a constant, possibly with lengths of the scenario
func affinePi(l *Lin) (int64, *Lin, bool) {
	if l == nil {
		return 0, nil, false
	}
	c := l.coef(piAtom)
	rest := linAdd(l, linMulC(linA(piAtom), c), -1)
	if rest == nil {
		return 0, nil, false
	}
	ok := true
	for _, a := range rest.atoms() {
		known := false
		for _, x := range lenSyms {
			known = known || x == a
		}
		ok = ok && known
	}
	return c, rest, ok
}
