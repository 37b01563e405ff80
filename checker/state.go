package main

// Abstract states: heap of allocation-site objects, call stack, numeric facts.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ObjID int

var objNames []string
var objIdx = map[string]ObjID{}

func mkObj(name string) ObjID {
	if i, ok := objIdx[name]; ok {
		return i
	}
	objNames = append(objNames, name)
	i := ObjID(len(objNames) - 1)
	objIdx[name] = i
	return i
}

func objName(o ObjID) string { return objNames[o] }

type okind int8

const (
	kCell okind = iota
	kArr
	kMap
	kIter
	kChan
	kExt
)

type Obj struct {
	kind    okind
	summary bool
	v       Val // cell content; ext: payload
	// arrays
	ln    *Lin
	elemT types.Type
	zero  bool // may hold zero values
	orig  bool // unknown initial content, named by its position
	sum   Val  // join of the values stored
	fun   Val  // content as a function of the position π (valid for all of it)
	sp    Tri  // holds the special element
	spV   Val
	spAt  int    // position of the special element: 0 unknown, 1 first, 2 not first
	app   bool   // filled by appending only
	spW   int8   // 1: the special element was stored in the current iteration
	dirty bool   // stored to since the scenario began
	pfun  Val    // same as fun, for the part stored so far by the current loop
	pIV   string // induction variable of that loop
	pC    *Lin   // position = induction variable + pC
	pbad  bool   // the loop stores in more than one way
	lastI *Lin   // where the last store went
	lastV Val    // and what it stored
	// maps
	strKey bool
	kP     Tri
	kV     Val
	oth    Val // join of the other values (nil: no other entry)
	// iterators
	over []ObjID
	vis  Tri
	// channels
	cap    *Lin
	closed bool
	cnt    int // number of special messages ever sent (saturates at 2)
	rcv    int // number of special messages received
	// ext
	st string
	ek string // kind of external object

	own  string // owner (goroutine) that allocated it, "" for the main flow
	role string // set by the scenario

	birth []birth // where the program was when it was created
	ks    string
}

type birth struct {
	ctx int
	b   *ssa.BasicBlock
}

func (o *Obj) clone() *Obj {
	c := *o
	c.ks = ""
	return &c
}

func vk(v Val) string {
	if v == nil {
		return "-"
	}
	return v.key()
}
func vd(v Val) string {
	if v == nil {
		return "-"
	}
	return v.disc()
}

func (o *Obj) key() string {
	if o.ks == "" {
		o.ks = fmt.Sprintf("%d%v%s|%s%v%v%s|%s|%s%v|%s%v|%s|%v%s%s|%v%v%s%v%d%d%s%s|%s", o.kind, o.summary, vk(o.v), o.ln.key(), o.zero, o.orig, vk(o.sum), vk(o.fun), fmt.Sprint(o.spAt, o.app, o.pIV, o.pC.key(), o.pbad), o.sp,
			vk(o.spV)+"/"+o.lastI.key()+vk(o.lastV), o.dirty, vk(o.pfun), o.kP, vk(o.kV), vk(o.oth), o.over, o.vis, o.cap.key(), o.closed, o.cnt, o.rcv, o.st, o.ek, o.own)
	}
	return o.ks
}

func (o *Obj) disc() string {
	switch o.kind {
	case kCell:
		return vd(o.v)
	case kArr:
		if o.v != nil {
			return fmt.Sprintf("%v%s%v%s", o.sp, vd(o.spV), o.dirty, vd(o.v))
		}
		return fmt.Sprintf("%v%s%v", o.sp, vd(o.spV), o.dirty)
	case kMap:
		return o.kP.String() + vd(o.kV)
	case kIter:
		return o.vis.String()
	case kChan:
		return fmt.Sprintf("%v%d%d%v", o.sp, o.cnt, o.rcv, o.closed)
	}
	return o.st + vd(o.v)
}

func (o *Obj) refs(f func(ObjID)) {
	for _, v := range []Val{o.v, o.sum, o.fun, o.spV, o.kV, o.oth, o.pfun, o.lastV} {
		if v != nil {
			refs(v, f)
		}
	}
	for _, x := range o.over {
		f(x)
	}
}

func (o *Obj) mapObjs(f func(ObjID) ObjID) *Obj {
	ch := false
	o.refs(func(x ObjID) {
		if f(x) != x {
			ch = true
		}
	})
	if !ch {
		return o
	}
	c := o.clone()
	for _, p := range []*Val{&c.v, &c.sum, &c.fun, &c.spV, &c.kV, &c.oth, &c.pfun, &c.lastV} {
		if *p != nil {
			*p = mapObjs(*p, f)
		}
	}
	ov := make([]ObjID, len(o.over))
	for i, x := range o.over {
		ov[i] = f(x)
	}
	c.over = ov
	return c
}

type fact struct {
	b *Lin // base form
	Itv
}

// factSet is an immutable list of facts ordered by the key of their form
type factSet []fact

func (fs factSet) get(h uint64) (fact, bool) {
	for i := range fs {
		if fs[i].b.h == h {
			return fs[i], true
		}
	}
	return fact{}, false
}

func (fs factSet) put(f fact) factSet {
	for i := range fs {
		if fs[i].b.h == f.b.h {
			if fs[i].Itv == f.Itv {
				return fs
			}
			r := append(factSet(nil), fs...)
			r[i] = f
			return r
		}
	}
	k := f.b.key()
	i := sort.Search(len(fs), func(i int) bool { return fs[i].b.key() > k })
	r := make(factSet, 0, len(fs)+1)
	r = append(r, fs[:i]...)
	r = append(r, f)
	return append(r, fs[i:]...)
}

func (fs factSet) filter(keep func(f fact) bool) factSet {
	n := 0
	for n < len(fs) && keep(fs[n]) {
		n++
	}
	if n == len(fs) {
		return fs
	}
	r := append(factSet(nil), fs[:n]...)
	for _, f := range fs[n+1:] {
		if keep(f) {
			r = append(r, f)
		}
	}
	return r
}

type deferEnt struct {
	ins  *ssa.Defer
	fn   Val
	args []Val
	many bool
}

func (d deferEnt) key() string {
	s := d.ins.String() + fmt.Sprint(d.ins.Pos())
	for _, a := range d.args {
		s += "," + vk(a)
	}
	return s
}

type Frame struct {
	fn     *ssa.Function
	ctx    int
	env    map[ssa.Value]Val
	bind   []Val
	defers []deferEnt
	unb    map[int]int64   // up to what number
	unr    map[int]int     // loops that are unrolled, and the iteration
	ivInit map[string]*Lin // initial values of the induction variables
	ivStep map[string]int  // 1: always incremented by one; 2: otherwise
	cur    *ssa.BasicBlock
}

func (f *Frame) clone() *Frame {
	c := *f
	c.env = make(map[ssa.Value]Val, len(f.env)+4)
	for k, v := range f.env {
		c.env[k] = v
	}
	c.defers = append([]deferEnt(nil), f.defers...)
	if f.unr != nil {
		c.unr = make(map[int]int, len(f.unr))
		for k, v := range f.unr {
			c.unr[k] = v
		}
	}
	c.ivInit = make(map[string]*Lin, len(f.ivInit))
	for k, v := range f.ivInit {
		c.ivInit[k] = v
	}
	c.ivStep = make(map[string]int, len(f.ivStep))
	for k, v := range f.ivStep {
		c.ivStep[k] = v
	}
	return &c
}

type gorInfo struct {
	id       string
	notified bool
	drained  bool // its last receive from the job queue found it exhausted
	recvd    bool // it received from a job queue at least once
	preObjs  map[ObjID]bool
	spawn    string // atoms of the loop that spawned it
	args     map[ObjID]bool
	jobK     Tri // current job: Yes tracked, No another, Maybe none
	taken    bool
	done     int    // calls of Done of a wait group
	wg       string // that group
	loopCtx  int    // where it was spawned
	loop     *loop  // the loop that spawns it (nil: only one worker)
	outer    *gorInfo
	depth    int
}

func (g *gorInfo) key() string {
	if g == nil {
		return ""
	}
	return fmt.Sprintf("%s%v%v%v%v%v%d", g.id, g.notified, g.drained, g.recvd, g.jobK, g.taken, g.done)
}

type State struct {
	heap    map[ObjID]*Obj
	frames  []*Frame
	facts   factSet
	batoms  map[string]bool
	visited map[string]int8
	inK     map[string]bool
	taint   string // why this path may not exist
	fault   string // site of the injected failure
	gor     *gorInfo
	unjoin  map[string]bool  // goroutine groups spawned and not joined
	gw      map[ObjID]string // objects written by goroutines that are not joined yet
	marks   map[string]string
	pins    []ObjID // objects of the scenario
}

func newState() *State {
	return &State{heap: map[ObjID]*Obj{}, batoms: map[string]bool{}, visited: map[string]int8{},
		inK: map[string]bool{}, unjoin: map[string]bool{}, gw: map[ObjID]string{}, marks: map[string]string{}}
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// clone copies the state; frames below the top are shared until popped
func (s *State) clone() *State {
	c := &State{fault: s.fault, pins: s.pins, taint: s.taint}
	c.heap = make(map[ObjID]*Obj, len(s.heap)+8)
	for k, v := range s.heap {
		c.heap[k] = v
	}
	c.frames = make([]*Frame, len(s.frames))
	copy(c.frames, s.frames)
	if n := len(c.frames); n > 0 {
		c.frames[n-1] = c.frames[n-1].clone()
	}
	c.facts = s.facts
	c.batoms = make(map[string]bool, len(s.batoms))
	for k, v := range s.batoms {
		c.batoms[k] = v
	}
	c.visited = make(map[string]int8, len(s.visited))
	for k, v := range s.visited {
		c.visited[k] = v
	}
	c.inK = make(map[string]bool, len(s.inK))
	for k, v := range s.inK {
		c.inK[k] = v
	}
	c.unjoin = make(map[string]bool, len(s.unjoin))
	for k, v := range s.unjoin {
		c.unjoin[k] = v
	}
	c.gw = make(map[ObjID]string, len(s.gw))
	for k, v := range s.gw {
		c.gw[k] = v
	}
	c.marks = make(map[string]string, len(s.marks))
	for k, v := range s.marks {
		c.marks[k] = v
	}
	if s.gor != nil {
		g := *s.gor
		c.gor = &g
	}
	return c
}

func (s *State) set(id ObjID, o *Obj) { s.heap[id] = o }

// ---- numeric facts

var atomLo = map[string]int64{} // inherent lower bounds (lengths, cpu counts)

func (s *State) atomItv(a int32) Itv {
	r := itvTop()
	if lo, ok := atomLo[atomNames[a]]; ok {
		r.lo = lo
	}
	if f, ok := s.facts.get(atomHash[a]); ok {
		if f.lo > r.lo {
			r.lo = f.lo
		}
		if f.hi < r.hi {
			r.hi = f.hi
		}
	}
	return r
}

func (s *State) rng1(l *Lin) Itv {
	if l == nil {
		return itvTop()
	}
	if len(l.t) == 0 {
		return Itv{l.c, l.c}
	}
	// sum of the atoms
	r := Itv{l.c, l.c}
	for _, t := range l.t {
		c := t.c
		i := s.atomItv(t.a)
		lo, hi := i.lo, i.hi
		if c < 0 {
			lo, hi = hi, lo
		}
		if lo <= -inf || lo >= inf {
			r.lo = -inf
		} else if r.lo > -inf {
			r.lo += lo * c
		}
		if hi <= -inf || hi >= inf {
			r.hi = inf
		} else if r.hi < inf {
			r.hi += hi * c
		}
	}
	if len(l.t) == 1 && (l.t[0].c == 1 || l.t[0].c == -1) {
		return r
	}
	k, sign := l.baseHash()
	if f, ok := s.facts.get(k); ok {
		lo, hi := f.lo, f.hi
		if sign < 0 {
			lo, hi = -hi, -lo
		}
		if lo > -inf && lo+l.c > r.lo {
			r.lo = lo + l.c
		}
		if hi < inf && hi+l.c < r.hi {
			r.hi = hi + l.c
		}
	}
	return r
}

// lower bound of l, combining up to depth facts
func (s *State) lower(l *Lin, depth int) int64 {
	best := s.rng1(l).lo
	if depth == 0 || l == nil || len(l.t) == 0 || best >= 0 {
		return best
	}
	for _, f := range s.facts {
		if !shareTerm(f.b, l) {
			continue
		}
		if f.lo > -inf { // b - lo >= 0
			if l2 := linAddMax(l, f.b, -1, min(8, len(l.t)+1)); l2 != nil {
				l2.c += f.lo
				if x := s.lower(l2, depth-1); x > best {
					best = x
				}
			}
		}
		if f.hi < inf { // hi - b >= 0
			if l2 := linAddMax(l, f.b, 1, min(8, len(l.t)+1)); l2 != nil {
				l2.c -= f.hi
				if x := s.lower(l2, depth-1); x > best {
					best = x
				}
			}
		}
		if best >= 0 {
			return best
		}
	}
	return best
}

func shareTerm(a, b *Lin) bool {
	i, j := 0, 0
	for i < len(a.t) && j < len(b.t) {
		switch {
		case a.t[i].a < b.t[j].a:
			i++
		case a.t[i].a > b.t[j].a:
			j++
		default:
			return true
		}
	}
	return false
}

func (s *State) rng(l *Lin) Itv {
	r := s.rng1(l)
	if l == nil {
		return r
	}
	if r.lo < 0 {
		if x := s.lower(l, 2); x > r.lo {
			r.lo = x
		}
	}
	if r.hi > 0 {
		if x := s.lower(linMulC(l, -1), 2); x > -inf && -x < r.hi {
			r.hi = -x
		}
	}
	return r
}

func (s *State) provesGE0(l *Lin) bool { return l != nil && s.rng(l).lo >= 0 }

// divide: quotient and rest of the division of a by b, both of them not
// negative, where they follow from the ranges
func (s *State) divide(a, b *Lin) (q, r *Lin, ok bool) {
	if a.isConst() && b.isConst() && b.c != 0 {
		return linC(a.c / b.c), linC(a.c % b.c), true
	}
	if s.rng(b).lo < 1 || s.rng(a).lo < 0 {
		return nil, nil, false
	}
	if b.isConst() {
		// a = b·q + c with 0 <= c < b
		c := a.c % b.c
		if c < 0 {
			c += b.c
		}
		q = linC((a.c - c) / b.c)
		for _, at := range a.atoms() {
			k := a.coef(at)
			if k%b.c != 0 {
				return nil, nil, false
			}
			q = linAdd(q, linMulC(linA(at), k/b.c), 1)
			if q == nil {
				return nil, nil, false
			}
		}
		return q, linC(c), true
	}
	if a.isConst() && a.c == 0 {
		return linC(0), linC(0), true
	}
	for k := int64(0); k <= 4; k++ {
		r = linAdd(a, linMulC(b, k), -1)
		if r == nil {
			return nil, nil, false
		}
		if s.rng(r).lo < 0 {
			return nil, nil, false
		}
		if s.rng(linAdd(r, b, -1)).hi < 0 {
			return linC(k), r, true
		}
	}
	return nil, nil, false
}

// assume l in [lo,hi]; false if contradictory
func (s *State) assume(l *Lin, lo, hi int64) bool {
	if l == nil {
		return true
	}
	r := s.rng(l)
	if r.lo > hi || r.hi < lo {
		return false
	}
	if len(l.t) == 0 {
		return true
	}
	k, sign, b := l.base()
	flo, fhi := clampInf(lo-l.c), clampInf(hi-l.c)
	if lo <= -inf {
		flo = -inf
	}
	if hi >= inf {
		fhi = inf
	}
	if sign < 0 {
		flo, fhi = -fhi, -flo
	}
	f, ok := s.facts.get(k)
	if !ok {
		f = fact{b, itvTop()}
	}
	if flo > f.lo {
		f.lo = flo
	}
	if fhi < f.hi {
		f.hi = fhi
	}
	if f.lo > f.hi {
		return false
	}
	s.facts = s.facts.put(f)
	return true
}

// eq reports whether two forms are known to be equal
func (s *State) eq(a, b *Lin) bool {
	if a == nil || b == nil {
		return false
	}
	if linSame(a, b) {
		return true
	}
	r := s.rng(linAdd(a, b, -1))
	return r.lo == 0 && r.hi == 0
}

func (s *State) forgetAtoms(p func(string) bool) {
	s.facts = s.facts.filter(func(f fact) bool { return !f.b.mentions(p) })
	for k := range s.batoms {
		if atomMentions(k, p) {
			delete(s.batoms, k)
		}
	}
}

// dropAtoms replaces every occurrence of the atoms by unknowns
func (s *State) dropAtoms(p func(string) bool) {
	s.forgetAtoms(p)
	ment := func(v Val) bool { return valMentions(v, p) }
	kill := func(v Val) Val { return killAtoms(v, p) }
	s.mapVals(func(v Val) (Val, bool) {
		if ment(v) {
			return kill(v), true
		}
		return v, false
	})
	s.mapLins(func(l *Lin) *Lin {
		if l.mentions(p) {
			return nil
		}
		return l
	})
}

// mapVals rewrites every value of the stack and of the heap
func (s *State) mapVals(f func(Val) (Val, bool)) {
	for i, fr := range s.frames {
		var nf *Frame
		for k, v := range fr.env {
			if v == nil {
				continue
			}
			if w, ch := f(v); ch {
				if nf == nil {
					nf = fr.clone()
				}
				nf.env[k] = w
			}
		}
		for j, d := range fr.defers {
			for k, a := range d.args {
				if a == nil {
					continue
				}
				if w, ch := f(a); ch {
					if nf == nil {
						nf = fr.clone()
					}
					na := append([]Val(nil), nf.defers[j].args...)
					na[k] = w
					nf.defers[j].args = na
				}
			}
		}
		for k, b := range fr.bind {
			if w, ch := f(b); ch {
				if nf == nil {
					nf = fr.clone()
				}
				nb := append([]Val(nil), nf.bind...)
				nb[k] = w
				nf.bind = nb
			}
		}
		if nf != nil {
			s.frames[i] = nf
		}
	}
	for id, o := range s.heap {
		var c *Obj
		for n := 0; n < 8; n++ {
			v := *o.val(n)
			if v == nil {
				continue
			}
			if w, ch := f(v); ch {
				if c == nil {
					c = o.clone()
				}
				*c.val(n) = w
				if n == 2 && w != nil {
					// a functional content that lost its meaning is no content
					if _, unk := w.(Unk); unk {
						c.fun = nil
					}
				}
			}
		}
		if c != nil {
			s.heap[id] = c
		}
	}
}

func (s *State) mapLins(f func(*Lin) *Lin) {
	for id, o := range s.heap {
		a, b, l := o.ln, o.cap, o.lastI
		if a != nil {
			a = f(a)
		}
		if b != nil {
			b = f(b)
		}
		if l != nil {
			l = f(l)
		}
		if a != o.ln || b != o.cap || l != o.lastI {
			c := o.clone()
			c.ln, c.cap, c.lastI = a, b, l
			s.heap[id] = c
		}
	}
}

func (o *Obj) val(n int) *Val {
	switch n {
	case 0:
		return &o.v
	case 1:
		return &o.sum
	case 2:
		return &o.fun
	case 3:
		return &o.spV
	case 4:
		return &o.kV
	case 5:
		return &o.oth
	case 6:
		return &o.pfun
	}
	return &o.lastV
}

func valMentions(v Val, p func(string) bool) bool {
	switch x := v.(type) {
	case Num:
		return x.L.mentions(p) || x.R.mentions(p)
	case Sc:
		return x.T != "" && atomMentions(x.T, p)
	case Str:
		return x.T != "" && atomMentions(x.T, p)
	case Iface:
		return x.T != "" && atomMentions(x.T, p) || x.Dyn != nil && valMentions(x.Dyn, p)
	case Bool:
		return x.C != nil && (x.C.L.mentions(p) || x.C.atom != "" && atomMentions(x.C.atom, p))
	case Slice:
		return x.Off.mentions(p) || x.Ln.mentions(p)
	case Ptr:
		for _, t := range x.Ts {
			if t.Idx.L.mentions(p) || t.Idx.R.mentions(p) {
				return true
			}
		}
	case Struct:
		for _, f := range x.F {
			if valMentions(f, p) {
				return true
			}
		}
	case Tuple:
		for _, f := range x.F {
			if valMentions(f, p) {
				return true
			}
		}
	case FnV:
		for _, c := range x.Cs {
			for _, b := range c.Bind {
				if valMentions(b, p) {
					return true
				}
			}
		}
	}
	return false
}

func killAtoms(v Val, p func(string) bool) Val {
	kl := func(l *Lin) *Lin {
		if l.mentions(p) {
			return nil
		}
		return l
	}
	kt := func(t string) string {
		if t != "" && atomMentions(t, p) {
			return ""
		}
		return t
	}
	switch x := v.(type) {
	case Num:
		if x.R == nil && x.L != nil && x.L.mentions(p) {
			if r := loadRange(x.L); r != nil && !r.mentions(p) {
				x.R = r
			}
		}
		x.L, x.R = kl(x.L), kl(x.R)
		return x
	case Sc:
		x.T = kt(x.T)
		return x
	case Str:
		x.T = kt(x.T)
		return x
	case Iface:
		x.T = kt(x.T)
		if x.Dyn != nil {
			x.Dyn = killAtoms(x.Dyn, p)
		}
		return x
	case Bool:
		if valMentions(x, p) {
			x.C = nil
		}
		return x
	case Slice:
		x.Off, x.Ln = kl(x.Off), kl(x.Ln)
		return x
	case Ptr:
		ts := make([]Loc, len(x.Ts))
		for i, t := range x.Ts {
			t.Idx.L, t.Idx.R = kl(t.Idx.L), kl(t.Idx.R)
			ts[i] = t
		}
		x.Ts = ts
		return x
	case Struct:
		fs := make([]Val, len(x.F))
		for i := range fs {
			fs[i] = killAtoms(x.F[i], p)
		}
		return Struct{fs}
	case Tuple:
		fs := make([]Val, len(x.F))
		for i := range fs {
			fs[i] = killAtoms(x.F[i], p)
		}
		return Tuple{fs}
	case FnV:
		cs := make([]Clo, len(x.Cs))
		for i, c := range x.Cs {
			b := make([]Val, len(c.Bind))
			for j := range b {
				b[j] = killAtoms(c.Bind[j], p)
			}
			cs[i] = Clo{c.Fn, b}
		}
		return FnV{cs}
	}
	return v
}

// origRange: range swept by the elements of arrays with unknown content
var origRange = map[ObjID]*Lin{}

// loadRange returns the range of a form that is a single array element
// maxRange: the range of a number that sweeps one range or another
func maxRange(a, b *Lin) *Lin {
	if a == nil || b == nil {
		return nil
	}
	m := map[string]*Lin{}
	for _, p := range append(rangeParts(a), rangeParts(b)...) {
		if at, ok := singleAtom(p); !ok || !isLenSym(at) {
			return nil
		}
		m[p.key()] = p
	}
	if len(m) > 3 {
		return nil
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var args []*Lin
	for _, k := range ks {
		args = append(args, m[k])
	}
	if len(args) == 1 {
		return args[0]
	}
	return linA(fnAtom("max", args...))
}

func isLenSym(a string) bool {
	for _, x := range lenSyms {
		if x == a {
			return true
		}
	}
	return false
}

func rangeParts(r *Lin) []*Lin {
	if at, ok := singleAtom(r); ok {
		if i := atomTab[at]; i != nil && i.kind == "fn" && i.fn == "max" {
			return i.args
		}
	}
	return []*Lin{r}
}

func loadRange(l *Lin) *Lin {
	if l == nil || l.c != 0 || len(l.t) != 1 {
		return nil
	}
	for _, t := range l.t {
		if t.c != 1 {
			return nil
		}
		if i := atomTab[atomNames[t.a]]; i != nil && i.kind == "ld" {
			return origRange[i.arr]
		}
	}
	return nil
}

// ---- garbage collection

func (s *State) gc(roots []ObjID) {
	live := map[ObjID]bool{}
	var work []ObjID
	add := func(o ObjID) {
		if !live[o] {
			live[o] = true
			work = append(work, o)
		}
	}
	for _, r := range roots {
		add(r)
	}
	for _, r := range s.pins {
		add(r)
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			if v != nil {
				refs(v, add)
			}
		}
		for _, v := range f.bind {
			refs(v, add)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				if a != nil {
					refs(a, add)
				}
			}
			if d.fn != nil {
				refs(d.fn, add)
			}
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if ob := s.heap[o]; ob != nil {
			ob.refs(add)
		}
	}
	for id, o := range s.heap {
		if !live[id] && o.ek != "file" && o.ek != "wg" && o.ek != "csvw" && o.kind != kChan {
			delete(s.heap, id)
		}
	}
}

// rename merges object a into object b (summary) and redirects references
func (s *State) fold(a, b ObjID, where string) {
	f := func(o ObjID) ObjID {
		if o == a {
			return b
		}
		return o
	}
	oa := s.heap[a]
	ob := s.heap[b]
	delete(s.heap, a)
	for id, o := range s.heap {
		s.heap[id] = o.mapObjs(f)
	}
	oa = oa.mapObjs(f)
	if ob == nil {
		c := oa.clone()
		c.summary = true
		if c.kind == kArr {
			c.v = nil
		}
		s.heap[b] = c
	} else {
		m := joinObj(s.heap[b], oa, s, s, s, where+objName(b))
		m.summary = true
		if m.kind == kArr {
			m.v = nil
		}
		s.heap[b] = m
	}
	for i, fr := range s.frames {
		var nf *Frame
		for k, v := range fr.env {
			if v == nil {
				continue
			}
			hit := false
			refs(v, func(o ObjID) { hit = hit || o == a })
			if hit {
				if nf == nil {
					nf = fr.clone()
				}
				nf.env[k] = mapObjs(v, f)
			}
		}
		for j, d := range fr.defers {
			hit := false
			for _, v := range d.args {
				if v != nil {
					refs(v, func(o ObjID) { hit = hit || o == a })
				}
			}
			if hit {
				if nf == nil {
					nf = fr.clone()
				}
				na := make([]Val, len(d.args))
				for k, v := range d.args {
					if v != nil {
						na[k] = mapObjs(v, f)
					}
				}
				nf.defers[j].args = na
			}
		}
		if nf != nil {
			s.frames[i] = nf
		}
	}
	if g, ok := s.gw[a]; ok {
		s.gw[b] = g
		delete(s.gw, a)
	}
}

// ---- join

// lenSyms are the lengths named by the scenario
var lenSyms []string

func joinLin(a, b *Lin, sa, sb, out *State, where string) *Lin {
	if a == nil || b == nil {
		return nil
	}
	if linSame(a, b) {
		return a
	}
	if sa.eq(a, b) {
		return b
	}
	if sb.eq(a, b) {
		return a
	}
	if len(where) > 160 {
		return nil
	}
	sym := "j:" + where
	l := linA(sym)
	ra, rb := sa.rng(a), sb.rng(b)
	r := Itv{ra.lo, ra.hi}
	if rb.lo < r.lo {
		r.lo = rb.lo
	}
	if rb.hi > r.hi {
		r.hi = rb.hi
	}
	// drop whatever was known of the symbol
	out.forgetAtoms(func(x string) bool { return x == sym })
	if r.lo > -inf || r.hi < inf {
		out.facts = out.facts.put(fact{l, r})
	}
	// keep relations to the lengths both sides are related to
	for _, n := range relAtoms(a, b) {
		da, db := sa.rng1(linAdd(a, linA(n), -1)), sb.rng1(linAdd(b, linA(n), -1))
		q := Itv{min64(da.lo, db.lo), max64(da.hi, db.hi)}
		if q.lo > -inf || q.hi < inf {
			out.assume(linAdd(l, linA(n), -1), q.lo, q.hi)
		}
	}
	return l
}

func relAtoms(a, b *Lin) []string {
	m := map[string]bool{}
	for _, x := range a.t {
		m[atomNames[x.a]] = true
	}
	for _, x := range b.t {
		m[atomNames[x.a]] = true
	}
	for _, x := range lenSyms {
		m[x] = true
	}
	r := []string{}
	for x := range m {
		if !strings.HasPrefix(x, "j:") {
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return r
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func joinIDs(a, b []ObjID) []ObjID {
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
			}
		}
		if same {
			return a
		}
	}
	m := map[ObjID]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	r := []ObjID{}
	for x := range m {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func joinVal(a, b Val, sa, sb, out *State, where string) Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.key() == b.key() {
		return a
	}
	d := depsJoin(valDeps(a), valDeps(b))
	switch x := a.(type) {
	case Num:
		if y, ok := b.(Num); ok {
			var r *Lin
			rx, ry := x.R, y.R
			if rx == nil {
				rx = loadRange(x.L)
			}
			if ry == nil {
				ry = loadRange(y.L)
			}
			if linEq(rx, ry) {
				r = rx
			} else {
				r = maxRange(rx, ry)
				if r == nil && rx == nil && x.L.isConst() && x.L.c >= 0 {
					r = ry
				} else if r == nil && ry == nil && y.L.isConst() && y.L.c >= 0 {
					r = rx
				}
			}
			return Num{L: joinLin(x.L, y.L, sa, sb, out, where), R: r, D: d}
		}
	case Bool:
		if y, ok := b.(Bool); ok {
			if x.T == y.T && x.T != Maybe {
				return Bool{T: x.T, D: d}
			}
			if x.T == y.T && x.C.key() == y.C.key() {
				return Bool{T: x.T, C: x.C, D: d}
			}
			return Bool{T: Maybe, D: d}
		}
	case Str:
		if y, ok := b.(Str); ok {
			r := Str{K: triJoin(x.K, y.K), D: d}
			if x.Is && y.Is && x.Lit == y.Lit {
				r.Is, r.Lit = true, x.Lit
			}
			if x.T == y.T {
				r.T = x.T
			}
			return r
		}
	case Sc:
		if y, ok := b.(Sc); ok {
			r := Sc{D: d}
			if x.T == y.T {
				r.T = x.T
			}
			return r
		}
	case Ptr:
		if y, ok := b.(Ptr); ok {
			if x.Nil == Yes {
				y.Nil = triJoin(Yes, y.Nil)
				return y
			}
			if y.Nil == Yes {
				x.Nil = triJoin(Yes, x.Nil)
				return x
			}
			m := map[string]bool{}
			r := Ptr{Nil: triJoin(x.Nil, y.Nil)}
			for _, t := range append(append([]Loc(nil), x.Ts...), y.Ts...) {
				if !m[t.key()] {
					m[t.key()] = true
					r.Ts = append(r.Ts, t)
				}
			}
			if len(r.Ts) > 16 {
				return Unk{d}
			}
			sort.Slice(r.Ts, func(i, j int) bool { return r.Ts[i].key() < r.Ts[j].key() })
			return r
		}
	case Slice:
		if y, ok := b.(Slice); ok {
			if x.Nil == Yes {
				if y.Nil != Yes {
					y.Ln = joinLin(linC(0), y.Ln, sa, sb, out, where+".n")
				}
				y.Nil = triJoin(Yes, y.Nil)
				return y
			}
			if y.Nil == Yes {
				x.Nil = triJoin(Yes, x.Nil)
				x.Ln = joinLin(x.Ln, linC(0), sa, sb, out, where+".n")
				return x
			}
			return Slice{Arrs: joinIDs(x.Arrs, y.Arrs), Off: joinLin(x.Off, y.Off, sa, sb, out, where+".o"),
				Ln: joinLin(x.Ln, y.Ln, sa, sb, out, where+".n"), Nil: triJoin(x.Nil, y.Nil)}
		}
	case MapV:
		if y, ok := b.(MapV); ok {
			return MapV{joinIDs(x.Objs, y.Objs), triJoin(x.Nil, y.Nil)}
		}
	case ExtV:
		if y, ok := b.(ExtV); ok {
			return ExtV{joinIDs(x.Objs, y.Objs)}
		}
	case Struct:
		if y, ok := b.(Struct); ok && len(x.F) == len(y.F) {
			fs := make([]Val, len(x.F))
			for i := range fs {
				fs[i] = joinVal(x.F[i], y.F[i], sa, sb, out, fmt.Sprintf("%s.%d", where, i))
			}
			return Struct{fs}
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x.F) == len(y.F) {
			fs := make([]Val, len(x.F))
			for i := range fs {
				fs[i] = joinVal(x.F[i], y.F[i], sa, sb, out, fmt.Sprintf("%s.%d", where, i))
			}
			return Tuple{fs}
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			r := Iface{Nil: triJoin(x.Nil, y.Nil), D: d}
			if x.T == y.T {
				r.T = x.T
			}
			if x.Tag == y.Tag {
				r.Tag = x.Tag
			} else if x.Nil == Yes {
				r.Tag = y.Tag
			} else if y.Nil == Yes {
				r.Tag = x.Tag
			}
			if x.Nil == Yes {
				r.Dyn, r.Typ = y.Dyn, y.Typ
			} else if y.Nil == Yes {
				r.Dyn, r.Typ = x.Dyn, x.Typ
			} else if x.Typ != nil && y.Typ != nil && types.Identical(x.Typ, y.Typ) {
				r.Typ = x.Typ
				if x.Dyn != nil && y.Dyn != nil {
					r.Dyn = joinVal(x.Dyn, y.Dyn, sa, sb, out, where+".d")
				}
			} else if x.Dyn != nil || y.Dyn != nil {
				r.Dyn = nil
				r.Typ = nil
			}
			return r
		}
	case FnV:
		if y, ok := b.(FnV); ok {
			if len(x.Cs)+len(y.Cs) > 6 {
				return Unk{d}
			}
			m := map[string]bool{}
			r := FnV{}
			for _, c := range append(append([]Clo(nil), x.Cs...), y.Cs...) {
				k := FnV{[]Clo{c}}.key()
				if !m[k] {
					m[k] = true
					r.Cs = append(r.Cs, c)
				}
			}
			return r
		}
	}
	return Unk{d}
}

// noElem: an array that certainly has no element
func (o *Obj) noElem(s *State) bool {
	return o.kind == kArr && o.ln != nil && o.fun == nil && o.sum == nil && o.sp == No && o.v == nil && s.rng(o.ln).hi <= 0
}

func joinObj(a, b *Obj, sa, sb, out *State, where string) *Obj {
	if a.key() == b.key() {
		return a
	}
	c := a.clone()
	c.summary = a.summary || b.summary
	j := func(x, y Val, f string) Val {
		if x == nil && y == nil {
			return nil
		}
		return joinVal(x, y, sa, sb, out, where+f)
	}
	if a.kind != b.kind {
		return &Obj{kind: kCell, v: Unk{}, summary: true}
	}
	c.v = j(a.v, b.v, ".v")
	switch a.kind {
	case kArr:
		c.ln = joinLin(a.ln, b.ln, sa, sb, out, where+".ln")
		c.zero = a.zero || b.zero
		c.orig = a.orig || b.orig
		c.sum = j(a.sum, b.sum, ".s")
		c.fun = nil
		if a.fun != nil && b.fun != nil && a.fun.key() == b.fun.key() {
			c.fun = a.fun
		} else if a.fun != nil && b.noElem(sb) {
			c.fun, c.sum, c.zero, c.orig = a.fun, a.sum, a.zero, a.orig
		} else if b.fun != nil && a.noElem(sa) {
			c.fun, c.sum, c.zero, c.orig = b.fun, b.sum, b.zero, b.orig
		} else if a.fun != nil || b.fun != nil {
			// the functional content of either becomes part of the summary
			if a.fun != nil {
				c.sum = j(c.sum, unPi(a.fun), ".f")
			}
			if b.fun != nil {
				c.sum = j(c.sum, unPi(b.fun), ".f")
			}
		}
		c.pfun, c.pIV, c.pC, c.pbad = a.pfun, a.pIV, a.pC, a.pbad || b.pbad
		if a.pfun == nil {
			c.pfun, c.pIV, c.pC = b.pfun, b.pIV, b.pC
		} else if b.pfun != nil && (a.pfun.key() != b.pfun.key() || a.pIV != b.pIV || a.pC.key() != b.pC.key()) {
			c.pfun, c.pIV, c.pC, c.pbad = nil, "", nil, true
		}
		if a.lastI != nil && b.lastI != nil && a.lastI.key() == b.lastI.key() && a.lastV != nil && b.lastV != nil {
			c.lastV = j(a.lastV, b.lastV, ".l")
		} else {
			c.lastI, c.lastV = nil, nil
		}
		c.v = nil
		if x, ok := a.v.(Struct); ok {
			if y, ok := b.v.(Struct); ok && len(x.F) == len(y.F) {
				same := true // the special element is at the same place
				for i := range x.F {
					same = same && (a.sp == No && b.sp == No || x.F[i] != nil && y.F[i] != nil && sa.special(x.F[i]) == sb.special(y.F[i]))
				}
				if same {
					c.v = j(x, y, ".els")
				}
			}
		}
		if a.spAt != b.spAt {
			c.spAt = 0
		}
		c.sp = triJoin(a.sp, b.sp)
		c.app = a.app && b.app
		c.spV = j(a.spV, b.spV, ".sp")
		c.dirty = a.dirty || b.dirty
	case kMap:
		c.kP = triJoin(a.kP, b.kP)
		c.kV = j(a.kV, b.kV, ".k")
		c.oth = j(a.oth, b.oth, ".o")
	case kIter:
		c.vis = triJoin(a.vis, b.vis)
		c.over = joinIDs(a.over, b.over)
	case kChan:
		c.cap = joinLin(a.cap, b.cap, sa, sb, out, where+".cap")
		c.closed = a.closed && b.closed
		c.sp = triJoin(a.sp, b.sp)
		c.spV = j(a.spV, b.spV, ".sp")
		c.oth = j(a.oth, b.oth, ".o")
		if b.cnt > c.cnt {
			c.cnt = b.cnt
		}
		if b.rcv < c.rcv {
			c.rcv = b.rcv
		}
	case kExt:
		if a.st != b.st {
			c.st = "?" + a.st + "|" + b.st
			if len(c.st) > 40 {
				c.st = "?"
			}
		}
	}
	return c
}

// unPi forgets which position a functional content refers to
func unPi(v Val) Val {
	return killAtoms(v, func(a string) bool { return a == piAtom })
}

func (s *State) sig(coarse bool) string {
	var sb strings.Builder
	if !coarse {
		for _, f := range s.frames {
			ks := make([]string, 0, len(f.env))
			for k, v := range f.env {
				if v == nil {
					continue
				}
				d := v.disc()
				if d == "n" || d == "c" || d == "U" {
					continue
				}
				ks = append(ks, k.Name()+"="+d)
			}
			sort.Strings(ks)
			sb.WriteString(strings.Join(ks, ","))
			fmt.Fprintf(&sb, "/%d;", len(f.defers))
		}
	} else {
		for _, f := range s.frames {
			ks := make([]string, 0, len(f.env))
			for k, v := range f.env {
				if x, ok := v.(Str); ok && x.K != Maybe {
					ks = append(ks, k.Name()+"="+x.disc())
				}
				if x, ok := v.(Iface); ok {
					ks = append(ks, k.Name()+"="+x.disc())
				}
			}
			sort.Strings(ks)
			sb.WriteString(strings.Join(ks, ","))
		}
	}
	for _, id := range s.order() {
		o := s.heap[id]
		if coarse && o.kind != kMap && o.kind != kIter && o.kind != kChan && o.kind != kExt {
			continue
		}
		if o.summary && o.kind == kCell || o.kind == kArr && o.role == "" && o.sp == No {
			if b, ok := o.fun.(Bool); ok && b.T == Yes {
				sb.WriteString("all;")
			}
			continue
		}
		d := o.disc()
		if d == "n" || d == "c" || d == "U" {
			continue
		}
		if s.renamable(id, o) {
			fmt.Fprintf(&sb, "%d~%s;", o.kind, d)
		} else {
			fmt.Fprintf(&sb, "%d:%s;", id, d)
		}
	}
	for _, f := range s.frames {
		for _, d := range f.defers {
			fmt.Fprintf(&sb, "D%d", d.ins.Pos())
			for _, a := range d.args {
				sb.WriteString(vd(a))
			}
		}
		if len(f.unr) > 0 {
			fmt.Fprintf(&sb, "U%v", f.unr)
			for _, k := range sortedInts(f.unr) {
				fmt.Fprintf(&sb, "<%d", f.unb[k])
			}
			sb.WriteByte(';')
		}
	}
	vs := []string{}
	for k, v := range s.visited {
		vs = append(vs, fmt.Sprintf("%s=%d", k, v))
	}
	for k := range s.inK {
		vs = append(vs, "K"+k)
	}
	for k, v := range s.batoms {
		if !coarse {
			vs = append(vs, fmt.Sprintf("%s=%v", k, v))
		}
	}
	for k := range s.unjoin {
		vs = append(vs, "uj"+k)
	}
	for k, v := range s.marks {
		if k[0] == '!' {
			vs = append(vs, k+v)
		}
	}
	sort.Strings(vs)
	sb.WriteString(strings.Join(vs, ","))
	sb.WriteString("|" + s.fault + s.gor.key() + s.taint)
	return sb.String()
}

// order lists the objects of the heap: those reachable from the stack as they
// are met from it, then the others
func (s *State) order() []ObjID {
	seen := map[ObjID]bool{}
	r := make([]ObjID, 0, len(s.heap))
	var visit func(o ObjID)
	visit = func(o ObjID) {
		if seen[o] {
			return
		}
		seen[o] = true
		ob := s.heap[o]
		if ob == nil {
			return
		}
		r = append(r, o)
		if ob.summary && ob.kind == kCell {
			return // an older generation
		}
		ob.refs(visit)
	}
	for _, f := range s.frames {
		ks := make([]ssa.Value, 0, len(f.env))
		for k := range f.env {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].Name() < ks[j].Name() })
		for _, k := range ks {
			if v := f.env[k]; v != nil {
				refs(v, visit)
			}
		}
		for _, v := range f.bind {
			refs(v, visit)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				if a != nil {
					refs(a, visit)
				}
			}
		}
	}
	var rest []int
	for id, o := range s.heap {
		if !seen[id] && (o.role != "" || o.ek != "" || o.kind == kChan || o.kind == kExt) {
			rest = append(rest, int(id))
		}
	}
	sort.Ints(rest)
	for _, id := range rest {
		visit(ObjID(id))
	}
	return r
}

// renamable: nothing but references depends on the identity of the object
func (s *State) renamable(id ObjID, o *Obj) bool {
	if o.role != "" || o.ek != "" || o.summary {
		return false
	}
	switch o.kind {
	case kMap:
		_, ok := s.marks["ml:"+objName(id)]
		return !ok
	}
	return false
}

// alignTo gives the fresh objects of b the names of their counterparts in a
func (b *State) alignTo(a *State) *State {
	list := func(s *State) []ObjID {
		var r []ObjID
		for _, id := range s.order() {
			if s.renamable(id, s.heap[id]) {
				r = append(r, id)
			}
		}
		return r
	}
	la, lb := list(a), list(b)
	if len(la) != len(lb) {
		return b
	}
	ren := map[ObjID]ObjID{}
	for i := range la {
		if la[i] == lb[i] {
			continue
		}
		if _, ok := b.heap[la[i]]; ok {
			continue
		}
		if _, ok := a.heap[lb[i]]; ok {
			continue
		}
		if a.heap[la[i]].disc() != b.heap[lb[i]].disc() {
			continue
		}
		ren[lb[i]] = la[i]
	}
	if len(ren) == 0 {
		return b
	}
	c := b.clone()
	f := func(o ObjID) ObjID {
		if n, ok := ren[o]; ok {
			return n
		}
		return o
	}
	for id, o := range b.heap {
		n := o.mapObjs(f)
		if f(id) != id {
			delete(c.heap, id)
		}
		c.heap[f(id)] = n
	}
	c.mapVals(func(v Val) (Val, bool) {
		hit := false
		refs(v, func(o ObjID) { hit = hit || f(o) != o })
		if !hit {
			return v, false
		}
		return mapObjs(v, f), true
	})
	for id, g := range b.gw {
		if f(id) != id {
			delete(c.gw, id)
			c.gw[f(id)] = g
		}
	}
	return c
}

// merge joins two states with the same stack shape
func merge(a, b *State, where string) *State {
	b = b.alignTo(a)
	out := a.clone()
	if out.taint == "" {
		out.taint = b.taint
	}
	// facts: hull of what both know
	fm := make(factSet, 0, len(a.facts))
	for _, f := range a.facts {
		r := b.rng1(f.b)
		q := Itv{min64(f.lo, r.lo), max64(f.hi, r.hi)}
		if q.lo > -inf || q.hi < inf {
			fm = append(fm, fact{f.b, q})
		}
	}
	for _, f := range b.facts {
		if _, ok := a.facts.get(f.b.h); ok {
			continue
		}
		r := a.rng1(f.b)
		q := Itv{min64(f.lo, r.lo), max64(f.hi, r.hi)}
		if q.lo > -inf || q.hi < inf {
			fm = fm.put(fact{f.b, q})
		}
	}
	out.facts = fm
	for k, v := range a.batoms {
		if w, ok := b.batoms[k]; !ok || w != v {
			delete(out.batoms, k)
		}
	}
	for i := range out.frames {
		fa, fb := a.frames[i], b.frames[i]
		if fa == fb {
			continue
		}
		nf := fa.clone()
		for k, v := range fa.env {
			w, ok := fb.env[k]
			if !ok || w == nil || v == nil {
				if !ok || (w == nil) != (v == nil) {
					delete(nf.env, k)
				}
				continue
			}
			if v.key() != w.key() {
				nf.env[k] = joinVal(v, w, a, b, out, fmt.Sprintf("%s/%d.%s", where, fa.ctx, k.Name()))
			}
		}
		if len(fa.defers) != len(fb.defers) {
			// union
			m := map[string]bool{}
			for _, d := range nf.defers {
				m[d.key()] = true
			}
			for _, d := range fb.defers {
				if !m[d.key()] {
					nf.defers = append(nf.defers, d)
				}
			}
		} else {
			for j := range nf.defers {
				da, db := fa.defers[j], fb.defers[j]
				if da.key() != db.key() {
					args := make([]Val, len(da.args))
					for q := range args {
						if q < len(db.args) {
							args[q] = joinVal(da.args[q], db.args[q], a, b, out, fmt.Sprintf("%s/d%d.%d", where, j, q))
						}
					}
					nf.defers[j].args = args
				}
			}
		}
		for k, v := range fb.ivInit {
			if w, ok := nf.ivInit[k]; !ok {
				nf.ivInit[k] = v
			} else if !linEq(v, w) {
				nf.ivInit[k] = nil
			}
		}
		for k, v := range fb.ivStep {
			if w := nf.ivStep[k]; v > w {
				nf.ivStep[k] = v
			}
		}
		out.frames[i] = nf
	}
	for id, ob := range b.heap {
		oa, ok := a.heap[id]
		if !ok {
			out.heap[id] = ob
			continue
		}
		if oa != ob && oa.key() != ob.key() {
			out.heap[id] = joinObj(oa, ob, a, b, out, where+"~"+objName(id))
		}
	}
	for k, v := range b.visited {
		if w, ok := a.visited[k]; !ok || w != v {
			out.visited[k] = max8(v, w)
		}
	}
	for k, v := range a.marks {
		if b.marks[k] != v {
			delete(out.marks, k)
		}
	}
	for k, v := range b.gw {
		out.gw[k] = v
	}
	for k := range b.unjoin {
		out.unjoin[k] = true
	}
	return out
}

func max8(a, b int8) int8 {
	if a > b {
		return a
	}
	return b
}

func (s *State) full() string {
	var sb strings.Builder
	for _, f := range s.frames {
		ks := make([]string, 0, len(f.env))
		for k, v := range f.env {
			if v != nil {
				ks = append(ks, k.Name()+"="+v.key())
			}
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ","))
		for _, d := range f.defers {
			sb.WriteString(d.key())
		}
		sb.WriteByte(';')
	}
	ids := make([]int, 0, len(s.heap))
	for id := range s.heap {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		fmt.Fprintf(&sb, "%d:%s;", id, s.heap[ObjID(id)].key())
	}
	for _, f := range s.facts {
		fmt.Fprintf(&sb, "%s[%d,%d]", f.b.key(), f.lo, f.hi)
	}
	vs := []string{}
	for k, v := range s.visited {
		vs = append(vs, fmt.Sprintf("%s=%d", k, v))
	}
	for k, v := range s.batoms {
		vs = append(vs, fmt.Sprintf("%s=%v", k, v))
	}
	for k := range s.inK {
		vs = append(vs, "K"+k)
	}
	for k := range s.unjoin {
		vs = append(vs, "uj"+k)
	}
	for k, v := range s.marks {
		vs = append(vs, "m"+k+v)
	}
	for k, v := range s.gw {
		vs = append(vs, fmt.Sprintf("gw%d%s", k, v))
	}
	sort.Strings(vs)
	sb.WriteString(strings.Join(vs, ","))
	sb.WriteString("|" + s.fault + s.gor.key() + s.taint)
	return sb.String()
}

func sortedInts(m map[int]int) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}
