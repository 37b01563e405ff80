package main

// Abstract interpretation of the SSA form of the module's functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Alarm struct {
	prop, rule, where, msg, scn, path string
}

func (a Alarm) key() string { return a.prop + "|" + a.rule + "|" + a.where }

type outcome struct {
	st  *State
	ret []Val
}

type Engine struct {
	w        *World
	sc       *Scn
	ctxs     map[string]int
	ctxNames []string
	alarms   map[string]Alarm
	steps    int
	maxSteps int
	giveUp   int
	infos    map[*ssa.Function]*fnInfo
	funcs    map[*ssa.Function]bool
	blocks   map[*ssa.BasicBlock]bool
	extCalls map[string]int
	calls    int
	trace    bool
	obl      map[string]int // obligations met, by rule
	dead     map[string]int // why paths were abandoned
	events   []string
	scans    map[string]string // arrays read by a loop, and at which distance from its variable
	rcLoops  map[string]bool   // loops that receive from a channel
	asked    map[string]bool   // goroutines that ask for jobs
	given    map[string]bool   // those that get one on some path
	rcHeads  map[*ssa.BasicBlock]bool
	unb      int64 // bound of the loop last found to be unrollable
	rcKnown  map[*ssa.BasicBlock]bool
	curS     *State
	weakW    bool            // the store may go to several places
	goLoops  map[string]*Lin // loops that spawn workers counted by a wait group
	extObjs  map[ObjID]string
	touched  map[string]bool // "r:role", "w:role": memory read or written on some path
}

var retKeys []ssa.Value

func init() {
	for i := 0; i < 8; i++ {
		retKeys = append(retKeys, ssa.NewConst(constant.MakeInt64(int64(1000+i)), types.Typ[types.Int]))
	}
}

func newEngine(w *World) *Engine {
	return &Engine{w: w, ctxs: map[string]int{}, alarms: map[string]Alarm{}, maxSteps: 100000, infos: map[*ssa.Function]*fnInfo{},
		funcs: map[*ssa.Function]bool{}, blocks: map[*ssa.BasicBlock]bool{}, extCalls: map[string]int{}, obl: map[string]int{}, dead: map[string]int{},
		scans: map[string]string{}, rcLoops: map[string]bool{}, asked: map[string]bool{}, given: map[string]bool{}, rcHeads: map[*ssa.BasicBlock]bool{}, goLoops: map[string]*Lin{}, touched: map[string]bool{}, extObjs: map[ObjID]string{}}
}

func (e *Engine) alarm(prop, rule string, in ssa.Instruction, format string, args ...interface{}) {
	if e.sc == nil || !e.sc.wants(prop) {
		return
	}
	if e.tainted(prop, rule) {
		return
	}
	a := Alarm{prop: prop, rule: rule, msg: fmt.Sprintf(format, args...), scn: e.sc.name}
	if in != nil && e.curS != nil {
		for i, f := range e.curS.frames {
			if i > 0 {
				a.path += " > "
			}
			a.path += f.fn.Name()
		}
	}
	if in != nil {
		a.where = e.w.pos(in)
	}
	if _, ok := e.alarms[a.key()]; !ok {
		e.alarms[a.key()] = a
	}
}

// tainted: the path went through a test whose outcome the analysis lost
func (e *Engine) tainted(prop, rule string) bool {
	if e.curS == nil || e.curS.taint == "" {
		return false
	}
	e.dead["undecided "+prop+" "+rule+" ("+e.curS.taint+")"]++
	return true
}

func (e *Engine) oblige(rule string) { e.obl[rule]++ }

func (e *Engine) ctx(parent int, in ssa.Instruction) int {
	k := fmt.Sprintf("%d/%p", parent, in)
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	c := len(e.ctxs) + 1
	e.ctxs[k] = c
	return c
}

// iteration: which iterations of unrolled loops the top frame is in, in the
// scenarios that tell them apart
func (e *Engine) iteration(s *State) string {
	if e.sc == nil || !e.sc.iters {
		return ""
	}
	f := s.top()
	if len(f.unr) == 0 {
		return ""
	}
	ks := make([]int, 0, len(f.unr))
	for k := range f.unr {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	r := ""
	for _, k := range ks {
		r += fmt.Sprintf("@%d.%d", k, f.unr[k])
	}
	return r
}

func (e *Engine) ctxOf(s *State, in ssa.Instruction) int {
	p := s.top().ctx
	if it := e.iteration(s); it != "" {
		k := fmt.Sprintf("%d%s/%p", p, it, in)
		if c, ok := e.ctxs[k]; ok {
			return c
		}
		c := len(e.ctxs) + 1
		e.ctxs[k] = c
		return c
	}
	return e.ctx(p, in)
}

// ---- per function information

type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*loop // by header
	in    map[*ssa.BasicBlock]map[ssa.Value]bool
	num   map[ssa.Value]int
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}, in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, num: map[ssa.Value]int{}}
	e.infos[fn] = fi
	// loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loop{s, map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// reverse post order in which loop bodies come before what follows them
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		ss := append([]*ssa.BasicBlock(nil), b.Succs...)
		depthLeft := func(s *ssa.BasicBlock) int { // number of loops of b that s leaves
			n := 0
			for _, l := range fi.loops {
				if l.body[b] && !l.body[s] {
					n++
				}
			}
			return n
		}
		sort.SliceStable(ss, func(i, j int) bool { return depthLeft(ss[i]) > depthLeft(ss[j]) })
		for _, s := range ss {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i, b := range post {
		fi.rpo[b] = len(post) - 1 - i
	}
	// liveness
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.num[v] = n
				n++
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.in[s] {
					live[v] = true
				}
				pi := predIndex(s, b)
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, p)
				}
				for k, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, in := range s.Instrs {
						p, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						live[p.Edges[k]] = true
					}
				}
				_ = pi
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if p, ok := in.(*ssa.Phi); ok {
					live[p] = true // defined on the edge
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			old := fi.in[b]
			if len(old) != len(live) {
				fi.in[b] = live
				ch = true
			}
		}
	}
	return fi
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

// ---- running a function

type hstate struct {
	st     *State
	digest string
	visits int
}

const maxDepth = 40

var dbgFn string

func (e *Engine) callFn(fn *ssa.Function, bind, args []Val, st *State, ctx int, site ssa.Instruction) []outcome {
	if len(fn.Blocks) == 0 || len(st.frames) > maxDepth || !e.w.inModule(fn) {
		return e.external(fn, nil, args, st, ctx, site)
	}
	rec := 0
	for _, f := range st.frames {
		if f.fn == fn {
			rec++
		}
	}
	if rec > 1 {
		return []outcome{{st, e.unknownResults(fn.Signature)}}
	}
	e.funcs[fn] = true
	e.calls++
	if e.sc != nil && len(st.frames) > 0 && e.sc.stubs[fnName(fn)] {
		return e.stub(fn, args, st, ctx, site)
	}
	fr := &Frame{fn: fn, ctx: ctx, env: map[ssa.Value]Val{}, bind: bind, ivInit: map[string]*Lin{}, ivStep: map[string]int{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = e.unknown(p.Type())
		}
	}
	if n := len(st.frames); n > 0 {
		// the caller's frame may be shared from now on
		st.frames = append([]*Frame(nil), st.frames...)
	}
	st.frames = append(st.frames, fr)
	fi := e.info(fn)

	pending := map[*ssa.BasicBlock][]*State{}
	seen := map[*ssa.BasicBlock]map[string]*hstate{}
	visits := map[*ssa.BasicBlock]int{}
	var rets []*State
	push := func(b *ssa.BasicBlock, s *State) { pending[b] = append(pending[b], s) }
	push(fn.Blocks[0], st)
	for {
		var b *ssa.BasicBlock
		for x, l := range pending {
			if len(l) > 0 && (b == nil || fi.rpo[x] < fi.rpo[b]) {
				b = x
			}
		}
		if b == nil {
			break
		}
		list := pending[b]
		delete(pending, b)
		e.steps++
		if e.trace && e.steps%50 == 0 {
			fmt.Println("step", e.steps, fn.Name(), b.Index, len(list))
		}
		if e.steps > e.maxSteps {
			e.giveUp++
			e.dead["budget"]++
			continue
		}
		e.blocks[b] = true
		where := fmt.Sprintf("%d.%d", ctx, b.Index)
		for _, s := range list {
			e.pruneDead(s, fi, b)
		}
		merged := e.mergeStates(list, where)
		if fi.loops[b] != nil {
			if seen[b] == nil {
				seen[b] = map[string]*hstate{}
			}
			visits[b]++
			var next []*State
			for _, s := range merged {
				s.gc(nil)
				sg := s.sig(visits[b] > 14 || len(seen[b]) > 40)
				if e.trace && fn.Name() == dbgFn {
					fmt.Println("HEAD", b.Index, visits[b], sg)
				}
				h := seen[b][sg]
				if h == nil {
					h = &hstate{}
					h.st = s
					h.digest = s.full()
					seen[b][sg] = h
					next = append(next, s.clone())
					continue
				}
				m := merge(h.st, s, where)
				if h.visits > 1 {
					widen(h.st, m)
				}
				d := m.full()
				if d == h.digest {
					continue
				}
				h.visits++
				if e.trace && h.visits > 8 {
					fmt.Println("loop", fn.Name(), b.Index, h.visits)
					diffDigest(h.digest, d)
				}
				if h.visits > 30 {
					e.giveUp++
					e.dead["loop "+fn.String()]++
					continue
				}
				h.st, h.digest = m, d
				next = append(next, m.clone())
			}
			merged = next
		}
		for _, s := range merged {
			e.execFrom(s, b, 0, fi, push, func(r *State) { rets = append(rets, r) })
		}
	}
	rs := e.mergeStates(rets, fmt.Sprintf("r%d", ctx))
	var outs []outcome
	for _, s := range rs {
		f := s.top()
		var ret []Val
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			ret = append(ret, f.env[retKeys[i]])
		}
		s.frames = append([]*Frame(nil), s.frames[:len(s.frames)-1]...)
		if n := len(s.frames); n > 0 {
			s.frames[n-1] = s.frames[n-1].clone()
		}
		for k := range s.visited {
			if strings.HasSuffix(k, fmt.Sprintf("#%d", ctx)) {
				delete(s.visited, k)
			}
		}
		for k := range s.inK {
			if strings.HasSuffix(k, fmt.Sprintf("#%d", ctx)) {
				delete(s.inK, k)
			}
		}
		outs = append(outs, outcome{s, ret})
	}
	return outs
}

func diffDigest(a, b string) {
	as, bs := strings.FieldsFunc(a, func(r rune) bool { return r == ';' }), strings.FieldsFunc(b, func(r rune) bool { return r == ';' })
	m := map[string]bool{}
	for _, x := range as {
		m[x] = true
	}
	for _, x := range bs {
		if !m[x] {
			fmt.Println("   +", x)
		}
	}
}

func (e *Engine) pruneDead(s *State, fi *fnInfo, b *ssa.BasicBlock) {
	f := s.top()
	live := fi.in[b]
	for v := range f.env {
		if !live[v] {
			switch v.(type) {
			case *ssa.Alloc:
				if !live[v] {
					delete(f.env, v)
				}
			default:
				delete(f.env, v)
			}
		}
	}
}

// mergeStates joins the states that differ only in what is not worth telling apart
func (e *Engine) mergeStates(list []*State, where string) []*State {
	if len(list) <= 1 {
		return list
	}
	coarse := len(list) > 48
	group := map[string]*State{}
	var order []string
	for _, s := range list {
		k := s.sig(coarse)
		if o, ok := group[k]; ok {
			group[k] = merge(o, s, where)
		} else {
			group[k] = s
			order = append(order, k)
		}
	}
	r := make([]*State, len(order))
	for i, k := range order {
		r[i] = group[k]
	}
	return r
}

// widen gives up the bounds that keep moving
func widen(old, m *State) {
	fm := make(factSet, 0, len(m.facts))
	for _, f := range m.facts {
		o, ok := old.facts.get(f.b.h)
		if !ok {
			o = fact{f.b, old.rng1(f.b)}
		}
		if f.lo < o.lo {
			f.lo = -inf
		}
		if f.hi > o.hi {
			f.hi = inf
		}
		if f.lo > -inf || f.hi < inf {
			fm = append(fm, f)
		}
	}
	m.facts = fm
}

// edge moves a state along a control flow edge
func (e *Engine) edge(s *State, from, to *ssa.BasicBlock, fi *fnInfo, push func(*ssa.BasicBlock, *State)) {
	f := s.top()
	sfx := fmt.Sprintf("#%d", f.ctx)
	// loops being left
	for h, l := range fi.loops {
		if l.body[from] && !l.body[to] {
			if _, ok := f.unr[h.Index]; ok {
				f = s.ownTop()
				delete(f.unr, h.Index)
				continue
			}
			if !e.leaveLoop(s, h, from == h, sfx) {
				return
			}
			f = s.top()
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	l := fi.loops[to]
	back := l != nil && l.body[from]
	if back {
		// values read during this iteration
		s.mapVals(func(v Val) (Val, bool) {
			if len(valDeps(v)) > 0 {
				return setDeps(v, nil), true
			}
			return v, false
		})
		f = s.top()
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, e.operand(s, p.Edges[pi]))
	}
	if l == nil {
		for i, p := range phis {
			f.env[p] = vals[i]
		}
		push(to, s)
		return
	}
	if it, ok := f.unr[to.Index]; ok && back {
		if it < 2*e.maxUnroll() && e.unrollable(s, to, l, phis, vals) {
			f = s.ownTop()
			f.unr[to.Index] = it + 1
			f.unb[to.Index] = e.unb
			for i, p := range phis {
				f.env[p] = vals[i]
			}
			push(to, s)
			return
		}
		f = s.ownTop()
		delete(f.unr, to.Index)
		if f.unb[to.Index] != e.unb {
			e.dead["loop left half followed"]++
		}
		back = false
	} else if !back && e.unrollable(s, to, l, phis, vals) {
		f = s.ownTop()
		f.unr[to.Index] = 0
		f.unb[to.Index] = e.unb
		for i, p := range phis {
			f.env[p] = vals[i]
		}
		push(to, s)
		return
	}
	// loop header: integers become induction variables
	syms := map[string]bool{}
	sym := func(p *ssa.Phi) string { return fmt.Sprintf("iv:%s%s", p.Name(), sfx) }
	for _, p := range phis {
		if isInt(p.Type()) {
			syms[sym(p)] = true
		}
	}
	isSym := func(a string) bool { return syms[a] }
	if back {
		e.nextIteration(s, syms, sfx, to)
		f = s.top()
		sub := map[string]*Lin{}
		drop := map[string]*Lin{}
		for i, p := range phis {
			if !syms[sym(p)] {
				continue
			}
			n, _ := vals[i].(Num)
			me := sym(p)
			var c *Lin
			if n.L != nil && n.L.coef(me) == 1 {
				c = linAdd(n.L, linA(me), -1)
				if c.mentions(isSym) {
					c = nil
				}
			}
			if c != nil {
				if !(c.isConst() && c.c == 1) && !(c.isConst() && c.c == 0) {
					f.ivStep[me] = 2
				} else if c.isConst() && c.c == 1 && f.ivStep[me] == 0 {
					f.ivStep[me] = 1
				}
				if !(c.isConst() && c.c == 0) {
					sub[me] = linAdd(linA(me), c, -1)
				}
			} else {
				f.ivStep[me] = 2
				l := n.L
				if l.mentions(isSym) {
					l = nil
				}
				drop[me] = l
			}
		}
		type bnd struct {
			l *Lin
			Itv
		}
		var bounds []bnd
		for me, l := range drop {
			if l == nil {
				// keep the constant bounds of the new value
				for i, p := range phis {
					if sym(p) == me {
						if n, ok := vals[i].(Num); ok && n.L != nil {
							bounds = append(bounds, bnd{linA(me), s.rng(n.L)})
						}
					}
				}
				continue
			}
			bounds = append(bounds, bnd{linA(me), s.rng(l)})
			for _, a := range lenSyms {
				bounds = append(bounds, bnd{linAdd(linA(me), linA(a), -1), s.rng(linAdd(l, linA(a), -1))})
			}
		}
		if len(drop) > 0 {
			s.dropAtoms(func(a string) bool { _, ok := drop[a]; return ok })
			for i, v := range vals {
				vals[i] = killAtoms(v, func(a string) bool { _, ok := drop[a]; return ok })
			}
		}
		if len(sub) > 0 {
			s.shift(sub)
			for i, v := range vals {
				vals[i] = shiftVal(v, sub)
			}
		}
		f = s.top()
		for me, l := range drop {
			if l != nil {
				s.assume(linAdd(linA(me), shiftLin(l, sub), -1), 0, 0)
			}
		}
		for _, b := range bounds {
			if b.lo > -inf || b.hi < inf {
				s.assume(b.l, b.lo, b.hi)
			}
		}
	} else {
		s.dropAtoms(isSym)
		for i, v := range vals {
			vals[i] = killAtoms(v, isSym)
		}
		f = s.top()
		for k := range s.visited {
			for me := range syms {
				if strings.Contains(k, "@"+me) {
					delete(s.visited, k)
				}
			}
		}
		for i, p := range phis {
			if !syms[sym(p)] {
				continue
			}
			me := sym(p)
			n, _ := vals[i].(Num)
			f.ivInit[me] = n.L
			delete(f.ivStep, me)
			if n.L != nil {
				s.assume(linAdd(linA(me), n.L, -1), 0, 0)
			}
		}
		// counters that advance together keep their distance
		for i, p := range phis {
			for j, q := range phis[:i] {
				if c, ok := e.counterStep(s, p); !syms[sym(p)] || !syms[sym(q)] || !ok {
					continue
				} else if c2, ok := e.counterStep(s, q); !ok || c != c2 {
					continue
				}
				a, _ := vals[i].(Num)
				b, _ := vals[j].(Num)
				if d := linAdd(a.L, b.L, -1); d != nil && d.isConst() {
					s.assume(linAdd(linA(sym(p)), linA(sym(q)), -1), d.c, d.c)
				}
			}
		}
		for id, o := range s.heap {
			if o.kind == kArr && syms[o.pIV] {
				c := o.clone()
				c.pfun, c.pIV, c.pC, c.pbad = nil, "", nil, false
				s.heap[id] = c
			}
		}
	}
	for i, p := range phis {
		if syms[sym(p)] {
			n, _ := vals[i].(Num)
			f.env[p] = Num{L: linA(sym(p)), R: n.R}
		} else {
			f.env[p] = vals[i]
		}
	}
	push(to, s)
}

// counterStep: the constant that each iteration adds to a counter
func (e *Engine) counterStep(s *State, p *ssa.Phi) (int64, bool) {
	step, found := int64(0), false
	for _, x := range p.Edges {
		b, ok := x.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(p) {
			continue
		}
		switch b.Y.(type) {
		case *ssa.Const, *ssa.Parameter:
		default:
			return 0, false
		}
		n, ok := e.operand(s, b.Y).(Num)
		if !ok || !n.L.isConst() || found && n.L.c != step {
			return 0, false
		}
		step, found = n.L.c, true
	}
	return step, found
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// shift applies an invertible assignment of induction variables
func (s *State) shift(sub map[string]*Lin) {
	s.mapVals(func(v Val) (Val, bool) {
		if valMentions(v, func(a string) bool { _, ok := sub[a]; return ok }) {
			return shiftVal(v, sub), true
		}
		return v, false
	})
	s.mapLins(func(l *Lin) *Lin { return shiftLin(l, sub) })
	is := func(a string) bool { _, ok := sub[a]; return ok }
	old := s.facts
	s.facts = old.filter(func(f fact) bool { return !f.b.mentions(is) })
	for _, f := range old {
		if f.b.mentions(is) {
			if l := shiftLin(f.b, sub); l != nil {
				s.assume(l, f.lo, f.hi)
			}
		}
	}
	for k := range s.batoms {
		if atomMentions(k, is) {
			delete(s.batoms, k)
		}
	}
}

// shiftLin substitutes direct occurrences; nested ones make the form unknown
func shiftLin(l *Lin, sub map[string]*Lin) *Lin {
	if l == nil {
		return nil
	}
	is := func(a string) bool { _, ok := sub[a]; return ok }
	r := linC(l.c)
	for _, t := range l.t {
		a, c := atomNames[t.a], t.c
		if x, ok := sub[a]; ok {
			r = linAdd(r, x, c)
		} else if atomMentions(a, is) {
			return nil
		} else {
			r = linAdd(r, linA(a), c)
		}
		if r == nil {
			return nil
		}
	}
	return r
}

func shiftVal(v Val, sub map[string]*Lin) Val {
	is := func(a string) bool { _, ok := sub[a]; return ok }
	if !valMentions(v, is) {
		return v
	}
	switch x := v.(type) {
	case Num:
		if x.R == nil && x.L != nil {
			if r := loadRange(x.L); r != nil && !r.mentions(is) {
				x.R = r
			}
		}
		x.L, x.R = shiftLin(x.L, sub), shiftLin(x.R, sub)
		return x
	case Slice:
		x.Off, x.Ln = shiftLin(x.Off, sub), shiftLin(x.Ln, sub)
		return x
	case Struct:
		fs := make([]Val, len(x.F))
		for i := range fs {
			fs[i] = shiftVal(x.F[i], sub)
		}
		return Struct{fs}
	case Tuple:
		fs := make([]Val, len(x.F))
		for i := range fs {
			fs[i] = shiftVal(x.F[i], sub)
		}
		return Tuple{fs}
	case Iface:
		x.T = ""
		if x.Dyn != nil {
			x.Dyn = shiftVal(x.Dyn, sub)
		}
		return x
	}
	return killAtoms(v, is)
}

// nextIteration updates what was being tracked for the iteration that ends
func (e *Engine) nextIteration(s *State, syms map[string]bool, sfx string, head *ssa.BasicBlock) {
	of := func(k string) bool {
		i := strings.LastIndex(k, "@")
		return i >= 0 && syms[k[i+1:]]
	}
	for k := range e.scans {
		if of(k) && s.visited[k] != 1 {
			if _, ok := s.marks["scan:"+k]; !ok {
				s.visited["ns:"+k] = 4
			}
		}
	}
	for k, v := range s.visited {
		if of(k) {
			switch v {
			case 1:
				s.visited[k] = 2
			case 3:
				delete(s.visited, k)
			}
		}
	}
	for k := range s.inK {
		if of(k) {
			delete(s.inK, k)
		}
	}
	for id, o := range s.heap {
		if o.kind != kArr {
			continue
		}
		if syms[o.pIV] {
			if _, ok := s.marks[fmt.Sprintf("st:%d@%s", id, o.pIV)]; !ok {
				c := o.clone()
				c.pfun, c.pbad = nil, true
				s.heap[id] = c
			}
		}
		if o.spW == 1 {
			c := s.heap[id].clone()
			c.spW = 0
			s.heap[id] = c
		}
	}
	for k := range s.marks {
		if of(k) {
			delete(s.marks, k)
		}
	}
}

// leaveLoop returns false if the exit is infeasible
func (e *Engine) leaveLoop(s *State, head *ssa.BasicBlock, atHead bool, sfx string) bool {
	f := s.top()
	syms := map[string]bool{}
	for _, in := range head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isInt(p.Type()) {
			syms[fmt.Sprintf("iv:%s%s", p.Name(), sfx)] = true
		}
	}
	ivOf := func(k string) string {
		i := strings.LastIndex(k, "@")
		if i >= 0 && syms[k[i+1:]] {
			return k[i+1:]
		}
		return ""
	}
	delete(s.inK, fmt.Sprintf("it:%d%s", head.Index, sfx))
	joined := false
	if atHead {
		// special elements that must have been met
		for id, o := range s.heap {
			if o.kind == kArr && o.sp == Yes {
				for k, c := range f.ivInit {
					_ = c
					if !syms[k] {
						continue
					}
					key := fmt.Sprintf("sv:%d@%s", id, k)
					scan, ok := e.scans[key]
					if !ok || s.visited["ns:"+key] != 0 {
						continue
					}
					if s.visited[key] != 2 && e.fullScan(s, id, o, k, scan, head) {
						return false
					}
				}
			}
			if o.kind == kChan && e.rcLoops[fmt.Sprintf("rc:%d@%d%s", id, head.Index, sfx)] {
				e.checkCount(s, o, syms, head)
				if o.cnt > 0 && o.rcv == 0 {
					return false // every result was received
				}
				joined = true
			}
		}
		for id, o := range s.heap {
			if o.kind == kArr && syms[o.pIV] {
				c := o.clone()
				iv := o.pIV
				if o.pfun != nil && !o.pbad && f.ivStep[iv] <= 1 && f.ivInit[iv] != nil && o.pC != nil {
					start := linAdd(f.ivInit[iv], o.pC, 1)
					end := linAdd(linA(iv), o.pC, 1)
					if s.eq(start, linC(0)) && s.eq(end, o.ln) {
						c.fun = o.pfun
						c.zero = false
						c.orig = false
						c.sum = nil
					}
				}
				c.pfun, c.pIV, c.pC, c.pbad = nil, "", nil, false
				s.heap[id] = c
			}
		}
		if joined || e.rcKnown[head] {
			e.joined(s)
		}
		if l, ok := e.goLoops[fmt.Sprintf("@%d%s", head.Index, sfx)]; ok {
			e.checkSpawned(s, l, syms, head)
		}
	} else {
		for id, o := range s.heap {
			if o.kind == kArr && syms[o.pIV] {
				c := o.clone()
				c.pfun, c.pIV, c.pC, c.pbad = nil, "", nil, false
				s.heap[id] = c
			}
		}
	}
	for k := range s.inK {
		if ivOf(k) != "" {
			delete(s.inK, k)
		}
	}
	for k := range s.marks {
		if ivOf(k) != "" {
			delete(s.marks, k)
		}
	}
	return true
}

// fullScan: did the loop read every position of the array? scan is the key of
// (position - induction variable)
func (e *Engine) fullScan(s *State, id ObjID, o *Obj, iv, scan string, head *ssa.BasicBlock) bool {
	f := s.top()
	var c int64
	if _, err := fmt.Sscanf(scan, "%d", &c); err != nil {
		return false
	}
	init := f.ivInit[iv]
	if init == nil || f.ivStep[iv] > 1 {
		return false
	}
	whole := o.app && e.upToLen(s, id, head)
	if o.ln == nil && !whole {
		return false
	}
	start := linAdd(init, linC(c), 1)
	end := linAdd(linA(iv), linC(c), 1)
	first := int64(0)
	if o.spAt == 2 {
		first = 1
	}
	if s.rng(start).hi > first {
		return false
	}
	if o.spAt == 1 {
		return s.rng(end).lo >= 1
	}
	return whole || s.rng(linAdd(end, o.ln, -1)).lo >= 0
}

// upToLen: does the loop stop when the counter reaches the length of a slice
// of the given array?
func (e *Engine) upToLen(s *State, id ObjID, head *ssa.BasicBlock) bool {
	br, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{cmp.X, cmp.Y} {
		c, ok := v.(*ssa.Call)
		if !ok {
			continue
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			continue
		}
		sl, ok := e.operand(s, c.Call.Args[0]).(Slice)
		return ok && len(sl.Arrs) == 1 && sl.Arrs[0] == id && sl.Off.isConst() && sl.Off.c == 0
	}
	return false
}

// ---- instructions

func (e *Engine) execFrom(s *State, b *ssa.BasicBlock, idx int, fi *fnInfo, push func(*ssa.BasicBlock, *State), ret func(*State)) {
	s.top().cur = b
	for i := idx; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			e.edge(s, b, b.Succs[0], fi, push)
			return
		case *ssa.If:
			c, _ := e.operand(s, x.Cond).(Bool)
			st, sf := s, s
			if c.T == Maybe {
				sf = s.clone()
			}
			if c.T != No && e.assumeBool(st, c, true) {
				e.edge(st, b, b.Succs[0], fi, push)
			}
			if c.T != Yes && e.assumeBool(sf, c, false) {
				e.edge(sf, b, b.Succs[1], fi, push)
			}
			return
		case *ssa.Panic:
			return
		case *ssa.Return:
			fr := s.top()
			env := map[ssa.Value]Val{}
			for j, r := range x.Results {
				env[retKeys[j]] = e.operand(s, r)
			}
			fr.env = env
			fr.defers = nil
			fr.ivInit, fr.ivStep = map[string]*Lin{}, map[string]int{}
			fr.bind = nil
			var roots []ObjID
			s.gc(roots)
			ret(s)
			return
		}
		states := e.instr(s, in)
		if len(states) == 1 {
			s = states[0]
			continue
		}
		for _, t := range states {
			e.execFrom(t, b, i+1, fi, push, ret)
		}
		return
	}
}

func (e *Engine) set(s *State, v ssa.Value, x Val) {
	if t, ok := x.(Str); ok && strings.HasPrefix(t.T, "arg:marker") {
		e.touched["u.marker"] = true
	}
	s.top().env[v] = x
}

func (e *Engine) operand(s *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return FnV{[]Clo{{x, nil}}}
	case *ssa.Builtin:
		return Unk{}
	case *ssa.Global:
		id := mkObj("global:" + x.String())
		if s.heap[id] == nil {
			t := x.Type().(*types.Pointer).Elem()
			o := &Obj{kind: kCell, v: e.unknown(t), role: "global"}
			if n := x.String(); n == "os.Stdout" || n == "os.Stderr" {
				o.v = Ptr{Nil: No}
			}
			s.set(id, o)
		}
		return Ptr{Ts: []Loc{{Obj: id}}, Nil: No}
	case *ssa.FreeVar:
		f := s.top()
		for i, fv := range f.fn.FreeVars {
			if fv == x && i < len(f.bind) {
				return f.bind[i]
			}
		}
		return e.unknown(x.Type())
	}
	if r, ok := s.top().env[v]; ok && r != nil {
		return r
	}
	return e.unknown(v.Type())
}

func (e *Engine) constVal(c *ssa.Const) Val {
	t := c.Type().Underlying()
	if c.Value == nil {
		return e.zero(nil, c.Type(), "")
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Bool{T: triOf(constant.BoolVal(c.Value))}
		case b.Info()&types.IsString != 0:
			s := constant.StringVal(c.Value)
			k := No
			if e.sc != nil && e.sc.kLit != "" && s == e.sc.kLit {
				k = Yes
			}
			return Str{K: k, Is: true, Lit: s}
		case b.Info()&types.IsInteger != 0:
			if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return Num{L: linC(n)}
			}
			return Num{}
		}
		return Sc{T: "lit" + c.Value.ExactString()}
	}
	return e.unknown(c.Type())
}

// zero value of a type; name is used for arrays
func (e *Engine) zero(s *State, t types.Type, name string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool{T: No}
		case u.Info()&types.IsString != 0:
			return Str{K: No, Is: true}
		case u.Info()&types.IsInteger != 0:
			return Num{L: linC(0)}
		case u.Kind() == types.UntypedNil:
			return Ptr{Nil: Yes}
		}
		return Sc{T: "lit0"}
	case *types.Pointer:
		return Ptr{Nil: Yes}
	case *types.Slice:
		return Slice{Nil: Yes, Off: linC(0), Ln: linC(0)}
	case *types.Map:
		return MapV{Nil: Yes}
	case *types.Interface:
		return Iface{Nil: Yes}
	case *types.Signature:
		return FnV{}
	case *types.Chan:
		return Unk{}
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = e.zero(s, u.Field(i).Type(), fmt.Sprintf("%s.%d", name, i))
		}
		return Struct{fs}
	case *types.Array:
		if s == nil {
			return Unk{}
		}
		o := &Obj{kind: kArr, ln: linC(u.Len()), elemT: u.Elem(), zero: true}
		if _, nested := u.Elem().Underlying().(*types.Array); !nested && u.Len() > 0 && u.Len() <= int64(e.maxUnroll()) {
			els := make([]Val, u.Len())
			for i := range els {
				els[i] = e.zero(s, u.Elem(), fmt.Sprintf("%s.e%d", name, i))
			}
			o.v = Struct{els}
		}
		id := e.alloc(s, name+"[]", o)
		return ArrV{id}
	}
	return Unk{}
}

func (e *Engine) unknown(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool{T: Maybe}
		case u.Info()&types.IsString != 0:
			return Str{K: Maybe}
		case u.Info()&types.IsInteger != 0:
			return Num{}
		}
		return Sc{}
	case *types.Interface:
		return Iface{Nil: Maybe}
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = e.unknown(u.Field(i).Type())
		}
		return Struct{fs}
	case *types.Tuple:
		fs := make([]Val, u.Len())
		for i := range fs {
			fs[i] = e.unknown(u.At(i).Type())
		}
		return Tuple{fs}
	}
	return Unk{}
}

func (e *Engine) unknownResults(sig *types.Signature) []Val {
	var r []Val
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, e.unknown(sig.Results().At(i).Type()))
	}
	return r
}

// alloc creates an object for a site; what the site created before becomes old
func (e *Engine) alloc(s *State, name string, o *Obj) ObjID {
	if len(s.inK) > 0 || s.gor != nil && s.gor.jobK == Yes {
		name += "κ"
	}
	id := mkObj(name)
	if s.gor != nil {
		o.own = s.gor.id
	}
	for _, f := range s.frames {
		o.birth = append(o.birth, birth{f.ctx, f.cur})
	}
	if _, ok := s.heap[id]; ok {
		if s.referenced(id) {
			dst := mkObj(name + ".old")
			s.fold(id, dst, "f")
		}
	}
	delete(s.gw, id)
	s.set(id, o)
	return id
}

func (s *State) referenced(id ObjID) bool {
	hit := false
	chk := func(o ObjID) { hit = hit || o == id }
	for _, f := range s.frames {
		for _, v := range f.env {
			if v != nil {
				refs(v, chk)
			}
		}
		for _, v := range f.bind {
			refs(v, chk)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				if a != nil {
					refs(a, chk)
				}
			}
			if d.fn != nil {
				refs(d.fn, chk)
			}
		}
		if hit {
			return true
		}
	}
	for _, o := range s.heap {
		o.refs(chk)
		if hit {
			return true
		}
	}
	return false
}

// reachesK: a map created by the program that holds the tracked key is
// reachable from the object
func (s *State) reachesK(id ObjID) bool {
	seen := map[ObjID]bool{}
	var walk func(o ObjID, d int) bool
	walk = func(o ObjID, d int) bool {
		if seen[o] || d > 4 {
			return false
		}
		seen[o] = true
		ob := s.heap[o]
		if ob == nil {
			return false
		}
		if ob.kind == kMap && ob.kP == Yes && ob.role == "" {
			return true
		}
		if ob.kind == kMap || ob.kind == kArr {
			return false
		}
		r := false
		ob.refs(func(x ObjID) { r = r || walk(x, d+1) })
		return r
	}
	return walk(id, 0)
}

func (e *Engine) assumeBool(s *State, b Bool, val bool) bool {
	if b.T == Maybe && b.C != nil {
		return e.assumeCond(s, b.C, val)
	}
	return true
}

func (e *Engine) assumeCond(s *State, c *Cond, val bool) bool {
	if c.neg {
		val = !val
	}
	switch c.kind {
	case "lt0":
		if val {
			return s.assume(c.L, -inf, -1)
		}
		return s.assume(c.L, 0, inf)
	case "eq0":
		if val {
			return s.assume(c.L, 0, 0)
		}
		r := s.rng(c.L)
		if r.lo == 0 && r.hi == 0 {
			return false
		}
		if r.lo == 0 {
			return s.assume(c.L, 1, inf)
		}
		if r.hi == 0 {
			return s.assume(c.L, -inf, -1)
		}
		return true
	case "atom":
		if v, ok := s.batoms[c.atom]; ok && v != val {
			return false
		}
		s.batoms[c.atom] = val
	case "nil":
		f := s.top()
		t := triOf(val)
		if v, ok := f.env[c.val]; ok && v != nil {
			nv, ok := setNil(v, t)
			if !ok {
				return false
			}
			f.env[c.val] = nv
		}
		if c.loc != nil {
			if o := s.heap[c.loc.Obj]; o != nil && o.kind == kCell && !o.summary {
				if cur := getPath(o.v, c.loc.Path); cur != nil {
					nv, ok := setNil(cur, t)
					if !ok {
						return false
					}
					n := o.clone()
					n.v = setPath(o.v, c.loc.Path, nv)
					s.heap[c.loc.Obj] = n
				}
			}
		}
		if c.atom != "" {
			if v, ok := s.batoms[c.atom]; ok && v != val {
				return false
			}
			s.batoms[c.atom] = val
		}
	case "mlen":
		// len(map)==0
		if id, ok := objIdx[c.atom]; ok {
			o := s.heap[id]
			if o != nil && val {
				if o.kP == Yes {
					return false
				}
				n := o.clone()
				n.kP, n.kV = No, nil
				s.heap[id] = n
			}
		}
		if c.L != nil {
			if val {
				return s.assume(c.L, 0, 0)
			}
			return s.assume(c.L, 1, inf)
		}
	}
	return true
}

func setNil(v Val, t Tri) (Val, bool) {
	switch x := v.(type) {
	case Ptr:
		if x.Nil != Maybe && x.Nil != t {
			return v, false
		}
		x.Nil = t
		if t == Yes {
			x.Ts = nil
		}
		return x, true
	case Slice:
		if x.Nil != Maybe && x.Nil != t {
			return v, false
		}
		x.Nil = t
		if t == Yes {
			x.Arrs, x.Ln, x.Off = nil, linC(0), linC(0)
		}
		return x, true
	case MapV:
		if x.Nil != Maybe && x.Nil != t {
			return v, false
		}
		x.Nil = t
		if t == Yes {
			x.Objs = nil
		}
		return x, true
	case Iface:
		if x.Nil != Maybe && x.Nil != t {
			return v, false
		}
		x.Nil = t
		if t == Yes {
			x.Dyn, x.Typ, x.T, x.Tag = nil, nil, "", ""
		}
		return x, true
	}
	return v, true
}

func getPath(v Val, path string) Val {
	for path != "" {
		i, rest := splitPath(path)
		st, ok := v.(Struct)
		if !ok || i >= len(st.F) {
			return nil
		}
		v = st.F[i]
		path = rest
	}
	return v
}

func splitPath(p string) (int, string) {
	p = p[1:]
	j := strings.IndexByte(p, '.')
	rest := ""
	if j >= 0 {
		rest = p[j:]
		p = p[:j]
	}
	n := 0
	for _, c := range p {
		n = n*10 + int(c-'0')
	}
	return n, rest
}

func setPath(v Val, path string, x Val) Val {
	if path == "" {
		return x
	}
	i, rest := splitPath(path)
	st, ok := v.(Struct)
	if !ok || i >= len(st.F) {
		return v
	}
	fs := append([]Val(nil), st.F...)
	fs[i] = setPath(fs[i], rest, x)
	return Struct{fs}
}

func (e *Engine) name(s *State, v ssa.Value) string {
	f := s.top()
	return fmt.Sprintf("%s%s#%d:%s", v.Name(), e.iteration(s), f.ctx, f.fn.Name())
}

// instr executes one instruction; it may split the state.
func (e *Engine) instr(s *State, in ssa.Instruction) []*State {
	one := []*State{s}
	e.curS = s
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		n := e.name(s, x)
		if !x.Heap && x.Comment == "" {
			n += "'"
		}
		z := e.zero(s, t, n)
		id := e.alloc(s, n, &Obj{kind: kCell, v: z})
		e.set(s, x, Ptr{Ts: []Loc{{Obj: id}}, Nil: No})
	case *ssa.FieldAddr:
		e.set(s, x, e.fieldAddr(e.operand(s, x.X), x.Field))
	case *ssa.Field:
		v := e.operand(s, x.X)
		if st, ok := v.(Struct); ok && x.Field < len(st.F) {
			e.set(s, x, st.F[x.Field])
		} else {
			e.set(s, x, e.unknown(x.Type()))
		}
	case *ssa.UnOp:
		return e.unop(s, x)
	case *ssa.BinOp:
		e.set(s, x, e.binop(s, x))
	case *ssa.Store:
		return e.store(s, e.operand(s, x.Addr), e.operand(s, x.Val), in)
	case *ssa.IndexAddr:
		return e.indexAddr(s, x)
	case *ssa.Index:
		v := e.operand(s, x.X)
		if a, ok := v.(ArrV); ok {
			idx, _ := e.operand(s, x.Index).(Num)
			var r []*State
			for _, lv := range e.loadElem(s, a.Obj, idx, x.Type(), in) {
				e.set(lv.st, x, lv.v)
				r = append(r, lv.st)
			}
			return r
		}
		e.set(s, x, e.unknown(x.Type()))
	case *ssa.Slice:
		return e.slice(s, x)
	case *ssa.MakeSlice:
		ln, _ := e.operand(s, x.Len).(Num)
		cp, _ := e.operand(s, x.Cap).(Num)
		n := e.name(s, x)
		L := ln.L
		if L == nil {
			L = linA("len:" + n)
			s.dropAtoms(func(a string) bool { return a == "len:"+n })
		}
		C := cp.L
		if C == nil || x.Cap == x.Len {
			C = L
		}
		if !s.assume(L, 0, inf) {
			return nil
		}
		o := &Obj{kind: kArr, ln: C, elemT: x.Type().Underlying().(*types.Slice).Elem(), zero: true}
		if L.isConst() && L.c == 0 && !(C.isConst() && C.c == 0) {
			o.zero, o.app = false, true
		}
		if C.isConst() && C.c > 0 && C.c <= int64(e.maxUnroll()) {
			conc := e.sc != nil && e.sc.iters
			switch o.elemT.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Struct, *types.Slice, *types.Map:
				conc = true
			}
			if conc {
				els := make([]Val, C.c)
				for i := range els {
					els[i] = e.zero(nil, o.elemT, "")
				}
				o.v = Struct{els}
			}
		}
		id := e.alloc(s, n, o)
		e.set(s, x, Slice{Arrs: []ObjID{id}, Off: linC(0), Ln: L, Nil: No})
	case *ssa.MakeMap:
		n := e.name(s, x)
		mt := x.Type().Underlying().(*types.Map)
		id := e.alloc(s, n, &Obj{kind: kMap, kP: No, strKey: isStr(mt.Key()), elemT: mt.Elem()})
		e.set(s, x, MapV{Objs: []ObjID{id}, Nil: No})
	case *ssa.MakeChan:
		c, _ := e.operand(s, x.Size).(Num)
		id := e.alloc(s, e.name(s, x), &Obj{kind: kChan, cap: c.L, elemT: x.Type().Underlying().(*types.Chan).Elem()})
		e.set(s, x, ChanV{id})
	case *ssa.MakeInterface:
		v := e.operand(s, x.X)
		if iv, ok := v.(Iface); ok {
			e.set(s, x, iv)
		} else {
			e.set(s, x, Iface{Nil: No, Dyn: v, Typ: x.X.Type()})
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var b []Val
		for _, y := range x.Bindings {
			b = append(b, e.operand(s, y))
		}
		e.set(s, x, FnV{[]Clo{{fn, b}}})
	case *ssa.ChangeType:
		e.set(s, x, e.operand(s, x.X))
	case *ssa.ChangeInterface:
		e.set(s, x, e.operand(s, x.X))
	case *ssa.Convert:
		e.set(s, x, e.convert(s, x))
	case *ssa.MultiConvert:
		e.set(s, x, e.unknown(x.Type()))
	case *ssa.SliceToArrayPointer:
		e.set(s, x, e.unknown(x.Type()))
	case *ssa.Extract:
		v := e.operand(s, x.Tuple)
		if t, ok := v.(Tuple); ok && x.Index < len(t.F) && t.F[x.Index] != nil {
			e.set(s, x, t.F[x.Index])
		} else {
			e.set(s, x, e.unknown(x.Type()))
		}
	case *ssa.Lookup:
		return e.lookup(s, x)
	case *ssa.MapUpdate:
		return e.mapUpdate(s, e.operand(s, x.Map), e.operand(s, x.Key), e.operand(s, x.Value), in)
	case *ssa.Range:
		v := e.operand(s, x.X)
		o := &Obj{kind: kIter}
		if m, ok := v.(MapV); ok {
			o.over = m.Objs
			if m.Nil == Yes {
				o.st = "empty"
			}
		} else {
			o.st = "unknown"
		}
		id := e.alloc(s, "it"+e.name(s, x), o)
		e.set(s, x, IterV{id})
	case *ssa.Next:
		return e.next(s, x)
	case *ssa.TypeAssert:
		return e.typeAssert(s, x)
	case *ssa.Send:
		return e.send(s, e.operand(s, x.Chan), e.operand(s, x.X), in)
	case *ssa.Select:
		e.set(s, x, e.unknown(x.Type()))
	case *ssa.Call:
		outs := e.callCommon(s, &x.Call, in)
		var r []*State
		for _, o := range outs {
			if n := x.Call.Signature().Results().Len(); n == 1 && len(o.ret) > 0 {
				e.set(o.st, x, o.ret[0])
			} else if n > 1 {
				e.set(o.st, x, Tuple{o.ret})
			} else if len(o.ret) == 1 {
				e.set(o.st, x, o.ret[0])
			}
			r = append(r, o.st)
		}
		return r
	case *ssa.Defer:
		fv, args := e.callTarget(s, &x.Call)
		f := s.top()
		d := deferEnt{ins: x, fn: fv, args: args}
		for i, o := range f.defers {
			if o.key() == d.key() {
				f.defers = append([]deferEnt(nil), f.defers...)
				f.defers[i].many = true
				return one
			}
		}
		var ds []deferEnt
		for _, o := range f.defers {
			dup := false
			for i := range ds {
				if ds[i].key() == o.key() {
					ds[i].many, dup = true, true
				}
			}
			if !dup {
				ds = append(ds, o)
			}
		}
		f.defers = append(ds, d)
		if len(f.defers) > 12 {
			f.defers = f.defers[:12]
			e.giveUp++
		}
	case *ssa.RunDefers:
		list := []*State{s}
		for {
			var next []*State
			more := false
			for _, t := range list {
				f := t.top()
				if len(f.defers) == 0 {
					next = append(next, t)
					continue
				}
				more = true
				d := f.defers[len(f.defers)-1]
				f.defers = append([]deferEnt(nil), f.defers[:len(f.defers)-1]...)
				for _, o := range e.invoke(t, &d.ins.Call, d.fn, d.args, d.ins) {
					next = append(next, o.st)
				}
			}
			list = next
			if !more {
				return list
			}
		}
	case *ssa.Go:
		fv, args := e.callTarget(s, &x.Call)
		return e.spawn(s, x, fv, args)
	default:
		if v, ok := in.(ssa.Value); ok {
			e.set(s, v, e.unknown(v.Type()))
		}
	}
	return one
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) fieldAddr(v Val, i int) Val {
	p, ok := v.(Ptr)
	if !ok {
		return Unk{}
	}
	r := Ptr{Nil: No}
	for _, t := range p.Ts {
		t.Path += fmt.Sprintf(".%d", i)
		r.Ts = append(r.Ts, t)
	}
	if len(r.Ts) == 0 && p.Nil == Yes {
		return Ptr{Nil: Yes}
	}
	return r
}

func (e *Engine) unop(s *State, x *ssa.UnOp) []*State {
	one := []*State{s}
	v := e.operand(s, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			e.set(s, x, e.unknown(x.Type()))
			return one
		}
		if len(p.Ts) == 0 {
			if p.Nil == Yes {
				e.dead["nil dereference"]++
				return nil
			}
			e.set(s, x, e.unknown(x.Type()))
			return one
		}
		if len(p.Ts) == 1 {
			var r []*State
			for _, lv := range e.load(s, p.Ts[0], x.Type(), x) {
				e.set(lv.st, x, lv.v)
				r = append(r, lv.st)
			}
			return r
		}
		var j Val
		for _, t := range p.Ts {
			ls := e.load(s.clone(), t, x.Type(), x)
			for _, lv := range ls {
				if j == nil {
					j = lv.v
				} else {
					j = joinVal(j, lv.v, s, s, s, "ld"+e.name(s, x))
				}
			}
		}
		if j == nil {
			return nil
		}
		e.set(s, x, j)
	case token.ARROW:
		return e.recv(s, v, x)
	case token.NOT:
		b, _ := v.(Bool)
		b.T = triNot(b.T)
		if b.C != nil {
			c := *b.C
			c.neg = !c.neg
			b.C = &c
		}
		e.set(s, x, b)
	case token.SUB:
		if n, ok := v.(Num); ok {
			e.set(s, x, Num{L: linMulC(n.L, -1), D: n.D})
		} else if c, ok := v.(Sc); ok {
			e.set(s, x, Sc{T: scFn("neg", c.T), D: c.D})
		} else {
			e.set(s, x, e.unknown(x.Type()))
		}
	default:
		e.set(s, x, withDeps(e.unknown(x.Type()), valDeps(v)))
	}
	return one
}

func scFn(op string, ts ...string) string {
	var args []*Lin
	for _, t := range ts {
		if t == "" {
			return ""
		}
		args = append(args, linA(t))
	}
	return fnAtom(op, args...)
}

// scT gives any scalar a term
func scT(v Val) string {
	switch x := v.(type) {
	case Sc:
		return x.T
	case Num:
		if x.L != nil {
			if x.L.isConst() {
				return fmt.Sprintf("lit%d", x.L.c)
			}
			if len(x.L.t) == 1 && x.L.c == 0 {
				for _, t := range x.L.t {
					if t.c == 1 {
						return atomNames[t.a]
					}
				}
			}
			return fnAtom("int", x.L)
		}
	case Str:
		if x.Is {
			return fmt.Sprintf("lit%q", x.Lit)
		}
		return x.T
	case Iface:
		if x.T != "" {
			return x.T
		}
		if x.Dyn != nil {
			return scT(x.Dyn)
		}
	case Bool:
		if x.T == Yes {
			return "lit true"
		}
		if x.T == No {
			return "lit false"
		}
		if x.C != nil && x.C.kind == "atom" && !x.C.neg {
			return x.C.atom
		}
	}
	return ""
}

func (e *Engine) binop(s *State, x *ssa.BinOp) Val {
	a, b := e.operand(s, x.X), e.operand(s, x.Y)
	d := depsJoin(valDeps(a), valDeps(b))
	na, ok1 := a.(Num)
	nb, ok2 := b.(Num)
	isCmp := false
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		isCmp = true
	}
	if ok1 && ok2 {
		if isCmp {
			return e.cmp(s, x.Op, na, nb, d)
		}
		var l *Lin
		switch x.Op {
		case token.ADD:
			l = linAdd(na.L, nb.L, 1)
		case token.SUB:
			l = linAdd(na.L, nb.L, -1)
		case token.MUL:
			if na.L != nil && nb.L != nil {
				if nb.L.isConst() {
					l = linMulC(na.L, nb.L.c)
				} else if na.L.isConst() {
					l = linMulC(nb.L, na.L.c)
				} else {
					k1, k2 := na.L, nb.L
					if k1.key() > k2.key() {
						k1, k2 = k2, k1
					}
					if at := fnAtom("mul", k1, k2); at != "" {
						l = linA(at)
						if s.rng(na.L).lo >= 0 && s.rng(nb.L).lo >= 0 {
							atomLo[at] = 0
						}
					}
				}
			}
		case token.QUO:
			if na.L != nil && nb.L != nil {
				if nb.L.isConst() && nb.L.c == 1 {
					l = na.L
				} else if q, _, ok := s.divide(na.L, nb.L); ok {
					l = q
				} else if at := fnAtom("div", na.L, nb.L); at != "" {
					l = linA(at)
					ra, rb := s.rng(na.L), s.rng(nb.L)
					if ra.lo >= 0 && rb.lo >= 1 {
						s.assume(l, 0, inf)
						s.assume(linAdd(l, na.L, -1), -inf, 0)
						if rb.lo > 0 && ra.lo < inf && nb.L.isConst() {
							s.assume(l, ra.lo/rb.lo, inf)
						}
						// a >= b >= 1 implies a/b >= 1
						if s.provesGE0(linAdd(na.L, nb.L, -1)) {
							s.assume(l, 1, inf)
						}
						// a < b implies a/b == 0
						if s.rng(linAdd(na.L, nb.L, -1)).hi < 0 {
							l = linC(0)
						}
					}
				}
			}
		case token.REM:
			if na.L != nil && nb.L != nil {
				if _, r, ok := s.divide(na.L, nb.L); ok {
					l = r
				} else if at := fnAtom("mod", na.L, nb.L); at != "" {
					l = linA(at)
					ra, rb := s.rng(na.L), s.rng(nb.L)
					if ra.lo >= 0 && rb.lo >= 1 {
						s.assume(l, 0, inf)
						s.assume(linAdd(l, nb.L, -1), -inf, -1)
						s.assume(linAdd(l, na.L, -1), -inf, 0)
					}
				}
			}
		}
		if l == nil {
			if t1, t2 := scT(a), scT(b); t1 != "" && t2 != "" {
				if at := scFn(x.Op.String(), t1, t2); at != "" {
					l = linA(at)
				}
			}
		}
		return Num{L: l, D: d}
	}
	if isCmp {
		eqv := func(t Tri, c *Cond) Val {
			if x.Op == token.NEQ {
				t = triNot(t)
				if c != nil {
					c.neg = !c.neg
				}
			}
			return Bool{T: t, C: c, D: d}
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			if sa, ok := a.(Str); ok {
				if sb, ok := b.(Str); ok {
					return eqv(strEq(sa, sb), strCond(sa, sb))
				}
			}
			// comparison with nil
			nilSide := func(v ssa.Value) bool {
				c, ok := v.(*ssa.Const)
				return ok && c.Value == nil
			}
			if nilSide(x.Y) || nilSide(x.X) {
				v, sv := a, x.X
				if nilSide(x.X) {
					v, sv = b, x.Y
				}
				t, c := e.isNil(s, v, sv)
				return eqv(t, c)
			}
			if ba, ok := a.(Bool); ok {
				if bb, ok := b.(Bool); ok && ba.T != Maybe && bb.T != Maybe {
					return eqv(triOf(ba.T == bb.T), nil)
				}
				if bb, ok := b.(Bool); ok && bb.T != Maybe && ba.C != nil {
					c := *ba.C
					if bb.T == No {
						c.neg = !c.neg
					}
					return eqv(Maybe, &c)
				}
			}
			if t1, t2 := scT(a), scT(b); t1 != "" && t1 == t2 {
				if _, isIface := a.(Iface); isIface {
					return eqv(Yes, nil)
				}
			}
			if pa, ok := a.(Ptr); ok {
				if pb, ok := b.(Ptr); ok {
					if pa.Nil == Yes && pb.Nil == Yes {
						return eqv(Yes, nil)
					}
					if pa.Nil == No && pb.Nil == Yes || pa.Nil == Yes && pb.Nil == No {
						return eqv(No, nil)
					}
				}
			}
		}
		return Bool{T: Maybe, D: d}
	}
	if sa, ok := a.(Str); ok {
		if sb, ok := b.(Str); ok && (sa.K == Yes || sb.K == Yes) && len(d) > 0 && e.sc.hashes {
			d = depsJoin(d, Deps{notOfCell})
		}
		return Str{K: derivedK, D: d}
	}
	if _, ok := a.(Sc); ok {
		return Sc{T: scFn(x.Op.String(), scT(a), scT(b)), D: d}
	}
	return withDeps(e.unknown(x.Type()), d)
}

// names built by the program are not the tracked one
var derivedK = No

func strEq(a, b Str) Tri {
	if a.K == Yes && b.K == Yes {
		return Yes
	}
	if a.K == Yes && b.K == No || a.K == No && b.K == Yes {
		return No
	}
	if a.Is && b.Is {
		return triOf(a.Lit == b.Lit)
	}
	if ca, cb := strClass(a), strClass(b); ca != "" && cb != "" && ca != cb {
		return No
	}
	return Maybe
}

func strCond(a, b Str) *Cond {
	if a.T != "" && b.T != "" {
		x, y := a.T, b.T
		if x > y {
			x, y = y, x
		}
		if at := scFn("streq", x, y); at != "" {
			return &Cond{kind: "atom", atom: at}
		}
	}
	return nil
}

func (e *Engine) isNil(s *State, v Val, sv ssa.Value) (Tri, *Cond) {
	c := &Cond{kind: "nil", val: sv}
	// remember where the value was read from
	if u, ok := sv.(*ssa.UnOp); ok && u.Op == token.MUL {
		if p, ok := e.operand(s, u.X).(Ptr); ok && len(p.Ts) == 1 && !p.Ts[0].Elem {
			l := p.Ts[0]
			c.loc = &l
		}
	}
	switch x := v.(type) {
	case Ptr:
		return x.Nil, c
	case Slice:
		return x.Nil, c
	case MapV:
		return x.Nil, c
	case Iface:
		if x.Nil == Maybe && x.T != "" {
			at := scFn("isnil", x.T)
			if at != "" {
				c.atom = at
				if b, ok := s.batoms[at]; ok {
					return triOf(b), c
				}
			}
		}
		return x.Nil, c
	case FnV:
		return triOf(len(x.Cs) == 0), c
	case ChanV, ArrV:
		return No, c
	case ExtV:
		return No, c
	}
	return Maybe, c
}

func (e *Engine) cmp(s *State, op token.Token, a, b Num, d Deps) Val {
	if a.L == nil || b.L == nil {
		return Bool{T: Maybe, D: d}
	}
	diff := linAdd(a.L, b.L, -1)
	neg := false
	kind := "lt0"
	switch op {
	case token.LSS:
	case token.GEQ:
		neg = true
	case token.GTR:
		diff = linMulC(diff, -1)
	case token.LEQ:
		diff = linMulC(diff, -1)
		neg = true
	case token.EQL:
		kind = "eq0"
	case token.NEQ:
		kind = "eq0"
		neg = true
	}
	if diff == nil {
		return Bool{T: Maybe, D: d}
	}
	r := s.rng(diff)
	t := Maybe
	if kind == "lt0" {
		if r.hi < 0 {
			t = Yes
		} else if r.lo >= 0 {
			t = No
		}
	} else {
		if r.lo == 0 && r.hi == 0 {
			t = Yes
		} else if r.lo > 0 || r.hi < 0 {
			t = No
		}
	}
	c := &Cond{kind: kind, L: diff, neg: neg}
	// emptiness of a map
	if kind == "eq0" || kind == "lt0" {
		if at, ok := single(diff); ok && strings.HasPrefix(at, "mlen:") {
			obj := at[5:]
			if kind == "eq0" {
				c = &Cond{kind: "mlen", atom: obj, L: linA(at), neg: neg}
			} else if diff.coef(at) == -1 && diff.c == 0 { // 0 < len
				c = &Cond{kind: "mlen", atom: obj, L: linA(at), neg: !neg}
			}
		}
	}
	if neg {
		t = triNot(t)
	}
	return Bool{T: t, C: c, D: d}
}

func single(l *Lin) (string, bool) {
	if len(l.t) != 1 || l.c != 0 {
		return "", false
	}
	return atomNames[l.t[0].a], true
}

func (e *Engine) convert(s *State, x *ssa.Convert) Val {
	v := e.operand(s, x.X)
	d := valDeps(v)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return v
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return v
		}
		t := scT(v)
		if t != "" && tb.Info()&types.IsNumeric != 0 && fb.Info()&types.IsNumeric != 0 {
			if tb.Info()&types.IsInteger != 0 {
				if at := scFn("conv", t); at != "" {
					e.share(s, at, t)
					return Num{L: linA(at), D: d}
				}
				return Num{D: d}
			}
			if fb.Kind() == tb.Kind() {
				return v
			}
			return Sc{T: scFn("conv", t), D: d}
		}
	}
	if b, ok := v.(Str); ok && b.K == Yes && e.sc.hashes {
		return Unk{D: Deps{notOfCell}}
	}
	if t := scT(v); t != "" || len(d) > 0 && e.sc.hashes {
		// string <-> bytes
		return Unk{D: d}
	}
	return withDeps(e.unknown(x.Type()), d)
}

// specialSomewhere: the length of a list that holds the special element at an
// unknown place
func (e *Engine) specialSomewhere(s *State, c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	sl, ok := e.operand(s, c.Call.Args[0]).(Slice)
	if !ok || len(sl.Arrs) != 1 {
		return false
	}
	o := s.heap[sl.Arrs[0]]
	if o == nil || o.kind != kArr || o.sp == No || o.spAt == 1 {
		return false
	}
	_, known := s.elements(sl)
	return !known
}

// maxUnroll: how many iterations of a loop with a known number of them are
// followed one by one
func (e *Engine) maxUnroll() int {
	if e.sc != nil && e.sc.unroll > 0 {
		return e.sc.unroll
	}
	return 8
}

// ownTop makes the top frame safe to alter, along with its unrolled loops
func (s *State) ownTop() *Frame {
	f := s.top()
	m := make(map[int]int, len(f.unr)+1)
	for k, v := range f.unr {
		m[k] = v
	}
	f.unr = m
	n := make(map[int]int64, len(f.unb)+1)
	for k, v := range f.unb {
		n[k] = v
	}
	f.unb = n
	return f
}

// unrollable reports whether a loop is controlled by a counter that runs up to
// a small constant
func (e *Engine) unrollable(s *State, head *ssa.BasicBlock, l *loop, phis []*ssa.Phi, vals []Val) bool {
	if len(head.Instrs) == 0 {
		return false
	}
	br, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			}
		}
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	counter := func(v ssa.Value) (int64, bool) {
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && b.Block() == head {
			v = b.X
		}
		for i, p := range phis {
			if v == ssa.Value(p) && isInt(p.Type()) {
				if n, ok := vals[i].(Num); ok && n.L.isConst() {
					return n.L.c, true
				}
			}
		}
		return 0, false
	}
	var bound func(v ssa.Value) (int64, bool)
	bound = func(v ssa.Value) (int64, bool) {
		if c, ok := v.(*ssa.Call); ok && e.specialSomewhere(s, c) {
			return 0, false
		}
		if c, ok := v.(*ssa.Call); ok && l.body[c.Block()] {
			// the length of a slice that the loop does not change
			b, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return 0, false
			}
			if in, ok := c.Call.Args[0].(ssa.Instruction); ok && l.body[in.Block()] {
				return 0, false
			}
			sl, ok := e.operand(s, c.Call.Args[0]).(Slice)
			if !ok || !sl.Ln.isConst() {
				return 0, false
			}
			return sl.Ln.c, true
		}
		off := int64(0)
		if b, ok := v.(*ssa.BinOp); ok && l.body[b.Block()] && (b.Op == token.ADD || b.Op == token.SUB) {
			// n-1, n not changing in the loop
			c, ok := b.Y.(*ssa.Const)
			if !ok {
				return 0, false
			}
			n, ok := e.operand(s, c).(Num)
			if !ok || !n.L.isConst() {
				return 0, false
			}
			off = n.L.c
			if b.Op == token.SUB {
				off = -off
			}
			v = b.X
			if c, ok := v.(*ssa.Call); ok && l.body[c.Block()] {
				r, ok := bound(c)
				return r + off, ok
			}
		}
		if in, ok := v.(ssa.Instruction); ok && l.body[in.Block()] {
			return 0, false
		}
		n, ok := e.operand(s, v).(Num)
		if off != 0 && ok {
			n.L = linAdd(n.L, linC(off), 1)
		}
		if !ok || !n.L.isConst() {
			return 0, false
		}
		return n.L.c, true
	}
	a, ok1 := counter(cmp.X)
	b, ok2 := bound(cmp.Y)
	if !ok1 || !ok2 {
		a, ok1 = counter(cmp.Y)
		b, ok2 = bound(cmp.X)
	}
	m := int64(e.maxUnroll())
	e.unb = b
	return ok1 && ok2 && b-a <= m && a-b <= m
}

// share: the integer part of a number times the ratio between 0 and 1 given
// with the scenario is between 0 and that number
func (e *Engine) share(s *State, at, t string) {
	i := atomTab[t]
	if e.sc == nil || e.sc.ratio == "" || i == nil || i.fn != "*" || len(i.args) != 2 {
		return
	}
	for k, x := range i.args {
		a, ok1 := singleAtom(x)
		b, ok2 := singleAtom(i.args[1-k])
		if !ok1 || !ok2 || a != e.sc.ratio {
			continue
		}
		if c := atomTab[b]; c != nil && c.fn == "conv" && len(c.args) == 1 {
			n := c.args[0]
			if u, ok := singleAtom(n); ok {
				if v := atomTab[u]; v != nil && v.fn == "int" && len(v.args) == 1 {
					n = v.args[0]
				}
				var lit int64
				if _, err := fmt.Sscanf(u, "lit%d", &lit); err == nil {
					n = linC(lit)
				}
			}
			s.assume(linA(at), e.sc.ratioMin, inf)
			s.assume(linAdd(n, linA(at), -1), 0, inf)
		}
	}
}
