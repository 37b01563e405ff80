package main

// Goroutines, channels and wait groups.

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (s *State) gorID() string {
	if s.gor == nil {
		return ""
	}
	return s.gor.id
}

func (e *Engine) spawn(s *State, x *ssa.Go, fv Val, args []Val) []*State {
	f := s.top()
	id := fmt.Sprintf("g%d", e.ctx(f.ctx, x))
	g := &gorInfo{id: id, jobK: Maybe, loopCtx: f.ctx, outer: s.gor}
	fi := e.info(f.fn)
	for _, l := range fi.loops {
		if l.body[x.Block()] && (g.loop == nil || len(l.body) < len(g.loop.body)) {
			g.loop = l
		}
	}
	// a worker started by a helper that is itself called from a loop
	if g.loop == nil {
		for i := len(s.frames) - 2; i >= 0 && g.loop == nil; i-- {
			fr := s.frames[i]
			for _, l := range e.info(fr.fn).loops {
				if fr.cur != nil && l.body[fr.cur] && (g.loop == nil || len(l.body) < len(g.loop.body)) {
					g.loop = l
					g.loopCtx = fr.ctx
				}
			}
			if s.gor != nil && s.gor.depth > i {
				break
			}
		}
	}
	g.depth = len(s.frames)
	e.oblige("C09 goroutine spawned")
	// is a wait group involved?
	wgs := map[ObjID]bool{}
	for id, o := range s.heap {
		if o.ek == "wg" {
			wgs[id] = true
		}
	}
	var preset ObjID = -1
	reach := s.reachFrom(append([]Val{fv}, args...))
	for w := range wgs {
		if reach[w] {
			preset = w
		}
	}
	if preset >= 0 && g.loop != nil {
		sfx := fmt.Sprintf("@%d#%d", g.loop.head.Index, g.loopCtx)
		e.goLoops[sfx] = s.heap[preset].cap
	}
	s.gor = g
	outs := e.invoke(s, &x.Call, fv, args, x)
	var r []*State
	for _, o := range outs {
		t := o.st
		if preset >= 0 {
			e.oblige("C09 worker signals the wait group")
			switch {
			case t.gor.done == 0:
				e.alarm("C09", "worker never signals", x, "a path of the goroutine ends without calling Done: Wait blocks forever")
			case t.gor.done > 1:
				e.alarm("C09", "worker signals twice", x, "a path of the goroutine calls Done more than once")
			}
		}
		if t.gor.recvd && t.gor.drained {
			t.marks["drained"] = "1"
			t.visited["drained"] = 1
		}
		t.gor = g.outer
		if !e.asked[id] || e.given[id] {
			t.unjoin[id] = true // otherwise there is never a job for it
		}
		r = append(r, t)
	}
	if len(outs) == 0 {
		e.dead["goroutine without an end"]++
	}
	return r
}

func (s *State) reachFrom(vs []Val) map[ObjID]bool {
	m := map[ObjID]bool{}
	var work []ObjID
	add := func(o ObjID) {
		if !m[o] {
			m[o] = true
			work = append(work, o)
		}
	}
	for _, v := range vs {
		if v != nil {
			refs(v, add)
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if ob := s.heap[o]; ob != nil {
			ob.refs(add)
		}
	}
	return m
}

// ---- channels

func (e *Engine) chanObj(s *State, v Val) (*Obj, ObjID) {
	c, ok := v.(ChanV)
	if !ok {
		return nil, 0
	}
	o := s.heap[c.Obj]
	if o == nil || o.kind != kChan {
		return nil, 0
	}
	return o, c.Obj
}

func (e *Engine) send(s *State, cv, v Val, in ssa.Instruction) []*State {
	o, id := e.chanObj(s, cv)
	if o == nil {
		e.lost("send on an unknown channel")
		s.taint = "send on an unknown channel"
		return []*State{s}
	}
	c := o.clone()
	if o.closed {
		e.alarm("C09", "send on closed channel", in, "a value is sent on a channel that is already closed")
		return nil
	}
	if o.own != s.gorID() {
		// a worker reports a result
		e.oblige("C09 result notified")
		if s.special(v) || s.gor != nil && s.gor.jobK == Yes && !s.gor.notified {
			if c.cnt >= 1 && e.sc.tracksJobs() {
				e.alarm("C09", "job reported twice", in, "the same job is reported more than once: the results of other jobs are lost")
			}
			if c.cnt < 2 {
				c.cnt++
			}
			c.spV = v
			for _, jid := range s.ids() {
				// the job is settled: later queues are not concerned
				if j := s.heap[jid]; j.kind == kChan && j.sp == Yes && j.rcv == 1 && jid != id && j.own == o.own {
					k := j.clone()
					k.rcv = 2
					s.set(jid, k)
				}
			}
			if s.gor != nil && s.gor.jobK == Yes {
				g := *s.gor
				g.notified = true
				s.gor = &g
			}
		} else {
			c.oth = joinVal(c.oth, killIV(v), s, s, s, "snd"+objName(id))
		}
		s.set(id, c)
		return []*State{s}
	}
	if s.special(v) {
		if c.sp == Yes {
			e.alarm("C09", "job queued twice", in, "the same job is put twice in the queue")
		}
		c.sp, c.spV = Yes, v
	} else {
		c.oth = joinVal(c.oth, killIV(v), s, s, s, "snd"+objName(id))
	}
	s.set(id, c)
	return []*State{s}
}

func (e *Engine) recv(s *State, cv Val, x *ssa.UnOp) []*State {
	o, id := e.chanObj(s, cv)
	set := func(st *State, v Val, ok Tri) *State {
		if x.CommaOk {
			e.set(st, x, Tuple{[]Val{v, Bool{T: ok}}})
		} else {
			e.set(st, x, v)
		}
		return st
	}
	if o == nil {
		e.lost("receive from an unknown channel")
		s.taint = "receive from an unknown channel"
		e.set(s, x, e.unknown(x.Type()))
		return []*State{s}
	}
	var r []*State
	if o.own != s.gorID() {
		// a worker asks for a job
		e.oblige("C09 job received")
		g := *s.gor
		g.recvd = true
		e.asked[g.id] = true
		if o.sp == Yes || o.oth != nil {
			e.given[g.id] = true
		}
		if o.sp == Yes && o.rcv == 0 {
			t := s.clone()
			c := o.clone()
			c.rcv = 1
			t.set(id, c)
			gg := g
			gg.jobK, gg.taken, gg.notified, gg.drained = Yes, true, false, false
			t.gor = &gg
			r = append(r, set(t, o.spV, Yes))
		}
		if o.oth != nil {
			t := s.clone()
			gg := g
			gg.jobK, gg.notified, gg.drained = No, false, false
			t.gor = &gg
			r = append(r, set(t, o.oth, Yes))
		}
		if !o.closed {
			e.alarm("C09", "queue never closed", x, "workers receive from a queue that is not closed when they are started: they wait forever once it is empty")
		}
		gg := g
		gg.jobK, gg.drained = Maybe, true
		s.gor = &gg
		r = append(r, set(s, e.zero(nil, o.elemT, ""), No))
		return r
	}
	// results are being collected
	e.oblige("C09 result awaited")
	for _, f := range s.frames {
		if f.cur == nil {
			continue
		}
		for _, l := range e.info(f.fn).loops {
			if l.body[f.cur] {
				e.rcLoops[fmt.Sprintf("rc:%d@%d#%d", id, l.head.Index, f.ctx)] = true
				e.rcHeads[l.head] = true
			}
		}
	}
	if o.cnt == 0 {
		// is there a job whose result will never come?
		for _, jid := range s.ids() {
			j := s.heap[jid]
			if j.kind != kChan || j.sp != Yes || jid == id || j.own != s.gorID() || j.rcv == 2 {
				continue
			}
			if j.rcv == 0 {
				if s.visited["drained"] == 1 {
					return nil // some worker found the queue empty: not without this job being taken
				}
				e.alarm("C09", "job never taken", x, "a job that was queued is taken by no worker: its result is awaited forever")
				return nil
			}
			e.alarm("C09", "job never reported", x, "a job is taken from the queue but there is a path on which it is never reported: its result is awaited forever")
			return nil
		}
	}
	if o.cnt > 0 && o.rcv == 0 {
		t := s.clone()
		c := o.clone()
		c.rcv = 1
		t.set(id, c)
		v := o.spV
		r = append(r, set(t, v, Yes))
	}
	if o.oth != nil {
		r = append(r, set(s, o.oth, Yes))
	}
	if len(r) == 0 {
		e.dead["nothing to receive"]++
	}
	return r
}

func (s *State) ids() []ObjID {
	r := make([]ObjID, 0, len(s.heap))
	for id := range s.heap {
		r = append(r, id)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (e *Engine) closeChan(s *State, v Val, in ssa.Instruction) {
	o, id := e.chanObj(s, v)
	if o == nil {
		return
	}
	if o.closed {
		e.alarm("C09", "channel closed twice", in, "a channel is closed twice")
	}
	if o.cnt > 0 && o.rcv == 0 && o.own == s.gorID() {
		e.alarm("C09", "results closed too early", in, "the channel of the results is closed before they are all received")
	}
	c := o.clone()
	c.closed = true
	s.set(id, c)
}

// joined: the workers are known to have finished what they were asked to do
func (e *Engine) joined(s *State) {
	s.unjoin = map[string]bool{}
	s.gw = map[ObjID]string{}
	delete(s.visited, "drained")
}

// checkCount: a loop that collects results must collect as many as the
// channel was made for
func (e *Engine) checkCount(s *State, o *Obj, syms map[string]bool, head *ssa.BasicBlock) {
	if o.own != s.gorID() || o.cap == nil {
		return
	}
	f := s.top()
	for iv := range syms {
		init := f.ivInit[iv]
		if init == nil || f.ivStep[iv] > 1 {
			continue
		}
		n := linAdd(linA(iv), init, -1)
		d := linAdd(n, o.cap, -1)
		r := s.rng(d)
		e.oblige("C09 number of results")
		if r.lo > 0 || r.hi < 0 {
			e.alarm("C09", "wrong number of results awaited", lastInstr(head), "the loop waits for a number of results that differs from the number of jobs")
		}
	}
}

func (e *Engine) checkSpawned(s *State, add *Lin, syms map[string]bool, head *ssa.BasicBlock) {
	f := s.top()
	if add == nil {
		return
	}
	for iv := range syms {
		init := f.ivInit[iv]
		if init == nil || f.ivStep[iv] > 1 {
			continue
		}
		d := linAdd(linAdd(linA(iv), init, -1), add, -1)
		r := s.rng(d)
		e.oblige("C09 wait group count")
		if r.lo > 0 || r.hi < 0 {
			e.alarm("C09", "wait group count", lastInstr(head), "the number of goroutines started differs from the count of the wait group")
		}
	}
}

func lastInstr(b *ssa.BasicBlock) ssa.Instruction {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i]
		}
	}
	return b.Instrs[len(b.Instrs)-1]
}

// ---- races

// perWorker: the object was created by the iteration that starts the worker
func (e *Engine) perWorker(s *State, o *Obj) bool {
	g := s.gor
	if o.own == g.id {
		return true
	}
	if g.loop == nil {
		return true // there is only one
	}
	for _, b := range o.birth {
		if b.ctx == g.loopCtx && g.loop.body[b.b] {
			return true
		}
	}
	return false
}

// keyed: objects that belong to the job of the tracked key
func (s *State) keyed() map[ObjID]bool {
	var vs []Val
	for _, o := range s.heap {
		if o.kind == kMap && o.kP != No && o.kV != nil {
			vs = append(vs, o.kV)
		}
		if o.kind == kArr && o.sp != No && o.spV != nil {
			vs = append(vs, o.spV)
		}
	}
	return s.reachFrom(vs)
}

func (s *State) othered() map[ObjID]bool {
	var vs []Val
	for _, o := range s.heap {
		if o.kind == kMap && o.oth != nil {
			vs = append(vs, o.oth)
		}
		if o.kind == kArr {
			for _, v := range []Val{o.sum, o.fun} {
				if v != nil {
					vs = append(vs, v)
				}
			}
		}
	}
	return s.reachFrom(vs)
}

// mapOfKey: is the map the value of one key of a map by name
func (s *State) mapOfKey(id ObjID) (k, oth bool) {
	is := func(v Val) bool {
		m, _ := v.(MapV)
		for _, o := range m.Objs {
			if o == id {
				return true
			}
		}
		return false
	}
	for _, o := range s.heap {
		if o.kind == kMap {
			k = k || o.kP != No && is(o.kV)
			oth = oth || is(o.oth)
		}
	}
	return
}

func (e *Engine) raceWrite(s *State, id ObjID, o *Obj, what string, in ssa.Instruction) {
	if _, locked := s.marks["locked"]; locked {
		return
	}
	if s.gor == nil {
		if g, ok := s.gw[id]; ok && s.unjoin[g] {
			e.alarm("C10", "used before the workers are done", in, "%s is written while workers that write it may still be running", e.desc(id))
		}
		return
	}
	if e.perWorker(s, o) {
		if o.own != s.gor.id {
			s.gw[id] = s.gor.id
			if s.gor.notified && s.gor.jobK != Maybe {
				e.alarm("C10", "write after the job is reported", in, "the worker still writes %s after having reported the job as done", e.desc(id))
			}
		}
		return
	}
	e.oblige("C10 write by a worker")
	s.gw[id] = s.gor.id
	if s.gor.notified && s.gor.jobK != Maybe {
		e.alarm("C10", "write after the job is reported", in, "the worker still writes %s after having reported the job as done", e.desc(id))
	}
	if what == "own" {
		return
	}
	switch o.kind {
	case kMap:
		if k, oth := s.mapOfKey(id); k || oth {
			if s.gor.jobK == No && k && !oth {
				e.alarm("C10", "memory of another job", in, "%s belongs to another job", e.desc(id))
			}
			return
		}
		e.alarm("C10", "shared map", in, "workers running at the same time modify the same map %s", e.desc(id))
	case kArr, kCell:
		k := s.keyed()[id]
		switch s.gor.jobK {
		case Yes:
			if !k && !s.othered()[id] {
				e.alarm("C10", "shared memory", in, "%s is written by workers running at the same time", e.desc(id))
			}
		case No:
			if k && !s.othered()[id] {
				e.alarm("C10", "memory of another job", in, "%s belongs to another job", e.desc(id))
			} else if !k && !s.othered()[id] {
				e.alarm("C10", "shared memory", in, "%s is written by workers running at the same time", e.desc(id))
			}
		default:
			if !k && !s.othered()[id] {
				e.alarm("C10", "shared memory", in, "%s is written by workers running at the same time", e.desc(id))
			}
		}
	}
}

func (e *Engine) raceRead(s *State, id ObjID, o *Obj, in ssa.Instruction) {
	if s.gor != nil || len(s.unjoin) == 0 {
		return
	}
	if g, ok := s.gw[id]; ok && s.unjoin[g] {
		e.alarm("C10", "used before the workers are done", in, "%s is read while workers that write it may still be running", e.desc(id))
	}
}
