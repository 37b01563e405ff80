package main

// Calls: builtins, module functions, interface methods, external functions.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) callTarget(s *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		args = append(args, e.operand(s, c.Value))
		for _, a := range c.Args {
			args = append(args, e.operand(s, a))
		}
		return nil, args
	}
	for _, a := range c.Args {
		args = append(args, e.operand(s, a))
	}
	return e.operand(s, c.Value), args
}

func (e *Engine) callCommon(s *State, c *ssa.CallCommon, in ssa.Instruction) []outcome {
	fv, args := e.callTarget(s, c)
	return e.invoke(s, c, fv, args, in)
}

func (e *Engine) invoke(s *State, c *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction) []outcome {
	ctx := e.ctxOf(s, in)
	if c.IsInvoke() {
		return e.invokeMethod(s, c, args, in, ctx)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(s, b, c, args, in)
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []Val
		if f, ok := fv.(FnV); ok && len(f.Cs) == 1 && f.Cs[0].Fn == fn {
			bind = f.Cs[0].Bind
		}
		return e.callFn(fn, bind, args, s, ctx, in)
	}
	if f, ok := fv.(FnV); ok && len(f.Cs) > 0 {
		var outs []outcome
		for i, cl := range f.Cs {
			t := s
			if i < len(f.Cs)-1 {
				t = s.clone()
			}
			outs = append(outs, e.callFn(cl.Fn, cl.Bind, args, t, e.ctx(ctx*31+i, in), in)...)
		}
		return outs
	}
	e.lost("call of an unknown function")
	s.taint = "call of an unknown function"
	return []outcome{{s, e.unknownResults(c.Signature())}}
}

func (e *Engine) invokeMethod(s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction, ctx int) []outcome {
	recv, ok := args[0].(Iface)
	if ok && recv.Nil == Yes {
		e.dead["method of nil"]++
		return nil
	}
	if ok && recv.Typ != nil && recv.Dyn != nil {
		if m := e.w.prog.LookupMethod(recv.Typ, c.Method.Pkg(), c.Method.Name()); m != nil {
			a := append([]Val{recv.Dyn}, args[1:]...)
			return e.callFn(m, nil, a, s, ctx, in)
		}
	}
	return e.external(nil, c.Method, args, s, ctx, in)
}

func (e *Engine) builtin(s *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, in ssa.Instruction) []outcome {
	ret := func(v ...Val) []outcome { return []outcome{{s, v}} }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return ret(Num{L: x.Ln})
		case MapV:
			for _, id := range x.Objs {
				if o := s.heap[id]; o != nil {
					e.onRead(s, id, o, in)
				}
			}
			return ret(e.mapLen(s, x))
		case ArrV:
			if o := s.heap[x.Obj]; o != nil {
				return ret(Num{L: o.ln})
			}
		case Ptr:
			if a, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if at, ok := a.Elem().Underlying().(*types.Array); ok {
					return ret(Num{L: linC(at.Len())})
				}
			}
		case Str:
			if x.Is {
				return ret(Num{L: linC(int64(len(x.Lit)))})
			}
			if x.T != "" {
				if at := fnAtom("slen", linA(x.T)); at != "" {
					s.assume(linA(at), 0, inf)
					return ret(Num{L: linA(at)})
				}
			}
		case ChanV:
			return ret(Num{})
		}
		n := "len:u" + e.ctxName(s, in)
		s.dropAtoms(func(a string) bool { return a == n })
		s.assume(linA(n), 0, inf)
		return ret(Num{L: linA(n)})
	case "cap":
		if x, ok := args[0].(Slice); ok && len(x.Arrs) == 1 {
			if o := s.heap[x.Arrs[0]]; o != nil && o.ln != nil {
				return ret(Num{L: linAdd(o.ln, x.Off, -1)})
			}
		}
		return ret(Num{})
	case "append":
		t := c.Signature().Results().At(0).Type()
		base, ok1 := args[0].(Slice)
		var more Slice
		ok2 := true
		if len(args) > 1 {
			more, ok2 = args[1].(Slice)
		} else {
			more = Slice{Nil: Yes, Ln: linC(0), Off: linC(0)}
		}
		if !ok1 || !ok2 {
			if !ok1 {
				return ret(Unk{})
			}
			// unknown elements
			if base.Nil == Yes || len(base.Arrs) == 0 {
				return ret(Unk{})
			}
			id := e.alloc(s, e.ctxName(s, in), &Obj{kind: kArr, elemT: t.Underlying().(*types.Slice).Elem(), sum: e.unknown(t.Underlying().(*types.Slice).Elem()), dirty: true})
			return ret(Slice{Arrs: []ObjID{id}, Off: linC(0), Ln: e.lenSym(s, nil, e.ctxName(s, in)), Nil: No})
		}
		return ret(e.appendTo(s, base, more, t, in, e.ctxName(s, in)))
	case "copy":
		dst, ok1 := args[0].(Slice)
		src, ok2 := args[1].(Slice)
		if ok1 && ok2 {
			var n *Lin
			if dst.Ln != nil && src.Ln != nil {
				if s.provesGE0(linAdd(dst.Ln, src.Ln, -1)) {
					n = src.Ln
				} else if s.provesGE0(linAdd(src.Ln, dst.Ln, -1)) {
					n = dst.Ln
				}
			}
			for _, a := range dst.Arrs {
				e.bulk(s, a, dst.Off, n, src, in)
			}
			return ret(Num{L: n})
		}
		if ok1 {
			for _, a := range dst.Arrs {
				if o := s.heap[a]; o != nil {
					e.onWrite(s, a, o, "elem", "", in)
					c := o.clone()
					c.sum, c.fun, c.dirty, c.sp = e.unknown(o.elemT), nil, true, No
					c.lastI, c.lastV, c.v = nil, nil, nil
					s.set(a, c)
				}
			}
		}
		return ret(Num{})
	case "delete":
		e.mapDelete(s, args[0], args[1], in)
		return ret()
	case "close":
		e.closeChan(s, args[0], in)
		return ret()
	case "min", "max":
		if len(args) == 2 {
			a, ok1 := args[0].(Num)
			b2, ok2 := args[1].(Num)
			if ok1 && ok2 && a.L != nil && b2.L != nil {
				d := linAdd(a.L, b2.L, -1)
				lo, hi := a.L, b2.L // a<=b
				t := s.clone()
				r := []outcome{}
				if s.assume(d, -inf, 0) {
					v := lo
					if b.Name() == "max" {
						v = hi
					}
					r = append(r, outcome{s, []Val{Num{L: v}}})
				}
				if t.assume(d, 1, inf) {
					v := hi
					if b.Name() == "max" {
						v = lo
					}
					r = append(r, outcome{t, []Val{Num{L: v}}})
				}
				return r
			}
		}
		return ret(e.unknownResults(c.Signature())...)
	case "clear":
		if m, ok := args[0].(MapV); ok {
			for _, id := range m.Objs {
				if o := s.heap[id]; o != nil {
					s.mapChanged(id)
					o = s.heap[id]
					e.onWrite(s, id, o, "delete", "all", in)
					cc := o.clone()
					if len(m.Objs) == 1 {
						cc.kP, cc.kV, cc.oth = No, nil, nil
					}
					s.set(id, cc)
				}
			}
		}
		return ret()
	case "recover":
		return ret(Iface{Nil: Maybe})
	case "ssa:wrapnilchk":
		return ret(args[0])
	}
	return ret(e.unknownResults(c.Signature())...)
}

func (e *Engine) ctxName(s *State, in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return e.name(s, v)
	}
	return fmt.Sprintf("i%d#%d", in.Pos(), s.top().ctx)
}

// ---- external functions

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func extName(fn *ssa.Function, m *types.Func) string {
	if fn != nil {
		if fn.Origin() != nil {
			return fn.Origin().String()
		}
		return fn.String()
	}
	return m.FullName()
}

func (e *Engine) external(fn *ssa.Function, m *types.Func, args []Val, s *State, ctx int, in ssa.Instruction) []outcome {
	name := extName(fn, m)
	e.extCalls[name]++
	var sig *types.Signature
	if fn != nil {
		sig = fn.Signature
	} else {
		sig = m.Type().(*types.Signature)
	}
	if f := extModels[name]; f != nil {
		return f(e, s, args, sig, in, ctx)
	}
	if e.sc != nil && e.sc.hashes && e.sc.wants("C19") {
		if outs := e.hashing(s, name, args, sig, in, ctx); outs != nil {
			return outs
		}
	}
	// closures handed to the outside may be called
	for _, a := range args {
		if f, ok := a.(FnV); ok {
			for i, cl := range f.Cs {
				var as []Val
				for _, p := range cl.Fn.Params {
					as = append(as, e.unknown(p.Type()))
				}
				if len(cl.Fn.Blocks) > 0 && e.w.inModule(cl.Fn) {
					outs := e.callFn(cl.Fn, cl.Bind, as, s.clone(), e.ctx(ctx*17+i, in), in)
					if len(outs) > 0 {
						s = outs[0].st
						for _, o := range outs[1:] {
							s = merge(s, o.st, fmt.Sprintf("x%d", ctx))
						}
					}
				}
			}
		}
	}
	// pointers to memory of the program may be written through
	if !pureExt(name) {
		e.havocArgs(s, args, in, name)
	}
	// deterministic functions of scalars have a name
	if sig.Results().Len() == 1 && (strings.HasPrefix(name, "math.") || strings.HasPrefix(name, "strconv.")) {
		var ts []string
		for _, a := range args {
			ts = append(ts, scT(a))
		}
		var d Deps
		for _, a := range args {
			d = depsJoin(d, valDeps(a))
		}
		at := scFn(name, ts...)
		switch v := e.unknown(sig.Results().At(0).Type()).(type) {
		case Sc:
			return []outcome{{s, []Val{Sc{T: at, D: d}}}}
		case Bool:
			if at != "" {
				v.C = &Cond{kind: "atom", atom: at}
				if b, ok := s.batoms[at]; ok {
					v.T = triOf(b)
				}
			}
			v.D = d
			return []outcome{{s, []Val{v}}}
		case Str:
			return []outcome{{s, []Val{Str{K: derivedK, T: at, D: d}}}}
		}
	}
	return e.results(s, sig, args, name, in, ctx)
}

// notOfCell, in the dependences of a value: it depends on the name of the
// column as well
const notOfCell ObjID = -7

// hashing follows the states of a hash: fresh, written, summed
func (e *Engine) hashing(s *State, name string, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
	if strings.HasPrefix(name, "hash/") && strings.Contains(name, ".New") && sig.Results().Len() == 1 && len(args) == 0 {
		id := e.alloc(s, fmt.Sprintf("xh#%d", ctx), &Obj{kind: kCell, v: Unk{}, ek: "hash"})
		s.marks["!hash:"+objName(id)] = "fresh"
		p := Ptr{Ts: []Loc{{Obj: id}}, Nil: No}
		if _, ok := sig.Results().At(0).Type().Underlying().(*types.Interface); ok {
			return []outcome{{s, []Val{Iface{Nil: No, Dyn: p}}}}
		}
		return []outcome{{s, []Val{p}}}
	}
	if len(args) == 0 {
		return nil
	}
	v := args[0]
	if i, ok := v.(Iface); ok {
		v = i.Dyn
	}
	p, ok := v.(Ptr)
	if !ok || len(p.Ts) != 1 || s.heap[p.Ts[0].Obj] == nil || s.heap[p.Ts[0].Obj].ek != "hash" {
		return nil
	}
	k := "!hash:" + objName(p.Ts[0].Obj)
	op := name[strings.LastIndexByte(name, '.')+1:]
	switch {
	case op == "Reset":
		s.marks[k] = "fresh"
	case strings.HasPrefix(op, "Write") || strings.HasPrefix(op, "Fprint"):
		e.oblige("C19 text given to a hash")
		if s.marks[k] == "summed" {
			e.alarm("C19", "hash not reset", in, "the hash of a string goes on from the one of an earlier string: the same string gets different numbers")
		}
		for _, a := range args[1:] {
			for _, d := range valDeps(a) {
				if d == notOfCell {
					e.alarm("C19", "hash of more than the string", in, "the hash depends on the name of the column: the same string gets different numbers in two columns")
				}
			}
			if b, ok := a.(Str); ok && b.K == Yes {
				e.alarm("C19", "hash of more than the string", in, "the hash depends on the name of the column: the same string gets different numbers in two columns")
			}
		}
		s.marks[k] = "written"
	case strings.HasPrefix(op, "Sum"):
		e.oblige("C19 hash computed")
		if s.marks[k] == "fresh" {
			e.alarm("C19", "hash of nothing", in, "the hash is taken before the string is given to it: all the strings get the same number")
		}
		s.marks[k] = "summed"
	case op == "Size" || op == "BlockSize":
	default:
		delete(s.marks, k)
	}
	var r []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if isErr(t) {
			r = append(r, Iface{Nil: Yes})
		} else {
			r = append(r, e.unknown(t))
		}
	}
	return []outcome{{s, r}}
}

// results of an unknown external function, which may report a failure
func (e *Engine) results(s *State, sig *types.Signature, args []Val, name string, in ssa.Instruction, ctx int) []outcome {
	n := sig.Results().Len()
	mk := func(st *State) []Val {
		var r []Val
		for i := 0; i < n; i++ {
			t := sig.Results().At(i).Type()
			v := e.unknown(t)
			switch t.Underlying().(type) {
			case *types.Slice:
				v = e.extSlice(st, t, in, ctx, i)
			case *types.Pointer:
				v = e.extObj(st, name, in, ctx, i)
			case *types.Interface:
				v = Iface{Nil: No, Tag: "ext"}
			}
			if b, ok := v.(Str); ok {
				b.K = derivedK
				v = b
			}
			if sl, ok := v.(Slice); ok && name == "path/filepath.Glob" && len(sl.Arrs) == 1 && e.sc != nil && e.sc.faults {
				// one of the files is followed
				c := st.heap[sl.Arrs[0]].clone()
				c.sp, c.spV, c.sum, c.orig = Yes, Str{K: Yes}, Str{K: No}, false
				st.set(sl.Arrs[0], c)
				st.assume(sl.Ln, 1, inf)
			}
			r = append(r, v)
		}
		return r
	}
	if n == 0 || !isErr(sig.Results().At(n-1).Type()) {
		return []outcome{{s, mk(s)}}
	}
	// errors that wrap others
	carries := false
	for _, a := range args {
		carries = carries || e.carriesE(s, a)
	}
	var outs []outcome
	if carries {
		r := mk(s)
		r[n-1] = Iface{Nil: No, Tag: "E"}
		return []outcome{{s, r}}
	}
	if e.mayFault(s, name) {
		t := s.clone()
		t.fault = name + " at " + e.w.pos(in)
		r := e.failResults(t, sig)
		r[n-1] = Iface{Nil: No, Tag: "E"}
		outs = append(outs, outcome{t, r})
	}
	r := mk(s)
	r[n-1] = Iface{Nil: Yes}
	return append(outs, outcome{s, r})
}

// failResults are what comes along with an error
func (e *Engine) failResults(s *State, sig *types.Signature) []Val {
	var r []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Interface, *types.Map:
			r = append(r, e.zero(nil, t, ""))
		default:
			r = append(r, e.unknown(t))
		}
	}
	return r
}

func (e *Engine) mayFault(s *State, name string) bool {
	if e.sc == nil || !e.sc.faults || s.fault != "" {
		return false
	}
	if s.gor != nil && s.gor.recvd && s.gor.jobK != Yes {
		return false
	}
	if e.sc.faultOf != nil {
		return e.sc.faultOf(name)
	}
	return true
}

func (e *Engine) carriesE(s *State, v Val) bool {
	switch x := v.(type) {
	case Iface:
		return x.Nil != Yes && (x.Tag == "E" || x.Dyn != nil && e.carriesE(s, x.Dyn))
	case Slice:
		for _, a := range x.Arrs {
			if o := s.heap[a]; o != nil && o.spV != nil && o.sp != No && e.carriesE(s, o.spV) {
				return true
			}
		}
	case Struct:
		for _, f := range x.F {
			if e.carriesE(s, f) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) extSlice(s *State, t types.Type, in ssa.Instruction, ctx, i int) Val {
	el := t.Underlying().(*types.Slice).Elem()
	nm := fmt.Sprintf("ext%d#%d", i, ctx)
	lenA := "len:" + nm
	s.dropAtoms(func(x string) bool { return x == lenA })
	s.assume(linA(lenA), 0, inf)
	o := &Obj{kind: kArr, ln: linA(lenA), elemT: el, orig: true}
	if in2, ok := el.Underlying().(*types.Slice); ok {
		// rows
		nm2 := nm + "[]"
		l2 := "len:" + nm2
		s.dropAtoms(func(x string) bool { return x == l2 })
		s.assume(linA(l2), 0, inf)
		id2 := e.alloc(s, nm2, &Obj{kind: kArr, ln: linA(l2), elemT: in2.Elem(), orig: true, summary: true})
		o.orig = false
		o.sum = Slice{Arrs: []ObjID{id2}, Off: linC(0), Ln: linA(l2), Nil: No}
	}
	id := e.alloc(s, nm, o)
	return Slice{Arrs: []ObjID{id}, Off: linC(0), Ln: linA(lenA), Nil: No}
}

func (e *Engine) extObj(s *State, name string, in ssa.Instruction, ctx, i int) Val {
	id := e.alloc(s, fmt.Sprintf("xo%d#%d", i, ctx), &Obj{kind: kCell, v: Unk{}, ek: name})
	return Ptr{Ts: []Loc{{Obj: id}}, Nil: No}
}

// pureExt: functions of the outside that do not write through their arguments
func pureExt(name string) bool {
	for _, p := range []string{"fmt.Errorf", "fmt.Sprint", "fmt.Print", "log.", "math.", "strconv.", "strings.", "reflect.", "errors.", "(*testing.",
		"gonum.org/v1/gonum/floats.Max", "gonum.org/v1/gonum/floats.Min", "gonum.org/v1/gonum/floats.Sum", "gonum.org/v1/gonum/stat.", "os.", "path/filepath.",
		"(*log.", "(reflect.", "(*encoding/csv.Writer)", "(*encoding/csv.Reader)", "(hash.", "(io.", "(*os.File)", "(gonum.org/v1/gonum/mat.Matrix)", "(*bufio."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// havocArgs: what an unknown external function may do to the memory it is given
func (e *Engine) havocArgs(s *State, args []Val, in ssa.Instruction, name string) {
	for i, a := range args {
		switch x := a.(type) {
		case Slice:
			_ = x
			e.extUse(s, x, i, name, in)
		}
	}
}

// permute: the elements of the slice are reordered in place
func (e *Engine) permute(s *State, sl Slice, in ssa.Instruction, fnName string) {
	for _, a := range sl.Arrs {
		o := s.heap[a]
		if o == nil || o.kind != kArr {
			continue
		}
		e.onWrite(s, a, o, "elem", "permute", in)
		c := o.clone()
		f := e.contentFun(s, Slice{Arrs: []ObjID{a}, Off: linC(0), Ln: o.ln})
		if n, ok := f.(Num); ok && fnName == "sortasc" {
			if at, ok := singleAtom(n.L); ok && at == piAtom {
				continue // already in order
			}
		}
		if f != nil {
			at := fnAtom(fnName+":"+objName(a), linA(piAtom))
			nf := substVal(f, func(x string) *Lin {
				if x == piAtom {
					if at == "" {
						return nil
					}
					return linA(at)
				}
				return nil
			})
			if n, ok := nf.(Num); ok && n.R == nil {
				// a permutation of a range stays in the range
				if fo, ok := f.(Num); ok {
					if fo.R != nil {
						n.R = fo.R
					} else if at, ok := singleAtom(fo.L); ok && at == piAtom {
						n.R = o.ln
					}
				}
				nf = n
			}
			c.fun = nf
			c.orig, c.zero, c.sum = false, false, nil
		}
		c.spAt = 0
		c.lastI, c.lastV, c.v = nil, nil, nil
		c.dirty = true
		c.pbad = true
		s.set(a, c)
	}
}

type extModel func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome

var extModels map[string]extModel

func init() {
	none := func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
		return []outcome{{s, e.unknownResults(sig)}}
	}
	perm := func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
		v := args[0]
		if i, ok := v.(Iface); ok && i.Dyn != nil {
			v = i.Dyn
		}
		if sl, ok := v.(Slice); ok {
			e.permute(s, sl, in, "sort")
		}
		return []outcome{{s, nil}}
	}
	permAsc := func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
		if sl, ok := args[0].(Slice); ok {
			e.permute(s, sl, in, "sortasc")
		}
		return []outcome{{s, nil}}
	}
	extModels = map[string]extModel{
		"sort.Ints": permAsc, "sort.Strings": perm, "sort.Float64s": perm, "sort.Slice": perm, "sort.SliceStable": perm, "sort.Sort": none,
		"slices.Sort": permAsc, "slices.Reverse": perm, "slices.SortFunc": perm,
		"math/rand.Shuffle": func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
			if f, ok := args[1].(FnV); ok {
				seen := map[ObjID]bool{}
				for _, cl := range f.Cs {
					for _, b := range cl.Bind {
						p, ok := b.(Ptr)
						if !ok {
							if sl, ok := b.(Slice); ok {
								e.permute(s, sl, in, "shuffle")
							}
							continue
						}
						for _, t := range p.Ts {
							if t.Elem {
								continue
							}
							o := s.heap[t.Obj]
							if o == nil {
								continue
							}
							if sl, ok := getPath(o.v, t.Path).(Slice); ok && !seen[t.Obj] {
								seen[t.Obj] = true
								e.permute(s, sl, in, "shuffle")
							}
						}
					}
				}
			}
			return []outcome{{s, nil}}
		},
		"math/rand.Perm": func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
			n, _ := args[0].(Num)
			nm := fmt.Sprintf("perm#%d", ctx)
			ln := e.lenSym(s, n.L, nm)
			id := e.alloc(s, nm, &Obj{kind: kArr, ln: ln, elemT: types.Typ[types.Int]})
			at := fnAtom("shuffle:"+nm, linA(piAtom))
			s.heap[id].fun = Num{L: linA(at), R: ln}
			return []outcome{{s, []Val{Slice{Arrs: []ObjID{id}, Off: linC(0), Ln: ln, Nil: No}}}}
		},
		"gonum.org/v1/gonum/floats.Argsort": func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
			v, ok1 := args[0].(Slice)
			ix, ok2 := args[1].(Slice)
			var key Val
			if ok1 {
				key = e.contentFun(s, v)
				e.permute(s, v, in, "argsort")
			}
			if ok1 && ok2 {
				for _, a := range ix.Arrs {
					if o := s.heap[a]; o != nil && o.kind == kArr {
						e.onWrite(s, a, o, "elem", "", in)
						c := o.clone()
						at := fnAtom("argsort:"+objName(a), linA(piAtom))
						if i := atomTab[at]; i != nil && key != nil {
							if i.of != nil && i.of.key() != key.key() {
								key = Unk{} // sorted by other values on another path
							}
							i.of = key
						}
						c.fun = Num{L: linA(at), R: v.Ln}
						c.sum, c.zero, c.orig, c.dirty, c.pbad = nil, false, false, true, true
						c.lastI, c.lastV, c.v = nil, nil, nil
						s.set(a, c)
					}
				}
			}
			return []outcome{{s, nil}}
		},
		"runtime.NumCPU": func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
			s.assume(linA("ncpu"), 1, inf)
			return []outcome{{s, []Val{Num{L: linA("ncpu")}}}}
		},
		"(*sync.WaitGroup).Add": func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
			if o, id := e.wgObj(s, args[0]); o != nil {
				c := o.clone()
				c.ek = "wg"
				n, _ := args[1].(Num)
				if c.cap == nil {
					c.cap = n.L
				} else {
					c.cap = linAdd(c.cap, n.L, 1)
				}
				if c.cap == nil {
					c.cap = linA("wg?:" + objName(id))
				}
				c.rcv++
				if c.rcv > 3 {
					c.rcv = 3
				}
				s.set(id, c)
			}
			return []outcome{{s, nil}}
		},
		"(*sync.WaitGroup).Done": func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
			if _, id := e.wgObj(s, args[0]); s.gor != nil {
				g := *s.gor
				if g.done < 3 {
					g.done++
				}
				g.wg = fmt.Sprint(id)
				g.notified = true
				s.gor = &g
			}
			return []outcome{{s, nil}}
		},
		"(*sync.WaitGroup).Wait": func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
			if o, id := e.wgObj(s, args[0]); o != nil {
				_ = id
				e.oblige("C09 wait group joined")
			}
			e.joined(s)
			return []outcome{{s, nil}}
		},
		"strconv.ParseBool": parseModel, "strconv.ParseInt": parseModel, "strconv.ParseFloat": parseModel, "strconv.Atoi": parseModel,
		"encoding/csv.NewWriter": extNew("encoding/csv", "Writer"),
		"encoding/csv.NewReader": extNew("encoding/csv", "Reader"),
		"(*encoding/csv.Writer).Write": func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
			return e.csvWrite(s, args, "(*encoding/csv.Writer).Write", in, false)
		},
		"(*encoding/csv.Writer).WriteAll": func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
			return e.csvWrite(s, args, "(*encoding/csv.Writer).WriteAll", in, true)
		},
		"(*encoding/csv.Writer).Flush": func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
			k, ok := e.extKey(s, args[0])
			if !ok {
				return []outcome{{s, nil}}
			}
			if s.marks[k] == "stuck" {
				return []outcome{{s, nil}}
			}
			var outs []outcome
			if s.marks[k] == "pending" && e.mayFault(s, "(*encoding/csv.Writer).Flush") {
				t := s.clone()
				t.fault = "(*encoding/csv.Writer).Flush at " + e.w.pos(in)
				t.marks[k] = "stuck"
				outs = append(outs, outcome{t, nil})
			}
			delete(s.marks, k)
			return append(outs, outcome{s, nil})
		},
		"(*encoding/csv.Writer).Error": func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
			k, ok := e.extKey(s, args[0])
			if !ok {
				return []outcome{{s, []Val{Iface{Nil: Maybe}}}}
			}
			if s.marks[k] == "stuck" {
				return []outcome{{s, []Val{Iface{Nil: No, Tag: "E"}}}}
			}
			return []outcome{{s, []Val{Iface{Nil: Yes}}}}
		},
		"(*encoding/csv.Reader).Read": csvRead, "(*encoding/csv.Reader).ReadAll": csvRead,
		"os.Open": osOpen, "os.Create": osOpen, "os.OpenFile": osOpen, "os.CreateTemp": osOpen,
		"(*os.File).Close": func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
			if p, ok := args[0].(Ptr); ok {
				for _, t := range p.Ts {
					delete(s.marks, "!file:"+objName(t.Obj))
				}
				if p.Nil == Yes {
					return []outcome{{s, []Val{Iface{Nil: No, Tag: "own"}}}}
				}
			}
			return []outcome{{s, []Val{Iface{Nil: Yes}}}}
		},
		"(*sync.Mutex).Lock": lockModel, "(*sync.RWMutex).Lock": lockModel,
		"(*sync.Mutex).Unlock": unlockModel, "(*sync.RWMutex).Unlock": unlockModel,
		"gonum.org/v1/gonum/mat.NewVecDense": matNew, "gonum.org/v1/gonum/mat.NewDense": matNew,
		"(*gonum.org/v1/gonum/mat.Dense).T": func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
			// a matrix that refers to the same memory
			return []outcome{{s, []Val{Iface{Nil: No, Dyn: args[0]}}}}
		},
		"fmt.Errorf":  errModel,
		"errors.New":  errModel,
		"errors.Join": errModel,
	}
}

func errModel(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
	v := Iface{Nil: No, Tag: "own"}
	for _, a := range args {
		if e.carriesE(s, a) {
			v.Tag = "E"
		}
	}
	return []outcome{{s, []Val{v}}}
}

func (e *Engine) wgObj(s *State, v Val) (*Obj, ObjID) {
	p, ok := v.(Ptr)
	if !ok || len(p.Ts) != 1 {
		return nil, 0
	}
	return s.heap[p.Ts[0].Obj], p.Ts[0].Obj
}

// extNew: a new object of an external package, with its exported fields
func extNew(pkg, typ string) extModel {
	return func(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
		v := Val(Unk{})
		if p, ok := sig.Results().At(0).Type().Underlying().(*types.Pointer); ok {
			v = e.zero(nil, p.Elem(), "")
		}
		id := e.alloc(s, fmt.Sprintf("xo#%d", ctx), &Obj{kind: kCell, v: v, ek: pkg + "." + typ})
		e.extObjs[id] = pkg + "." + typ
		return []outcome{{s, []Val{Ptr{Ts: []Loc{{Obj: id}}, Nil: No}}}}
	}
}

func osOpen(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
	name := in.(ssa.CallInstruction).Common().Value.String()
	if e.sc != nil && e.sc.faults {
		e.oblige("C11 step that may fail")
	}
	outs := e.results(s, sig, args, name, in, ctx)
	for _, o := range outs {
		if p, ok := o.ret[0].(Ptr); ok && p.Nil == No && len(p.Ts) == 1 {
			e.oblige("C22 file opened")
			o.st.marks["!file:"+objName(p.Ts[0].Obj)] = e.w.pos(in)
		}
	}
	return outs
}

func lockModel(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
	s.marks["locked"] = "1"
	return []outcome{{s, nil}}
}

func unlockModel(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
	delete(s.marks, "locked")
	return []outcome{{s, nil}}
}

// extKey: the mark of what the writer holds back
func (e *Engine) extKey(s *State, v Val) (string, bool) {
	p, ok := v.(Ptr)
	if !ok || len(p.Ts) != 1 || p.Ts[0].Elem {
		return "", false
	}
	return "!csv:" + objName(p.Ts[0].Obj), true
}

func (e *Engine) csvWrite(s *State, args []Val, name string, in ssa.Instruction, flush bool) []outcome {
	fail := Iface{Nil: No, Tag: "E"}
	k, ok := e.extKey(s, args[0])
	if !ok {
		return []outcome{{s, []Val{Iface{Nil: Maybe}}}}
	}
	e.oblige("C22 rows given to a writer")
	e.atWriter(s, args[0].(Ptr), in)
	if s.marks[k] == "stuck" {
		return []outcome{{s, []Val{fail}}}
	}
	var outs []outcome
	if e.sc != nil && e.sc.faults {
		e.oblige("C11 step that may fail")
	}
	if e.mayFault(s, name) {
		t := s.clone()
		t.fault = name + " at " + e.w.pos(in)
		t.marks[k] = "stuck"
		outs = append(outs, outcome{t, []Val{fail}})
	}
	if flush {
		delete(s.marks, k)
	} else {
		s.marks[k] = "pending"
	}
	return append(outs, outcome{s, []Val{Iface{Nil: Yes}}})
}

// atWriter: the options the caller gave have reached the writer or the reader
func (e *Engine) atWriter(s *State, p Ptr, in ssa.Instruction) {
	if e.sc == nil || len(e.sc.opts) == 0 {
		return
	}
	o := s.heap[p.Ts[0].Obj]
	if o == nil || o.kind != kCell || p.Ts[0].Path != "" {
		return
	}
	fn := in.(ssa.CallInstruction).Common().StaticCallee()
	if fn == nil {
		return
	}
	pt, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer)
	if !ok {
		return
	}
	e.atOptions(s, o.v, pt.Elem(), in)
}

// atOptions: the fields of the options
func (e *Engine) atOptions(s *State, ov Val, t types.Type, in ssa.Instruction) {
	for name, want := range e.sc.opts {
		v, ok := e.field(ov, t, name)
		if !ok {
			continue
		}
		e.oblige("C20 option seen by the reader or writer")
		switch w := want.(type) {
		case Num:
			if n, ok := v.(Num); ok && n.L != nil && exact(n.L) && !s.eq(n.L, w.L) {
				e.alarm("C20", "option "+name+" ignored", in, "the option %s given by the caller has not reached %s", name, typeText(t))
			}
		case Bool:
			if b, ok := v.(Bool); ok && b.T != Maybe && b.T != w.T {
				e.alarm("C20", "option "+name+" ignored", in, "the option %s given by the caller has not reached %s", name, typeText(t))
			}
		case Str:
			if x, ok := v.(Str); ok && w.T != "" && (x.T != w.T && x.T != "" || x.Is) {
				e.alarm("C20", "option "+name+" ignored", in, "the option %s given by the caller has not reached %s", name, typeText(t))
			}
		case Iface:
			if x, ok := v.(Iface); ok && (x.Nil == Yes || x.T != "" && x.T != w.T) {
				e.alarm("C20", "option "+name+" ignored", in, "the option %s given by the caller has not reached %s", name, typeText(t))
			}
		case Slice:
			if x, ok := v.(Slice); ok && x.Nil == Yes {
				e.alarm("C20", "option "+name+" ignored", in, "the option %s given by the caller has not reached %s", name, typeText(t))
			}
		}
	}
}

func typeText(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func csvRead(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
	if p, ok := args[0].(Ptr); ok && len(p.Ts) == 1 {
		e.atWriter(s, p, in)
	}
	if e.sc != nil && e.sc.faults {
		e.oblige("C11 step that may fail")
	}
	outs := e.results(s, sig, args, in.(ssa.CallInstruction).Common().Value.String(), in, ctx)
	if e.sc != nil && len(e.sc.cells) > 0 {
		e.sameCells(outs)
	}
	if e.sc != nil && len(e.sc.doc) > 0 {
		e.docRecords(outs)
	}
	if e.sc == nil || e.sc.fileHdr == No {
		return outs
	}
	// the first record names the columns
	for _, o := range outs {
		sl, ok := o.ret[0].(Slice)
		if !ok || sl.Nil == Yes || len(sl.Arrs) != 1 {
			continue
		}
		a := o.st.heap[sl.Arrs[0]]
		if a == nil || a.kind != kArr || !types.Identical(a.elemT, types.Typ[types.String]) || o.st.marks["!header"] != "" {
			continue
		}
		c := a.clone()
		c.v = Struct{F: []Val{Str{K: e.sc.fileHdr}, Str{K: No}}}
		c.ln, c.zero, c.fun, c.sum, c.orig = linC(2), false, nil, nil, false
		o.st.set(sl.Arrs[0], c)
		sl.Ln = linC(2)
		o.ret[0] = sl
		o.st.marks["!header"] = "1"
	}
	return outs
}

// sameCells: all the records are alike
func (e *Engine) sameCells(outs []outcome) {
	for _, o := range outs {
		sl, ok := o.ret[0].(Slice)
		if !ok || sl.Nil == Yes || len(sl.Arrs) != 1 {
			continue
		}
		a := o.st.heap[sl.Arrs[0]]
		if a == nil || a.kind != kArr {
			continue
		}
		if _, ok := a.elemT.Underlying().(*types.Slice); !ok {
			continue
		}
		n := linC(int64(len(e.sc.cells)))
		var fs []Val
		for _, k := range e.sc.cells {
			fs = append(fs, Str{K: k})
		}
		id := e.alloc(o.st, "records", &Obj{kind: kArr, ln: n, elemT: types.Typ[types.String], v: Struct{F: fs}})
		c := a.clone()
		c.fun, c.orig, c.zero, c.sum, c.sp = Slice{Arrs: []ObjID{id}, Off: linC(0), Ln: n, Nil: No}, false, false, nil, No
		o.st.set(sl.Arrs[0], c)
		if sl.Ln != nil {
			o.st.assume(sl.Ln, 1, inf)
		}
	}
}

// stub: a call of a public function that has scenarios of its own, taken as
// reading whatever its arguments lead to, and possibly failing
func (e *Engine) stub(fn *ssa.Function, args []Val, s *State, ctx int, in ssa.Instruction) []outcome {
	e.oblige("C04 call of an operation analysed separately")
	if e.sc.faults {
		e.oblige("C11 step that may fail")
	}
	for id := range s.reachFrom(args) {
		if o := s.heap[id]; o != nil {
			e.onRead(s, id, o, in)
		}
	}
	if len(e.sc.opts) > 0 {
		for i, a := range args {
			if _, ok := a.(Struct); ok && i < len(fn.Params) {
				e.atOptions(s, a, fn.Params[i].Type(), in)
			}
		}
	}
	return e.results(s, fn.Signature, args, fnName(fn), in, ctx)
}

// matNew: a vector or a matrix that refers to the memory it is given
func matNew(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
	p := e.extObj(s, "mat", in, ctx, 0)
	if sl, ok := args[len(args)-1].(Slice); ok && sl.Nil != Yes {
		pt := p.(Ptr)
		o := s.heap[pt.Ts[0].Obj].clone()
		o.sum, o.ek = sl, "mat"
		s.set(pt.Ts[0].Obj, o)
	}
	return []outcome{{s, []Val{p}}}
}
