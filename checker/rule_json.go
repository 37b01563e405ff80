package main

// C12: what a trained model needs in order to transform or predict survives
// its encoding as JSON. A rule on the types and the SSA form: the state that
// the methods of a model read (training excepted), against the state that
// encoding/json carries.

import (
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	jsonModelNames = []string{"Scaler", "FloatImputer", "HashEncoder", "OneHotEncoder", "AutoPreprocessor"}
}

var jsonModelNames []string

// fieldOf: the field i of a struct type that belongs to a model
type fieldOf struct {
	st *types.Named
	i  int
}

type jsonRule struct {
	w      *World
	r      *ruleReport
	owner  map[*types.Named]string // struct types reachable from a model -> model
	custom map[*types.Named]bool
	lost   map[fieldOf]string // fields that JSON does not carry, and why
}

func ruleJSON(w *World, r *ruleReport) {
	j := &jsonRule{w, r, map[*types.Named]string{}, map[*types.Named]bool{}, map[fieldOf]string{}}
	var models []*types.Named
	for _, n := range jsonModelNames {
		models = append(models, w.named("preprocessing", n))
	}
	models = append(models, w.named("algorithms", "LinearRegressor"))
	for _, m := range models {
		j.closure(m, m.Obj().Name())
	}
	uses, fits := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, m := range models {
		for _, t := range []types.Type{m, types.NewPointer(m)} {
			ms := w.prog.MethodSets.MethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				f := w.prog.MethodValue(ms.At(i))
				if f == nil || !token.IsExported(ms.At(i).Obj().Name()) {
					continue
				}
				if strings.HasPrefix(f.Name(), "Fit") {
					j.reach(f, fits)
				} else if !strings.HasPrefix(f.Name(), "Marshal") && !strings.HasPrefix(f.Name(), "Unmarshal") {
					j.reach(f, uses)
				}
			}
		}
	}
	used := map[fieldOf][]token.Pos{}
	guarded, written, lazily := map[fieldOf]int{}, map[fieldOf]bool{}, map[fieldOf]bool{}
	where := map[fieldOf]*ssa.Function{}
	var gRead, gLazy, gFit = map[*ssa.Global]*ssa.Function{}, map[*ssa.Global]bool{}, map[*ssa.Global]bool{}
	var fns []*ssa.Function
	for f := range w.all {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(a, b int) bool { return fns[a].Pos() < fns[b].Pos() })
	for _, f := range fns {
		if uses[f] {
			r.funcs[fnName(f)] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var fo fieldOf
				var rd, wr bool
				var gd int
				switch x := in.(type) {
				case *ssa.FieldAddr:
					n, ok := x.X.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
					if !ok {
						continue
					}
					fo = fieldOf{n, x.Field}
					rd, wr, gd = addrUses(x)
					if _, ok := x.X.(*ssa.Alloc); ok && uses[f] {
						wr = false // a model made for the occasion
					}
				case *ssa.Field:
					n, ok := x.X.Type().(*types.Named)
					if !ok {
						continue
					}
					fo, rd, gd = fieldOf{n, x.Field}, true, nilGuarded(x)
				default:
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
							continue
						}
						wr := false
						if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
							wr = true
						} else if ld, ok := in.(*ssa.UnOp); ok && changed(ld) {
							wr = true
							if uses[f] && gRead[g] == nil {
								gRead[g] = f
							}
						} else if uses[f] && gRead[g] == nil {
							gRead[g] = f
						}
						if wr && uses[f] {
							gLazy[g] = true
						}
						if wr && fits[f] {
							gFit[g] = true
						}
					}
					continue
				}
				if j.owner[fo.st] == "" {
					continue
				}
				if uses[f] && rd {
					used[fo] = append(used[fo], in.Pos())
					if where[fo] == nil {
						where[fo] = f
					}
					guarded[fo] |= gd
				}
				if wr {
					written[fo] = true
					if uses[f] {
						lazily[fo] = true
					}
				}
			}
		}
	}
	var fos []fieldOf
	for fo := range used {
		fos = append(fos, fo)
	}
	sort.Slice(fos, func(a, b int) bool { return used[fos[a]][0] < used[fos[b]][0] })
	for _, fo := range fos {
		name := fo.st.Obj().Name() + "." + fo.st.Underlying().(*types.Struct).Field(fo.i).Name()
		for range used[fo] {
			r.oblige("state read after training", name)
		}
		why := j.lost[fo]
		if why == "" || guarded[fo] == 1 || lazily[fo] || !written[fo] || isSync(fo.st.Underlying().(*types.Struct).Field(fo.i).Type()) {
			continue
		}
		r.bad("state lost: "+name, w.posOf(used[fo][0])+" in "+fnName(where[fo]),
			"%s needs the field %s, which JSON does not carry (%s): a model that was saved and loaded does not behave like the one that was trained", fnName(where[fo]), name, why)
	}
	for _, g := range sortedGlobals(gRead) {
		r.oblige("global state read after training", g.Name())
		if gFit[g] && !gLazy[g] && !isSync(g.Type()) {
			r.bad("state outside the model: "+g.Name(), w.posOf(g.Pos())+" in "+fnName(gRead[g]),
				"training stores what %s needs in the variable %s and not in the model: a model that was saved and loaded does not behave like the one that was trained", fnName(gRead[g]), g.Name())
		}
	}
}

func sortedGlobals(m map[*ssa.Global]*ssa.Function) []*ssa.Global {
	var r []*ssa.Global
	for g := range m {
		r = append(r, g)
	}
	sort.Slice(r, func(a, b int) bool { return r[a].Pos() < r[b].Pos() })
	return r
}

// isSync: locks, pools and the like are no state
func isSync(t types.Type) bool {
	for {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		break
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync")
}

// closure finds the struct types that are part of a model and the fields that
// JSON does not carry
func (j *jsonRule) closure(t types.Type, model string) {
	switch u := t.(type) {
	case *types.Named:
		if u.Obj().Pkg() == nil || !strings.HasPrefix(u.Obj().Pkg().Path(), modPath) {
			return
		}
		st, ok := u.Underlying().(*types.Struct)
		if !ok {
			j.closure(u.Underlying(), model)
			return
		}
		if j.owner[u] != "" {
			return
		}
		j.owner[u] = model
		for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText", "GobEncode"} {
			if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(u), true, u.Obj().Pkg(), m); o != nil {
				j.custom[u] = true
			}
		}
		if j.custom[u] {
			j.r.oblige("types that encode themselves", u.Obj().Name())
			return
		}
		names := map[string]int{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			name := strings.SplitN(tag, ",", 2)[0]
			pos := j.w.posOf(f.Pos()) + " in " + u.Obj().Name()
			full := u.Obj().Name() + "." + f.Name()
			fo := fieldOf{u, i}
			j.r.oblige("fields of models", full)
			if f.Embedded() && name == "" && tag != "-" {
				if _, ok := f.Type().Underlying().(*types.Struct); ok {
					j.closure(f.Type(), model)
					continue
				}
			}
			switch {
			case tag == "-":
				j.lost[fo] = `it is tagged json:"-"`
			case !f.Exported():
				j.lost[fo] = "it is not exported"
			default:
				if why := j.encodable(f.Type(), map[types.Type]bool{}); why != "" {
					j.r.bad("not encodable: "+full, pos, "the field %s of a model cannot be encoded as JSON: %s", full, why)
				}
				if name == "" {
					name = f.Name()
				}
				if k, ok := names[name]; ok {
					j.lost[fo] = "another field has the same JSON name"
					j.lost[fieldOf{u, k}] = j.lost[fo]
				}
				names[name] = i
			}
			if j.lost[fo] == "" {
				j.closure(f.Type(), model)
			}
		}
	case *types.Pointer:
		j.closure(u.Elem(), model)
	case *types.Slice:
		j.closure(u.Elem(), model)
	case *types.Array:
		j.closure(u.Elem(), model)
	case *types.Map:
		j.closure(u.Elem(), model)
	}
}

// encodable tells why a type makes the encoding or the decoding fail
func (j *jsonRule) encodable(t types.Type, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok {
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), m); o != nil {
				return ""
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Chan, *types.Signature:
		return "its type is " + t.String()
	case *types.Basic:
		if u.Info()&types.IsComplex != 0 || u.Kind() == types.UnsafePointer {
			return "its type is " + t.String()
		}
	case *types.Interface:
		if u.NumMethods() > 0 {
			return "the interface " + t.String() + " cannot be decoded"
		}
	case *types.Pointer:
		return j.encodable(u.Elem(), seen)
	case *types.Slice:
		return j.encodable(u.Elem(), seen)
	case *types.Array:
		return j.encodable(u.Elem(), seen)
	case *types.Map:
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&(types.IsString|types.IsInteger) == 0 {
			if o, _, _ := types.LookupFieldOrMethod(u.Key(), true, nil, "MarshalText"); o == nil {
				return "a map whose keys are " + u.Key().String()
			}
		}
		return j.encodable(u.Elem(), seen)
	}
	return ""
}

// reach collects the functions of the module that a function may run
func (j *jsonRule) reach(f *ssa.Function, seen map[*ssa.Function]bool) {
	if f == nil || seen[f] {
		return
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				// the methods of that name of the models
				for n := range j.owner {
					for _, t := range []types.Type{n, types.NewPointer(n)} {
						if sel := j.w.prog.MethodSets.MethodSet(t).Lookup(n.Obj().Pkg(), c.Common().Method.Name()); sel != nil {
							j.reach(j.w.prog.MethodValue(sel), seen)
						}
					}
				}
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && (j.w.all[g] || g.Synthetic != "") {
					j.reach(g, seen)
				}
			}
		}
	}
	for _, g := range f.AnonFuncs {
		j.reach(g, seen)
	}
}

// addrUses tells whether what is at an address is read or written, and whether
// it is compared with nil first
func addrUses(v ssa.Value) (rd, wr bool, guarded int) {
	for _, in := range *v.Referrers() {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Addr == v {
				wr = true
			} else {
				rd = true
			}
		case *ssa.UnOp:
			rd = true
			if changed(x) {
				wr = true
			}
			guarded |= nilGuarded(x)
		case *ssa.FieldAddr:
			r, w, g := addrUses(x)
			rd, wr, guarded = rd || r, wr || w, guarded|g
		case *ssa.IndexAddr:
			r, w, g := addrUses(x)
			rd, wr, guarded = rd || r, wr || w, guarded|g
		case *ssa.DebugRef:
		default:
			rd = true
		}
	}
	return
}

// changed: the map or the slice that was loaded is written to
func changed(v ssa.Value) bool {
	for _, in := range *v.Referrers() {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				return true
			}
		case *ssa.IndexAddr:
			if _, w, _ := addrUses(x); w {
				return true
			}
		}
	}
	return false
}

// nilGuarded: the value is compared with nil, or its length with zero, and
// something is done instead when there is none (a table rebuilt on demand)
func nilGuarded(v ssa.Value) int {
	r := 0
	for _, in := range *v.Referrers() {
		switch x := in.(type) {
		case *ssa.BinOp:
			r |= insteadOf(x, func(c *ssa.Const) bool { return c.IsNil() })
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				for _, u := range *x.Referrers() {
					if c, ok := u.(*ssa.BinOp); ok {
						r |= insteadOf(c, func(c *ssa.Const) bool { return c.Value != nil && c.Int64() == 0 })
					}
				}
			}
		}
	}
	return r
}

// insteadOf: the branch taken when a value is nil (or zero) does something
// (1), or nothing (2)
func insteadOf(x *ssa.BinOp, none func(*ssa.Const) bool) int {
	c, ok := x.Y.(*ssa.Const)
	op := x.Op
	if !ok {
		if c, ok = x.X.(*ssa.Const); !ok {
			return 0
		}
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.GEQ: token.LEQ, token.LEQ: token.GEQ}[op]
		if op == token.ILLEGAL {
			op = x.Op
		}
	}
	if !none(c) {
		return 0
	}
	for _, u := range *x.Referrers() {
		br, ok := u.(*ssa.If)
		if !ok {
			if _, ok := u.(*ssa.DebugRef); !ok {
				return 1 // the outcome is kept: not followed
			}
			continue
		}
		var on *ssa.BasicBlock
		switch op {
		case token.EQL, token.LEQ:
			on = br.Block().Succs[0]
		case token.NEQ, token.GTR:
			on = br.Block().Succs[1]
		default:
			return 1
		}
		if len(on.Preds) != 1 {
			// nothing is done, unless a value is chosen
			continue
		}
		for _, b := range on.Parent().Blocks {
			if !on.Dominates(b) {
				continue
			}
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Call, *ssa.MapUpdate, *ssa.Store, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc, *ssa.FieldAddr:
					return 1
				}
			}
		}
	}
	return 2
}
