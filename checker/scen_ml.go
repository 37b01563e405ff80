package main

// Preprocessing and models.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldPath: the path of an exported field of a struct of the module
func (w *World) fieldPath(pkg, typ, field string) (string, types.Type) {
	st, ok := w.named(pkg, typ).Underlying().(*types.Struct)
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == field {
				return fmt.Sprintf(".%d", i), st.Field(i).Type()
			}
		}
	}
	panic(anchorErr{"field " + pkg + "." + typ + "." + field + " not found"})
}

// model: the object made by a constructor, to be found again at the end
func (b *B) model(fn *ssa.Function, args ...Val) Ptr {
	r := b.call(fn, args...)
	p, ok := r[0].(Ptr)
	if !ok || len(p.Ts) != 1 {
		panic(anchorErr{fnName(fn) + " does not return one new object"})
	}
	o := b.s.heap[p.Ts[0].Obj].clone()
	o.role = "m"
	b.s.set(p.Ts[0].Obj, o)
	b.s.pins = append(b.s.pins, p.Ts[0].Obj)
	p.Nil = No
	return p
}

// setField gives a field of a model its value
func (b *B) setField(p Ptr, pkg, typ, field string, v Val) {
	path, _ := b.w.fieldPath(pkg, typ, field)
	if len(p.Ts) != 1 {
		panic(anchorErr{"the constructor of " + typ + " does not return one new object"})
	}
	l := p.Ts[0]
	o := b.s.heap[l.Obj].clone()
	o.v = setPath(o.v, l.Path+path, v)
	b.s.set(l.Obj, o)
}

func (r *Res) fieldOf(p Ptr, pkg, typ, field string) Val {
	path, _ := r.w.fieldPath(pkg, typ, field)
	if len(p.Ts) != 1 {
		return nil
	}
	l := p.Ts[0]
	o := r.s.heap[l.Obj]
	if o == nil {
		return nil
	}
	return getPath(o.v, l.Path+path)
}

// strMap: a map from column names
func (b *B) strMap(role string, k bool, kv, oth Val) MapV {
	mo := &Obj{kind: kMap, strKey: true, kP: triOf(k)}
	if k {
		mo.kV = kv
	}
	mo.oth = oth
	id := b.obj(role, mo)
	return MapV{Objs: []ObjID{id}, Nil: No}
}

// inMap: is κ a key of the map?
func (r *Res) inMap(v Val) Tri {
	m, ok := v.(MapV)
	if !ok {
		return Maybe
	}
	if m.Nil == Yes {
		return No
	}
	t := Tri(-1)
	for _, id := range m.Objs {
		o := r.s.heap[id]
		if o == nil {
			return Maybe
		}
		if t == -1 {
			t = o.kP
		} else {
			t = triJoin(t, o.kP)
		}
	}
	if t == -1 {
		return Maybe
	}
	return t
}

// inList: is κ an element of the list?
func (r *Res) inList(v Val) Tri {
	sl, ok := v.(Slice)
	if !ok {
		return Maybe
	}
	if sl.Nil == Yes || sl.Ln != nil && r.s.eq(sl.Ln, linC(0)) {
		return No
	}
	if len(sl.Arrs) == 0 {
		return Maybe
	}
	t := Tri(-1)
	for _, id := range sl.Arrs {
		o := r.s.heap[id]
		if o == nil {
			return Maybe
		}
		x := o.sp
		if fs, ok := o.v.(Struct); ok {
			x = No
			for _, f := range fs.F {
				if st, ok := f.(Str); ok {
					if st.K == Yes {
						x = Yes
					} else if st.K == Maybe && x != Yes {
						x = Maybe
					}
				}
			}
		}
		if t == -1 {
			t = x
		} else {
			t = triJoin(t, x)
		}
	}
	return t
}

func (b *B) floatVal(name string) Val {
	return b.e.typedAtom(types.Typ[types.Float64], "arg:"+name, nil)
}

type mlVariant struct {
	kind   string
	viewed bool
}

func (v mlVariant) String() string {
	s := v.kind
	if s == "" {
		s = "without"
	}
	if v.viewed {
		s += "/selected"
	}
	return s
}

func (v mlVariant) spec() FrameSpec {
	return FrameSpec{name: "p", kind: v.kind, viewed: v.viewed, encNil: No}
}

const msgFit = "training changes the data it is given"

func mlScenarios() []*Scenario {
	var out []*Scenario
	add := func(s *Scenario) {
		s.returns = "C13"
		if !strings.Contains(s.name, ".Fit") {
			s.returns = "C16"
		}
		out = append(out, s)
	}
	var vs []mlVariant
	for _, k := range append([]string{""}, kinds...) {
		for _, vw := range []bool{false, true} {
			vs = append(vs, mlVariant{k, vw})
		}
	}
	// ---- scaler
	type sopt struct {
		id                   string
		minmax, center, scal bool
	}
	sopts := []sopt{{"minmax", true, false, false}, {"center", false, true, false}, {"scale", false, false, true}, {"both", false, true, true}, {"none", false, false, false}}
	newScaler := func(b *B, o sopt) Ptr {
		return b.model(b.w.fn("preprocessing", "NewScaler"), b.opt("preprocessing", "ScalerOptions", map[string]Val{
			"MinMax": Bool{T: triOf(o.minmax)}, "Centering": Bool{T: triOf(o.center)}, "Scaling": Bool{T: triOf(o.scal)}}))
	}
	for _, o := range sopts {
		for _, v := range vs {
			for _, again := range []bool{false, true} {
				o, v, again := o, v, again
				if again && v.kind == "float" {
					continue
				}
				var m Ptr
				nm := fmt.Sprintf("Scaler.Fit/%s(%s)", o.id, v)
				if again {
					nm += "/again"
				}
				var mu []must
				if v.kind == "float" && o.id != "none" {
					mu = []must{{"r:p.col", "C13", "the scaler is trained without looking at the float columns"}}
				}
				add(&Scenario{
					name: nm, props: []string{"C04", "C05", "C09", "C10", "C13"}, must: mu,
					sc: Scn{frozen: frozenAll("p", "C04", msgFit), rowSyms: []string{"Np"}, viewed: v.viewed},
					setup: func(b *B) (*ssa.Function, []Val) {
						p := b.frame(v.spec())
						b.s.assume(p.N, 1, inf)
						m = newScaler(b, o)
						if again {
							b.setField(m, "preprocessing", "Scaler", "Shift", b.strMap("m.Shift", true, b.floatVal("shift"), b.floatVal("oshift")))
							b.setField(m, "preprocessing", "Scaler", "Scale", b.strMap("m.Scale", true, b.floatVal("scale"), b.floatVal("oscale")))
						}
						fn, _ := b.w.method("preprocessing", "Scaler", "Fit")
						return fn, []Val{m, p.ptr}
					},
					check: func(r *Res) {
						shift := r.inMap(r.fieldOf(m, "preprocessing", "Scaler", "Shift"))
						scale := r.inMap(r.fieldOf(m, "preprocessing", "Scaler", "Scale"))
						r.trained("shift", shift, v.kind == "float" && (o.minmax || o.center), v)
						r.trained("scale", scale, v.kind == "float" && (o.minmax || o.scal), v)
					},
				})
			}
		}
	}
	for _, meth := range []string{"TransformInplace", "InverseTransformInplace"} {
		for _, part := range []string{"both", "shift", "scale", "others"} {
			for _, v := range vs {
				meth, part, v := meth, part, v
				if v.kind == "" || v.kind != "float" && part != "others" {
					continue
				}
				fz := structFrozen("p", "C16", "a transformation in place changes the structure of the frame")
				fz["p.idx"] = rule{"C16", "a transformation in place changes the rows of the frame"}
				var mu []must
				if part == "others" {
					fz["p.col"] = rule{"C16", "a transformation in place changes a column that it was not trained on"}
				} else {
					mu = []must{{"w:p.col", "C16", "the transformation leaves a column as it was that it was trained on"}, {"r:p.col", "C16", "the transformation overwrites a column without reading it"}}
				}
				add(&Scenario{
					name: fmt.Sprintf("Scaler.%s/%s(%s)", meth, part, v), props: []string{"C05", "C09", "C10", "C16"}, must: mu,
					sc: Scn{frozen: fz, rowSyms: []string{"Np"}, viewed: v.viewed, rmw: map[string]bool{"p.col": true}},
					setup: func(b *B) (*ssa.Function, []Val) {
						p := b.frame(v.spec())
						b.s.assume(p.N, 1, inf)
						m := newScaler(b, sopts[3])
						sh, sc := part == "both" || part == "shift", part == "both" || part == "scale"
						var osh, osc Val = b.floatVal("oshift"), b.floatVal("oscale")
						if part == "shift" {
							osc = nil
						}
						if part == "scale" {
							osh = nil
						}
						b.setField(m, "preprocessing", "Scaler", "Shift", b.strMap("m.Shift", sh, b.floatVal("shift"), osh))
						b.setField(m, "preprocessing", "Scaler", "Scale", b.strMap("m.Scale", sc, b.floatVal("scale"), osc))
						b.sc.frozen["m.Shift"] = rule{"C16", "a transformation changes the trained model"}
						b.sc.frozen["m.Scale"] = rule{"C16", "a transformation changes the trained model"}
						fn, _ := b.w.method("preprocessing", "Scaler", meth)
						return fn, []Val{m, p.ptr}
					},
				})
			}
		}
	}
	out = append(out, imputerScenarios(vs)...)
	out = append(out, encoderScenarios(vs)...)
	out = append(out, autoScenarios()...)
	return out
}

// trained: κ must be among what the model remembers, or must not
func (r *Res) trained(what string, in Tri, want bool, v mlVariant) {
	r.e.oblige("C13 columns remembered by a trained model")
	if in != Maybe {
		r.e.oblige("C13 columns remembered by a trained model, decided")
	}
	if want && in == No {
		r.bad("C13", "not trained "+what, "after the training the model has no %s for a %s column of the data", what, v.kind)
	}
	if !want && in == Yes {
		if v.kind == "" {
			r.bad("C13", "training not forgotten "+what, "after the training the model still has the %s of a column of an earlier training", what)
		} else {
			r.bad("C13", "trained too much "+what, "after the training the model has a %s for a %s column of the data, which it must not transform", what, v.kind)
		}
	}
}

func imputerScenarios(vs []mlVariant) []*Scenario {
	var out []*Scenario
	add := func(s *Scenario) {
		s.returns = "C13"
		if !strings.Contains(s.name, ".Fit") {
			s.returns = "C16"
		}
		out = append(out, s)
	}
	newImputer := func(b *B, policy string) Ptr {
		c := b.w.constOf("preprocessing", policy)
		return b.model(b.w.fn("preprocessing", "NewFloatImputer"), b.opt("preprocessing", "FloatImputerOptions", map[string]Val{"Policy": Num{L: linC(c)}}))
	}
	for _, pol := range []string{"Mean", "Zero", "One"} {
		for _, v := range vs {
			for _, again := range []bool{false, true} {
				pol, v, again := pol, v, again
				if again && v.kind == "float" {
					continue
				}
				var m Ptr
				nm := fmt.Sprintf("FloatImputer.Fit/%s(%s)", pol, v)
				if again {
					nm += "/again"
				}
				var mu []must
				if v.kind == "float" && pol == "Mean" {
					mu = []must{{"r:p.col", "C13", "the imputer is trained without looking at the float columns"}}
				}
				add(&Scenario{
					name: nm, props: []string{"C04", "C05", "C09", "C10", "C13"}, must: mu,
					sc: Scn{frozen: frozenAll("p", "C04", msgFit), rowSyms: []string{"Np"}, viewed: v.viewed},
					setup: func(b *B) (*ssa.Function, []Val) {
						p := b.frame(v.spec())
						b.s.assume(p.N, 1, inf)
						m = newImputer(b, pol)
						if again {
							b.setField(m, "preprocessing", "FloatImputer", "Fallback", b.strMap("m.Fallback", true, b.floatVal("fb"), b.floatVal("ofb")))
						}
						fn, _ := b.w.method("preprocessing", "FloatImputer", "Fit")
						return fn, []Val{m, p.ptr}
					},
					check: func(r *Res) {
						r.trained("fallback", r.inMap(r.fieldOf(m, "preprocessing", "FloatImputer", "Fallback")), v.kind == "float", v)
					},
				})
			}
		}
	}
	for _, v := range vs {
		for _, has := range []bool{false, true} {
			v, has := v, has
			if v.kind == "" || has && v.kind != "float" {
				continue
			}
			fz := structFrozen("p", "C16", "a transformation in place changes the structure of the frame")
			fz["p.idx"] = rule{"C16", "a transformation in place changes the rows of the frame"}
			var mu []must
			part := "others"
			if !has {
				fz["p.col"] = rule{"C16", "a transformation in place changes a column that it was not trained on"}
			} else {
				part = "in"
				mu = []must{{"w:p.col", "C16", "the transformation leaves a column as it was that it was trained on"}, {"r:p.col", "C16", "the transformation overwrites a column without reading it"}}
			}
			fz["m.Fallback"] = rule{"C16", "a transformation changes the trained model"}
			add(&Scenario{
				name: fmt.Sprintf("FloatImputer.TransformInplace/%s(%s)", part, v), props: []string{"C05", "C09", "C10", "C16"}, must: mu,
				sc: Scn{frozen: fz, rowSyms: []string{"Np"}, viewed: v.viewed, rmw: map[string]bool{"p.col": true}},
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(v.spec())
					b.s.assume(p.N, 1, inf)
					m := newImputer(b, "Mean")
					b.setField(m, "preprocessing", "FloatImputer", "Fallback", b.strMap("m.Fallback", has, b.floatVal("fb"), b.floatVal("ofb")))
					fn, _ := b.w.method("preprocessing", "FloatImputer", "TransformInplace")
					return fn, []Val{m, p.ptr}
				},
			})
		}
	}
	_ = strings.TrimSpace
	return out
}

func (b *B) noneOf() Slice { return Slice{Nil: No, Off: linC(0), Ln: linC(0)} }

func encoderScenarios(vs []mlVariant) []*Scenario {
	var out []*Scenario
	add := func(s *Scenario) {
		s.returns = "C13"
		if !strings.Contains(s.name, ".Fit") {
			s.returns = "C16"
		}
		out = append(out, s)
	}
	newHot := func(b *B, miss, unk string, keep bool) Ptr {
		return b.model(b.w.fn("preprocessing", "NewOneHotEncoder"), b.opt("preprocessing", "OneHotOptions", map[string]Val{
			"MissingPolicy": Num{L: linC(b.w.constOf("preprocessing", miss))}, "UnknownPolicy": Num{L: linC(b.w.constOf("preprocessing", unk))}, "KeepUsedColumns": Bool{T: triOf(keep)}}))
	}
	train := trainHot
	type pol struct{ miss, unk string }
	pols := []pol{{"SeparateCategoryIfSeen", "SharedSeparateCategory"}, {"ReturnError", "ReturnError"}, {"SeparateCategory", "SeparateCategory"}, {"ImputeWithMostFrequent", "ImputeWithMostFrequent"}}
	for _, pl := range pols {
		for _, v := range vs {
			for _, again := range []bool{false, true} {
				pl, v, again := pl, v, again
				if again && v.kind == "int" {
					continue
				}
				var m Ptr
				nm := fmt.Sprintf("OneHotEncoder.Fit/%s+%s(%s)", pl.miss, pl.unk, v)
				if again {
					nm += "/again"
				}
				var mu []must
				if v.kind == "int" {
					mu = []must{{"r:p.col", "C13", "the encoder is trained without looking at the integer columns"}}
				}
				add(&Scenario{
					name: nm, props: []string{"C04", "C05", "C09", "C10", "C13"}, must: mu,
					sc: Scn{frozen: frozenAll("p", "C04", msgFit), rowSyms: []string{"Np"}, viewed: v.viewed},
					setup: func(b *B) (*ssa.Function, []Val) {
						p := b.frame(v.spec())
						b.s.assume(p.N, 1, inf)
						m = newHot(b, pl.miss, pl.unk, false)
						if again {
							train(b, m, true)
						}
						fn, _ := b.w.method("preprocessing", "OneHotEncoder", "Fit")
						return fn, []Val{m, p.ptr}
					},
					check: func(r *Res) {
						want := v.kind == "int"
						r.trained("categories", r.inMap(r.fieldOf(m, "preprocessing", "OneHotEncoder", "Categories")), want, v)
						r.trained("fallback", r.inMap(r.fieldOf(m, "preprocessing", "OneHotEncoder", "Fallback")), want, v)
						r.trained("column", r.inList(r.fieldOf(m, "preprocessing", "OneHotEncoder", "CategoricalColumns")), want, v)
					},
				})
			}
		}
		for _, v := range vs {
			for _, keep := range []bool{false, true} {
				for _, in := range []bool{false, true} {
					pl, v, keep, in := pl, v, keep, in
					if v.kind == "" || in && v.kind != "int" || keep && !in {
						continue
					}
					var mu []must
					if in {
						mu = []must{{"r:p.col", "C16", "the encoder does not look at a column that it encodes"}}
					}
					add(&Scenario{
						name: fmt.Sprintf("OneHotEncoder.TransformView/%s+%s/%v/%v(%s)", pl.miss, pl.unk, keep, in, v), props: []string{"C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C16"}, must: mu,
						sc: Scn{frozen: frozenAll("p", "C04", msgC04), rowSyms: []string{"Np"}, viewed: v.viewed},
						setup: func(b *B) (*ssa.Function, []Val) {
							p := b.frame(v.spec())
							b.s.assume(p.N, 1, inf)
							m := newHot(b, pl.miss, pl.unk, keep)
							train(b, m, in)
							fn, _ := b.w.method("preprocessing", "OneHotEncoder", "TransformView")
							return fn, []Val{m, p.ptr}
						},
						check: func(r *Res) {
							if err, ok := r.ret[1].(Iface); !ok || err.Nil != Yes {
								return
							}
							for _, f := range r.frames(r.ret[0]) {
								r.checkFrame(f, Expect{src: r.f["p"], kept: !in || keep, gone: in && !keep, storage: "shared", meta: true, rows: "same", order: true})
							}
						},
					})
				}
			}
		}
	}
	// strings to integers
	newHash := func(b *B) Ptr {
		return b.model(b.w.fn("preprocessing", "NewHashEncoder"), b.opt("preprocessing", "HashEncoderOptions", nil))
	}
	for _, v := range vs {
		for _, again := range []bool{false, true} {
			v, again := v, again
			if again && v.kind == "string" {
				continue
			}
			var m Ptr
			nm := fmt.Sprintf("HashEncoder.Fit(%s)", v)
			if again {
				nm += "/again"
			}
			add(&Scenario{
				name: nm, props: []string{"C04", "C13"},
				sc: Scn{frozen: frozenAll("p", "C04", msgFit), rowSyms: []string{"Np"}, viewed: v.viewed},
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(v.spec())
					m = newHash(b)
					if again {
						b.setField(m, "preprocessing", "HashEncoder", "CategoricalColumns", b.strs(Yes, "cats"))
					}
					fn, _ := b.w.method("preprocessing", "HashEncoder", "Fit")
					return fn, []Val{m, p.ptr}
				},
				check: func(r *Res) {
					r.trained("column", r.inList(r.fieldOf(m, "preprocessing", "HashEncoder", "CategoricalColumns")), v.kind == "string", v)
				},
			})
		}
		for _, in := range []bool{false, true} {
			v, in := v, in
			if v.kind == "" || in && v.kind != "string" {
				continue
			}
			add(&Scenario{
				name: fmt.Sprintf("HashEncoder.TransformView/%v(%s)", in, v), props: []string{"C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C16"},
				sc: Scn{frozen: frozenAll("p", "C04", msgC04), rowSyms: []string{"Np"}, viewed: v.viewed},
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(v.spec())
					b.s.assume(p.N, 1, inf)
					m := newHash(b)
					b.setField(m, "preprocessing", "HashEncoder", "CategoricalColumns", b.strs(triOf(in), "cats"))
					fn, _ := b.w.method("preprocessing", "HashEncoder", "TransformView")
					return fn, []Val{m, p.ptr}
				},
				check: func(r *Res) {
					for _, f := range r.frames(r.ret[0]) {
						x := Expect{src: r.f["p"], kept: true, storage: "shared", meta: true, rows: "same", order: true}
						if in {
							x.kind, x.storage = "int", ""
						}
						r.checkFrame(f, x)
					}
				},
			})
		}
	}
	return out
}

// trainHot: an encoder that was trained with κ, or without it
func trainHot(b *B, m Ptr, k bool) {
	catMap := func(b *B) Val {
		id := b.obj("m.cats", &Obj{kind: kMap, oth: Str{K: No, T: "arg:newcol"}})
		return MapV{Objs: []ObjID{id}, Nil: No}
	}
	fbList := func(b *B, nm string) Val {
		id := b.obj("m."+nm, &Obj{kind: kArr, ln: linC(2), elemT: types.Typ[types.String], sum: Str{K: No, T: "arg:" + nm}})
		return Slice{Arrs: []ObjID{id}, Off: linC(0), Ln: linC(2), Nil: No}
	}
	cols := b.strs(triOf(k), "cats")
	if k {
		b.setField(m, "preprocessing", "OneHotEncoder", "CategoricalColumns", cols)
	} else {
		b.setField(m, "preprocessing", "OneHotEncoder", "CategoricalColumns", b.strs(No, "cats"))
	}
	b.setField(m, "preprocessing", "OneHotEncoder", "NewColumns", b.strs(No, "newcols"))
	b.setField(m, "preprocessing", "OneHotEncoder", "Categories", b.strMap("m.Categories", k, catMap(b), catMap(b)))
	b.setField(m, "preprocessing", "OneHotEncoder", "Fallback", b.strMap("m.HotFallback", k, fbList(b, "fbk"), fbList(b, "fbo")))
}
