package main

// The automatic preprocessor and the linear regression.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// compField: a field of a component of a model; No if there is no component
func (r *Res) compField(m Ptr, field, typ, sub string) (Val, Tri) {
	p, ok := r.fieldOf(m, "preprocessing", "AutoPreprocessor", field).(Ptr)
	if !ok {
		return nil, Maybe
	}
	if p.Nil == Yes {
		return nil, No
	}
	if len(p.Ts) != 1 {
		return nil, Maybe
	}
	return r.fieldOf(p, "preprocessing", typ, sub), Yes
}

func (r *Res) inComp(m Ptr, field, typ, sub string) Tri {
	v, t := r.compField(m, field, typ, sub)
	switch t {
	case No:
		return No
	case Maybe:
		return Maybe
	}
	if _, ok := v.(MapV); ok {
		return r.inMap(v)
	}
	return r.inList(v)
}

func autoScenarios() []*Scenario {
	var out []*Scenario
	add := func(s *Scenario) {
		if s.returns == "" {
			s.returns = "C14"
		}
		out = append(out, s)
	}
	var vs []mlVariant
	for _, k := range append([]string{""}, kinds...) {
		vs = append(vs, mlVariant{k, true})
		vs = append(vs, mlVariant{k, false})
	}
	type aopt struct{ imp, scal bool }
	newAuto := func(b *B, o aopt, excl bool) Ptr {
		return b.model(b.w.fn("preprocessing", "NewAutoPreprocessor"), b.opt("preprocessing", "AutoPreprocOptions", map[string]Val{
			"Imputing": Bool{T: triOf(o.imp)}, "Scaling": Bool{T: triOf(o.scal)}, "Exclude": b.strs(triOf(excl), "exclude")}))
	}
	set := func(b *B, m Ptr, field string, v Ptr) { b.setField(m, "preprocessing", "AutoPreprocessor", field, v) }
	comps := func(b *B, m Ptr, imp, scal, hash, hot, in, only bool) {
		oth := func(nm string) Val {
			if only {
				return nil
			}
			return b.floatVal(nm)
		}
		if imp {
			c := b.model(b.w.fn("preprocessing", "NewFloatImputer"), b.opt("preprocessing", "FloatImputerOptions", nil))
			b.setField(c, "preprocessing", "FloatImputer", "Fallback", b.strMap("m.Fallback", in, b.floatVal("fb"), oth("ofb")))
			set(b, m, "Imputer", c)
		}
		if scal {
			c := b.model(b.w.fn("preprocessing", "NewScaler"), b.opt("preprocessing", "ScalerOptions", map[string]Val{"Centering": Bool{T: Yes}, "Scaling": Bool{T: Yes}}))
			b.setField(c, "preprocessing", "Scaler", "Shift", b.strMap("m.Shift", in, b.floatVal("shift"), oth("oshift")))
			b.setField(c, "preprocessing", "Scaler", "Scale", b.strMap("m.Scale", in, b.floatVal("scale"), oth("oscale")))
			set(b, m, "Scaler", c)
		}
		if hash {
			c := b.model(b.w.fn("preprocessing", "NewHashEncoder"), b.opt("preprocessing", "HashEncoderOptions", nil))
			b.setField(c, "preprocessing", "HashEncoder", "CategoricalColumns", b.colList(in, only))
			set(b, m, "StringToInt", c)
		}
		if hot {
			c := b.model(b.w.fn("preprocessing", "NewOneHotEncoder"), b.opt("preprocessing", "OneHotOptions", map[string]Val{
				"MissingPolicy": Num{L: linC(b.w.constOf("preprocessing", "SeparateCategoryIfSeen"))}, "UnknownPolicy": Num{L: linC(b.w.constOf("preprocessing", "SharedSeparateCategory"))}}))
			trainHot(b, c, in)
			if only {
				b.setField(c, "preprocessing", "OneHotEncoder", "CategoricalColumns", b.colList(in, only))
				if !in {
					b.setField(c, "preprocessing", "OneHotEncoder", "NewColumns", b.noneOf())
				}
			}
			set(b, m, "IntToBool", c)
		}
	}
	// ---- training
	for _, o := range []aopt{{false, false}, {true, false}, {false, true}, {true, true}} {
		for _, v := range vs {
			for _, ex := range []bool{false, true} {
				for _, again := range []bool{false, true} {
					for _, meth := range []string{"Fit", "FitTransform"} {
						o, v, ex, again, meth := o, v, ex, again, meth
						oth := ex && meth == "Fit" && !v.viewed && o.imp == o.scal
						if v.kind == "" && !again || ex && v.kind == "" || again && v.kind != "" {
							continue
						}
						if v.viewed && meth == "Fit" || again && meth != "Fit" {
							continue
						}
						var m Ptr
						nm := fmt.Sprintf("AutoPreprocessor.%s/imp=%v/scal=%v/excl=%v/again=%v(%s)", meth, o.imp, o.scal, ex, again, v)
						add(&Scenario{
							name: nm, props: []string{"C04", "C13", "C14"},
							sc: Scn{frozen: frozenAll("p", "C04", msgFit), rowSyms: []string{"Np"}, viewed: v.viewed},
							setup: func(b *B) (*ssa.Function, []Val) {
								sp := v.spec()
								sp.noOth = v.kind != "" && !oth
								p := b.frame(sp)
								b.s.assume(p.N, 1, inf)
								m = newAuto(b, o, ex)
								if again {
									comps(b, m, true, true, true, true, true, false)
								}
								fn, _ := b.w.method("preprocessing", "AutoPreprocessor", meth)
								return fn, []Val{m, p.ptr}
							},
							check: func(r *Res) {
								if meth == "Fit" {
									if err, ok := r.ret[0].(Iface); !ok || err.Nil != Yes {
										return
									}
								}
								imp := r.inComp(m, "Imputer", "FloatImputer", "Fallback")
								shift := r.inComp(m, "Scaler", "Scaler", "Shift")
								scale := r.inComp(m, "Scaler", "Scaler", "Scale")
								hash := r.inComp(m, "StringToInt", "HashEncoder", "CategoricalColumns")
								hot := r.inComp(m, "IntToBool", "OneHotEncoder", "CategoricalColumns")
								r.autoTrained("imputation", imp, v.kind == "float" && o.imp && !ex, v, ex)
								r.autoTrained("centering", shift, v.kind == "float" && o.scal && !ex, v, ex)
								r.autoTrained("scaling", scale, v.kind == "float" && o.scal && !ex, v, ex)
								r.autoTrained("conversion of strings", hash, v.kind == "string" && !ex, v, ex)
								r.autoTrained("encoding of categories", hot, (v.kind == "string" || v.kind == "int") && !ex, v, ex)
								if meth == "FitTransform" && v.kind != "" {
									x := Expect{src: r.f["p"], meta: true, rows: "same", order: true}
									r.autoResult(r.ret[0], x, v, ex, true, o.imp || o.scal, v.kind == "string", v.kind == "string" || v.kind == "int")
								}
							},
						})
					}
				}
			}
		}
	}
	// ---- transformation by a trained model, whatever its components
	for n := 0; n < 16; n++ {
		for _, v := range vs {
			for _, in := range []bool{false, true} {
				imp, scal, hash, hot := n&1 > 0, n&2 > 0, n&4 > 0, n&8 > 0
				v, in := v, in
				if v.kind == "" {
					continue
				}
				nr := 0
				for _, x := range []bool{imp, scal, hash, hot} {
					if x {
						nr++
					}
				}
				// when κ is trained there is no other column; the components
				// for other kinds are trained on nothing
				switch {
				case !in:
					if nr > 1 {
						continue
					}
				case v.kind == "float":
					if !imp && !scal {
						continue
					}
				case v.kind == "string":
					if !hash || hot {
						continue
					}
				case v.kind == "int":
					if !hot || hash {
						continue
					}
				default:
					continue
				}
				add(&Scenario{
					name: fmt.Sprintf("AutoPreprocessor.TransformView/imp=%v/scal=%v/hash=%v/hot=%v/in=%v(%s)", imp, scal, hash, hot, in, v), props: []string{"C04", "C07", "C14"},
					sc: Scn{frozen: frozenAll("p", "C04", msgC04), rowSyms: []string{"Np"}, viewed: v.viewed},
					setup: func(b *B) (*ssa.Function, []Val) {
						sp := v.spec()
						sp.noOth = in
						p := b.frame(sp)
						b.s.assume(p.N, 1, inf)
						m := newAuto(b, aopt{imp, scal}, false)
						if in {
							comps(b, m, imp && v.kind == "float", scal && v.kind == "float", hash && v.kind == "string", hot && v.kind == "int", true, true)
							comps(b, m, imp && v.kind != "float", scal && v.kind != "float", hash && v.kind != "string", hot && v.kind != "int", false, true)
						} else {
							comps(b, m, imp, scal, hash, hot, false, false)
						}
						fn, _ := b.w.method("preprocessing", "AutoPreprocessor", "TransformView")
						return fn, []Val{m, p.ptr}
					},
					check: func(r *Res) {
						if err, ok := r.ret[1].(Iface); !ok || err.Nil != Yes {
							return
						}
						x := Expect{src: r.f["p"], meta: true, rows: "same", order: true}
						r.autoResult(r.ret[0], x, v, !in, false, imp || scal, hash, hot)
					},
				})
			}
		}
	}
	return out
}

// autoTrained: κ must be used by a component of the preprocessor, or must not
func (r *Res) autoTrained(what string, in Tri, want bool, v mlVariant, ex bool) {
	r.e.oblige("C14 columns used by the components")
	if in != Maybe {
		r.e.oblige("C14 columns used by the components, decided")
	}
	switch {
	case want && in == No:
		r.bad("C14", "component not trained: "+what, "after the training there is no %s of a %s column of the data", what, v.kind)
	case !want && in == Yes && v.kind == "":
		r.bad("C13", "training not forgotten "+what, "after the training there is still a %s of a column of an earlier training", what)
	case !want && in == Yes && ex:
		r.bad("C14", "excluded column used: "+what, "the training prepares a %s of a %s column that the caller excludes", what, v.kind)
	case !want && in == Yes:
		r.bad("C14", "component trained too much: "+what, "the training prepares a %s of a %s column, for which it is not enabled", what, v.kind)
	}
}

// autoResult: what a column must have become
func (r *Res) autoResult(v Val, x Expect, m mlVariant, out, alone bool, floats, hash, hot bool) {
	for _, f := range r.frames(v) {
		y := x
		switch {
		case out || m.kind == "bool" || m.kind == "object":
			y.kept = true
			if alone || !floats {
				// detaching no column by name may detach them all
				y.storage = "shared"
			}
		case m.kind != "float" && floats:
			y.kept = m.kind != "int" && m.kind != "string"
		case m.kind == "float":
			y.kept = true
			if floats {
				y.storage = "copied"
				r.notCopy(f, r.f["p"])
			}
		case m.kind == "string" && hash:
			y.kept, y.kind = true, "int"
			if hot {
				y.kept, y.kind, y.gone = false, "", true
			}
		case m.kind == "int" && hot && !hash:
			y.gone = true
		default:
			y.kept = true
		}
		r.checkFrame(f, y)
	}
	_ = strings.TrimSpace
}

// colList: the columns a component was trained on
func (b *B) colList(in, only bool) Slice {
	switch {
	case !only:
		return b.strs(triOf(in), "cats")
	case in:
		return b.listOf(types.Typ[types.String], Str{K: Yes})
	}
	return b.noneOf()
}

// notCopy: κ of the result must not hold just the values of the source
func (r *Res) notCopy(f Val, src *FrameH) {
	o, _, ok := r.mapOf(f, partOf(src.kind))
	if !ok || o == nil || o.kP != Yes {
		return
	}
	sl, ok := o.kV.(Slice)
	if !ok || len(sl.Arrs) != 1 {
		return
	}
	r.e.oblige("C14 column transformed")
	if h := r.e.contentFun(r.s, sl); h != nil {
		if arr, pos, ok := colLoad(r.s, h); ok && arr == src.col {
			if at, ok := singleAtom(pos); ok && at == piAtom {
				r.some("C14", "not transformed "+src.kind, "the result has the values of the source in a column that is to be transformed")
			}
		}
	}
}
