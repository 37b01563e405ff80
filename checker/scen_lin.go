package main

// The linear regression and the evaluation functions.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const msgPredict = "predicting changes the model"

func linScenarios() []*Scenario {
	var out []*Scenario
	add := func(s *Scenario) { out = append(out, s) }
	var vs []mlVariant
	for _, k := range kinds {
		vs = append(vs, mlVariant{k, true}, mlVariant{k, false})
	}
	newReg := func(b *B) Ptr { return b.model(b.w.fn("algorithms", "NewLinearRegressor")) }
	set := func(b *B, m Ptr, f string, v Val) { b.setField(m, "algorithms", "LinearRegressor", f, v) }
	trainReg := func(b *B, m Ptr, feats Val, n *Lin) {
		sc := b.model(b.w.fn("preprocessing", "NewScaler"), b.opt("preprocessing", "ScalerOptions", map[string]Val{"Centering": Bool{T: Yes}, "Scaling": Bool{T: Yes}}))
		b.setField(sc, "preprocessing", "Scaler", "Shift", b.strMap("m.Shift", false, nil, b.floatVal("oshift")))
		b.setField(sc, "preprocessing", "Scaler", "Scale", b.strMap("m.Scale", false, nil, b.floatVal("oscale")))
		set(b, m, "TargetScaler", sc)
		w := b.userSlice("weights", types.Typ[types.Float64], n)
		set(b, m, "Weights", w)
		set(b, m, "Features", feats)
		for _, r := range []string{"m.Shift", "m.Scale", "u.weights", "u.feats"} {
			b.sc.frozen[r] = rule{"C25", msgPredict}
		}
	}
	// ---- training
	for _, v := range vs {
		for _, tgt := range []bool{false, true} {
			for _, low := range []bool{false, true} {
				v, tgt, low := v, tgt, low
				if tgt && v.kind != "float" || low && !v.viewed {
					continue
				}
				var m Ptr
				stubs := map[string]bool{"(*dataframe.DataFrame).SplitView": true, "(*dataframe.DataFrame).ShuffleView": true,
					"(*dataframe.DataFrame).Copy": true, "(*dataframe.Dense64Batching).DenseMatrix": true}
				if !tgt {
					stubs["(*preprocessing.Scaler).Fit"] = true
				}
				var mu []must
				if v.kind == "float" || v.kind == "bool" {
					mu = []must{{"r:p.col", "C25", "the regression is trained without looking at the columns of numbers"}}
				}
				add(&Scenario{
					name: fmt.Sprintf("LinearRegressor.Fit/target=%v/low=%v(%s)", tgt, low, v), props: []string{"C04", "C05", "C25"}, must: mu, returns: "C25",
					sc: Scn{frozen: frozenAll("p", "C04", msgFit), rowSyms: []string{"Np"}, viewed: v.viewed, stubs: stubs},
					setup: func(b *B) (*ssa.Function, []Val) {
						sp := v.spec()
						sp.others = "floats"
						sp.noOth = tgt
						p := b.frame(sp)
						b.s.assume(p.N, 1, inf)
						m = newReg(b)
						fn, _ := b.w.method("algorithms", "LinearRegressor", "Fit")
						o := map[string]Val{"LowMemory": Bool{T: triOf(low)}, "Verbose": Bool{T: No}}
						return fn, []Val{m, p.ptr, Str{K: triOf(tgt)}, b.opt("algorithms", "LinRegTrainParams", o)}
					},
					check: func(r *Res) {
						in := r.inList(r.fieldOf(m, "algorithms", "LinearRegressor", "Features"))
						r.e.oblige("C25 features of a trained regression")
						want := !tgt && (v.kind == "float" || v.kind == "bool")
						switch {
						case want && in == No:
							r.bad("C25", "feature left out "+v.kind, "after the training a %s column of the data is not a feature", v.kind)
						case !want && in == Yes && tgt:
							r.bad("C25", "target used as a feature", "after the training the target is among the features")
						case !want && in == Yes:
							r.bad("C25", "not a feature "+v.kind, "after the training a %s column is among the features", v.kind)
						}
					},
				})
			}
		}
	}
	// ---- prediction
	for _, v := range append(vs, mlVariant{"", false}, mlVariant{"", true}) {
		for _, how := range []string{"other", "result", "_target"} {
			v, res, lit := v, how == "result", ""
			if v.kind == "" && !res || how != "other" && v.kind != "" && v.kind != "float" {
				continue
			}
			if how == "_target" {
				lit = how
			}
			add(&Scenario{
				name: fmt.Sprintf("LinearRegressor.Predict/%s(%s)", how, v),
				must: []must{{"r:m.Shift", "C25", "the predictions are not scaled back"}, {"r:m.Scale", "C25", "the predictions are not scaled back"}}, props: []string{"C01", "C04", "C05", "C06", "C07", "C08", "C25"}, returns: "C25",
				sc: Scn{frozen: frozenAll("p", "C04", "predicting changes the data it is given"), rowSyms: []string{"Np"}, viewed: v.viewed, kLit: lit,
					stubs: map[string]bool{"(*dataframe.Dense64Batching).DenseMatrix": true}},
				setup: func(b *B) (*ssa.Function, []Val) {
					sp := v.spec()
					sp.noOth = res && v.kind != ""
					if !sp.noOth {
						sp.others = "floats"
					}
					p := b.frame(sp)
					b.s.assume(p.N, 1, inf)
					m := newReg(b)
					feats := b.listOf(types.Typ[types.String], Str{K: No, T: "feat"})
					if sp.noOth {
						feats = b.noneOf()
					}
					trainReg(b, m, feats, linC(1))
					fn, _ := b.w.method("algorithms", "LinearRegressor", "Predict")
					return fn, []Val{m, p.ptr, Str{K: triOf(res)}}
				},
				check: func(r *Res) {
					if err, ok := r.ret[1].(Iface); !ok || err.Nil != Yes {
						return
					}
					for _, f := range r.frames(r.ret[0]) {
						r.checkFrame(f, Expect{src: r.f["p"], kept: how == "other", meta: true})
						if res {
							r.e.oblige("C25 column of the predictions")
							if r.hasK(f, "floats") == No {
								r.bad("C25", "no predictions", "the result has no float column of the given name")
							}
							if o, _, ok := r.mapOf(f, "floats"); ok && o != nil && o.kP == Yes {
								if sl, ok := o.kV.(Slice); ok && len(sl.Arrs) == 1 && sl.Arrs[0] == r.f["p"].col {
									r.bad("C25", "predictions of the source", "the result still has, under the name given for the predictions, the column of the input")
								}
							}
						}
					}
				},
			})
		}
	}
	// ---- evaluation
	for _, name := range []string{"MSE", "MAE"} {
		for _, vw := range []bool{false, true} {
			name, vw := name, vw
			v := mlVariant{"float", vw}
			add(&Scenario{
				name: fmt.Sprintf("%s(%s)", name, v), props: []string{"C04", "C05"}, returns: "C05",
				must: []must{{"r:p.col", "C05", "the evaluation does not look at the values"}},
				sc:   Scn{frozen: frozenAll("p", "C04", "evaluating changes the data"), rowSyms: []string{"Np"}, viewed: vw},
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(v.spec())
					b.s.assume(p.N, 1, inf)
					fn, args := b.onDF(p, "Floats", Str{K: Yes})
					a := b.call(fn, args...)
					return b.w.fn("algorithms", name), []Val{a[0], a[0]}
				},
			})
		}
	}
	return out
}
