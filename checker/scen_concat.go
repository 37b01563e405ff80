package main

// Concatenations, transfers and merges.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errNil: is the error the call returned nil?
func (r *Res) errNil() Tri {
	if len(r.ret) == 0 {
		return Maybe
	}
	i, ok := r.ret[len(r.ret)-1].(Iface)
	if !ok {
		return Maybe
	}
	return i.Nil
}

// rawFrame: a pointer to the raw data of a frame
func (b *B) rawPtrs(special, others *FrameH, at int) Slice {
	var o Ptr
	if others != nil {
		o = b.rawPtr(others)
	}
	s := b.ptrs(b.rawPtr(special), o, at, "list")
	b.s.heap[s.Arrs[0]].elemT = ptrTo(b.d.raw)
	return s
}

// pair: the list of two frames, p being the first or the second
func (b *B) pair(p, q *FrameH, at int) Slice {
	t := ptrTo(b.d.df)
	if at == 1 {
		return b.listOf(t, p.ptr, q.ptr)
	}
	return b.listOf(t, q.ptr, p.ptr)
}

func concatScenarios() []*Scenario {
	var out []*Scenario
	add := func(s *Scenario) { out = append(out, s) }
	frozen2 := func() map[string]rule {
		return merged(frozenAll("p", "C04", msgC04), frozenAll("q", "C04", msgC04))
	}
	const (
		mRow   = "rows"
		mView  = "view"
		mCopy  = "copy"
		mSmart = "smart"
	)
	ops := []struct{ name, mode string }{{"RowConcat", mRow}, {"ColumnConcatView", mView}, {"ColumnCopyConcat", mCopy}, {"ColumnSmartConcat", mSmart}}

	// success: κ in one of the frames (columns) or in all of them (rows)
	for _, op := range ops {
		for _, at := range []int{1, 2} {
			vs := variants(true)
			for _, k := range kinds {
				vs = append(vs, variant{kind: k, viewed: true, mixed: true})
			}
			for _, v := range vs {
				op, at, v := op, at, v
				if v.mixed && at == 2 && (op.mode == mView || op.mode == mSmart) {
					continue
				}
				good, bad := 0, 0
				var mu []must
				if v.viewed && (op.mode == mView || op.mode == mCopy) {
					mu = append(mu, must{"r:p.idx", "C21", "frames are concatenated without looking at which rows they select"})
				}
				if v.maps && v.shareK || op.mode != mView && (v.maps || v.shareK) || op.mode == mSmart && at == 2 {
					continue
				}
				add(&Scenario{
					name:  fmt.Sprintf("%s@%d(%s)", op.name, at, v),
					must:  mu,
					props: []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C21"},
					sc:    Scn{frozen: frozen2(), rowSyms: []string{"Np", "Nq"}, viewed: v.viewed},
					setup: func(b *B) (*ssa.Function, []Val) {
						sp := v.spec("p")
						sq := FrameSpec{name: "q", viewed: v.viewed && !v.mixed, maps: v.maps, encNil: No, safe: No}
						if op.mode == mCopy || op.mode == mSmart {
							sp.noOth, sq.noOth = true, true
						}
						p := b.frame(sp)
						if op.mode == mRow {
							sq.kind = v.kind
						} else {
							// the same rows
							sq.n = "Np"
							if v.viewed && !v.mixed {
								sq.a = "Ap"
							}
						}
						q := b.frame(sq)
						b.s.assume(p.N, 1, inf)
						if op.mode == mRow {
							q.encNil = No
						}
						good, bad = 0, 0
						return b.w.fn("dataframe", op.name), []Val{b.pair(p, q, at)}
					},
					check: func(r *Res) {
						if r.errNil() == No {
							bad++
						} else {
							good++
						}
						if r.errNil() != Yes {
							return
						}
						src := r.f["p"]
						x := Expect{src: src, kept: true, storage: "copied", rows: "", meta: false}
						switch op.mode {
						case mView:
							x.storage = "shared"
						case mSmart:
							x.storage = ""
						}
						for _, f := range r.frames(r.ret[0]) {
							y := x
							if op.mode != mRow {
								y.noShare = true // the checks below are made against the frame that gives the header
							}
							r.checkFrame(f, y)
							first := *src
							if at == 2 {
								first = *r.f["q"]
							}
							r.checkSettings(f, &first)
							if op.mode != mRow {
								r.checkOwn(f, "")
							}
						}
					},
					final: func(b *B, fn *ssa.Function, outs int) {
						b.e.oblige("C21 matching frames accepted")
						if good == 0 && bad > 0 {
							b.e.alarmAt("C21", "match rejected", b.w.posOf(fn.Pos())+" in "+fnName(fn), "frames that match are always rejected")
						}
					},
				})
			}
		}
	}
	// mismatches must be rejected (C21)
	for _, op := range ops {
		for _, at := range []int{1, 2} {
			for _, k := range kinds {
				type mm struct {
					name   string
					pk, qk string
					nq     string
					modes  string
					msg    string
				}
				other := "int"
				if k == "int" {
					other = "float"
				}
				for _, m := range []mm{
					{"missing", "", k, "", mRow, "frames that lack a column of the others are accepted: their rows of that column are invented"},
					{"extra", k, "", "", mRow, "a column that the other frames lack is accepted and lost, or filled with invented values"},
					{"kinds", k, other, "", mRow, "a column that has different kinds in the frames is accepted"},
					{"overlap", k, k, "Np", "cols", "two frames that have a column of the same name are accepted: one of the two columns is lost"},
					{"overlap2", k, other, "Np", "cols", "two frames that have a column of the same name are accepted: the result has the column twice"},
					{"rows", k, "", "Nq", "cols", "frames with different numbers of rows are accepted"},
				} {
					op, at, k, m := op, at, k, m
					if (m.modes == mRow) != (op.mode == mRow) {
						continue
					}
					if m.name == "rows" && k != "float" {
						continue
					}
					if op.mode == mSmart && at == 2 {
						continue
					}
					for _, viewed := range []bool{false, true} {
						viewed := viewed
						add(&Scenario{
							name:  fmt.Sprintf("%s@%d/%s(%s,%v)", op.name, at, m.name, k, viewed),
							props: []string{"C21"},
							sc:    Scn{},
							setup: func(b *B) (*ssa.Function, []Val) {
								noOth := true
								p := b.frame(FrameSpec{name: "p", kind: m.pk, viewed: viewed, encNil: No, safe: No, noOth: noOth})
								q := b.frame(FrameSpec{name: "q", kind: m.qk, viewed: viewed, encNil: No, safe: No, n: m.nq, noOth: noOth})
								b.s.assume(p.N, 1, inf)
								if m.name == "rows" {
									d := b.sym("Dq")
									b.s.assume(d, 1, inf)
									b.s.assume(linAdd(q.N, p.N, -1), 1, inf)
								}
								return b.w.fn("dataframe", op.name), []Val{b.pair(p, q, at)}
							},
							check: func(r *Res) {
								r.e.oblige("C21 mismatch rejected")
								if r.errNil() == Yes {
									r.bad("C21", "mismatch accepted "+m.name, "%s", m.msg)
								}
							},
						})
					}
				}
			}
		}
	}
	return out
}

// checkSettings: maximum number of CPUs and text encoding
func (r *Res) checkSettings(f Val, src *FrameH) {
	if n, ok := r.part(f, "maxCPU").(Num); ok && n.L != nil {
		r.e.oblige("C08 max CPU kept")
		if !r.s.eq(n.L, linA("cpu:"+src.name)) && exact(n.L) {
			r.bad("C08", "max CPU lost", "the result does not use the maximum number of CPUs of the first frame")
		}
	}
	if i, ok := r.part(f, "enc").(Iface); ok {
		r.e.oblige("C08 text encoding kept")
		if src.encNil == No && (i.Nil == Yes || i.T != "" && i.T != src.name+".enc") {
			r.bad("C08", "text encoding lost", "the result does not have the text encoding of the first frame")
		}
	}
}

// checkOwn: the result of a concatenation has tables of its own, or says that they are shared
func (r *Res) checkOwn(f Val, own string) {
	sm, ok := r.part(f, "sharedMaps").(Bool)
	if !ok {
		return
	}
	for _, m := range append([]string{"strhdr"}, mapParts...) {
		_, id, ok := r.mapOf(f, m)
		if !ok || id < 0 {
			continue
		}
		r.e.oblige("C01 structure sharing recorded")
		if role := r.role(id); role != "" && sm.T == No && !(own != "" && strings.HasPrefix(role, own)) {
			r.bad("C01", "shared map "+m, "the result uses the tables of one of its sources as its own: structural changes of one alter the other")
		}
	}
	o, _, ok := r.mapOf(f, partOf(r.f["p"].kind))
	if !ok || o == nil || o.kP != Yes {
		return
	}
	s, ok := o.kV.(Slice)
	if !ok || len(s.Arrs) == 0 {
		return
	}
	only := true
	for _, a := range s.Arrs {
		only = only && a == r.f["p"].col
	}
	if only && sm.T == No {
		r.e.oblige("C02 sharing recorded")
		if r.hasK(f, "shared") == No {
			r.bad("C02", "sharing not recorded", "the result refers to a column of one of its sources but does not record it as shared: it cannot be detached")
		}
	}
}
func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

// rawFrames: the raw data a value points to, as parts of otherwise empty frames
func (r *Res) rawFrames(v Val) []Val {
	p, ok := v.(Ptr)
	if !ok {
		return nil
	}
	var out []Val
	for _, t := range p.Ts {
		o := r.s.heap[t.Obj]
		if o == nil || o.kind != kCell {
			continue
		}
		w := getPath(o.v, t.Path)
		if w == nil {
			continue
		}
		z := r.e.zero(nil, r.d.df, "")
		out = append(out, setPath(z, r.d.rawPath, w))
	}
	return out
}

func transferScenarios() []*Scenario {
	var out []*Scenario
	add := func(s *Scenario) { out = append(out, s) }
	fz := func(ps ...string) map[string]rule {
		m := map[string]rule{}
		for _, p := range ps {
			m = merged(m, frozenAll(p, "C04", msgC04))
		}
		return m
	}
	props := []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"}
	for _, v := range variants(true) {
		v := v
		if v.viewed {
			continue
		}
		// q receives the columns of p
		for _, qm := range []bool{false, true} {
			for _, qk := range []bool{false, true} {
				qm, qk := qm, qk
				f := fz("p")
				if qm {
					f = merged(f, structFrozen("q", "C01", msgC01))
				}
				add(&Scenario{
					name:  fmt.Sprintf("TransferRawDataFrom(%s,%v,%v)", v, qm, qk),
					props: props,
					sc:    Scn{frozen: f},
					setup: func(b *B) (*ssa.Function, []Val) {
						p := b.frame(v.spec("p"))
						sq := FrameSpec{name: "q", n: "Np", maps: qm, encNil: No, safe: No}
						if qk {
							sq.kind = v.kind
						}
						q := b.frame(sq)
						b.s.assume(p.N, 1, inf)
						fn, _ := b.w.method("dataframe", "RawData", "TransferRawDataFrom")
						return fn, []Val{b.rawPtr(q), b.rawPtr(p)}
					},
					check: func(r *Res) {
						for _, f := range r.frames(r.f["q"].ptr) {
							r.checkFrame(f, Expect{src: r.f["p"], kept: true, storage: "shared", noShare: true})
							r.checkOwn(f, map[bool]string{false: "q.", true: ""}[qm])
						}
					},
				})
			}
		}
		for _, at := range []int{1, 2} {
			at := at
			pair := func(b *B, p, q *FrameH) Slice {
				t := ptrTo(b.d.raw)
				if at == 1 {
					return b.listOf(t, b.rawPtr(p), b.rawPtr(q))
				}
				return b.listOf(t, b.rawPtr(q), b.rawPtr(p))
			}
			add(&Scenario{
				name:  fmt.Sprintf("MergeRawDataColumns@%d(%s)", at, v),
				props: props,
				sc:    Scn{frozen: fz("p", "q")},
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(v.spec("p"))
					q := b.frame(FrameSpec{name: "q", n: "Np", encNil: No, safe: No})
					b.s.assume(p.N, 1, inf)
					return b.w.fn("dataframe", "MergeRawDataColumns"), []Val{pair(b, p, q)}
				},
				check: func(r *Res) {
					for _, f := range r.rawFrames(r.ret[0]) {
						r.checkFrame(f, Expect{src: r.f["p"], kept: true, storage: "shared", noShare: true})
						r.checkOwn(f, "")
						r.anySettings(f, "p", "q")
					}
				},
			})
			if v.maps || v.shareK {
				continue
			}
			add(&Scenario{
				name:  fmt.Sprintf("MergeRawDataRows@%d(%s)", at, v),
				props: props,
				sc:    Scn{frozen: fz("p", "q")},
				must:  []must{{"r:p.col", "C05", "the rows of one of the merged tables are ignored"}, {"r:q.col", "C05", "the rows of one of the merged tables are ignored"}},
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(v.spec("p"))
					q := b.frame(FrameSpec{name: "q", kind: v.kind, encNil: No, safe: No})
					b.s.assume(p.N, 1, inf)
					b.s.assume(q.N, 1, inf)
					return b.w.fn("dataframe", "MergeRawDataRows"), []Val{pair(b, p, q)}
				},
				check: func(r *Res) {
					for _, f := range r.rawFrames(r.ret[0]) {
						r.checkFrame(f, Expect{src: r.f["p"], kept: true, storage: "copied", noShare: true})
						r.checkOwn(f, "")
						r.anySettings(f, "p", "q")
						r.mergedLength(f, v.kind)
					}
				},
			})
		}
		// raw data to frame
		add(&Scenario{
			name:  fmt.Sprintf("ToDataFrame(%s)", v),
			props: props,
			sc:    Scn{frozen: fz("p")},
			setup: func(b *B) (*ssa.Function, []Val) {
				p := b.frame(v.spec("p"))
				fn, _ := b.w.method("dataframe", "RawData", "ToDataFrame")
				return fn, []Val{b.rawPtr(p)}
			},
			check: func(r *Res) {
				for _, f := range r.frames(r.ret[0]) {
					x := *r.f["p"]
					x.safe = Maybe
					r.checkFrame(f, Expect{src: &x, kept: true, storage: "shared", noShare: true, meta: true})
					if v.shareK {
						r.e.oblige("C02 sharing recorded")
						if r.hasK(f, "shared") == No {
							r.bad("C02", "sharing not recorded", "the frame forgets that a column of its raw data is shared: it cannot be detached")
						}
					}
				}
			},
		})
	}
	// building
	type bop struct {
		name, kind string
		t          types.Type
	}
	anyT := types.NewInterfaceType(nil, nil)
	for _, op := range []bop{
		{"AddFloats", "float", types.Typ[types.Float64]}, {"AddInts", "int", types.Typ[types.Int]}, {"AddBools", "bool", types.Typ[types.Bool]},
		{"AddObjects", "object", anyT}, {"AddStrings", "string", types.Typ[types.String]},
		{"SetFloats", "float", types.Typ[types.Float64]}, {"SetInts", "int", types.Typ[types.Int]}, {"SetBools", "bool", types.Typ[types.Bool]},
		{"SetObjects", "object", anyT},
	} {
		for _, has := range []bool{false, true} {
			op, has := op, has
			kind := ""
			if has {
				kind = op.kind
			}
			add(&Scenario{
				name:  fmt.Sprintf("%s(%v)", op.name, has),
				props: []string{"C07"},
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(FrameSpec{name: "p", kind: kind, encNil: No, safe: No})
					fn, _ := b.w.method("dataframe", "DataBuilder", op.name)
					recv := setPath(b.e.zero(nil, b.w.named("dataframe", "DataBuilder"), ""), ".0", b.rawPtr(p))
					return fn, []Val{recv, Str{K: Yes}, b.userSlice("vals", op.t, nil)}
				},
				check: func(r *Res) {
					for _, f := range r.frames(r.f["p"].ptr) {
						r.checkFrame(f, Expect{src: r.f["p"], kept: true, kind: op.kind, inplace: true, noShare: true})
					}
				},
			})
		}
	}
	return out
}

// anySettings: maximum number of CPUs and text encoding of one of the sources
func (r *Res) anySettings(f Val, names ...string) {
	if n, ok := r.part(f, "maxCPU").(Num); ok && n.L != nil {
		r.e.oblige("C08 max CPU kept")
		hit := !exact(n.L)
		for _, x := range names {
			hit = hit || r.s.eq(n.L, linA("cpu:"+x))
		}
		if !hit {
			r.bad("C08", "max CPU lost", "the result does not use the maximum number of CPUs of any of its sources")
		}
	}
	if i, ok := r.part(f, "enc").(Iface); ok {
		r.e.oblige("C08 text encoding kept")
		hit := i.Nil != Yes && i.T == ""
		for _, x := range names {
			hit = hit || i.T == x+".enc"
		}
		if !hit {
			r.bad("C08", "text encoding lost", "the result has the text encoding of none of its sources")
		}
	}
}

// mergedLength: the merged column has the rows of both tables
func (r *Res) mergedLength(f Val, kind string) {
	o, _, ok := r.mapOf(f, partOf(kind))
	if !ok || o == nil || o.kP != Yes {
		return
	}
	s, ok := o.kV.(Slice)
	if !ok || s.Ln == nil || !exact(s.Ln) {
		return
	}
	r.e.oblige("C05 merged rows")
	d := linAdd(s.Ln, linAdd(r.f["p"].N, r.f["q"].N, 1), -1)
	if rg := r.s.rng(d); (rg.lo > 0 || rg.hi < 0) && !argy(d) {
		r.bad("C05", "merged rows", "the merged column has %s rows instead of those of the two tables", s.Ln)
	}
}
