package main

// Scenarios of the dataframe package.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// frozen: nothing of the frame may be written
func frozenAll(p, prop, msg string) map[string]rule {
	r := rule{prop, msg}
	m := map[string]rule{}
	for _, x := range []string{"col", "idx", "floats", "ints", "bools", "objects", "strhdr", "df"} {
		m[p+"."+x] = r
	}
	return m
}

func merged(ms ...map[string]rule) map[string]rule {
	r := map[string]rule{}
	for _, m := range ms {
		for k, v := range m {
			r[k] = v
		}
	}
	return r
}

func structFrozen(p, prop, msg string) map[string]rule {
	r := rule{prop, msg}
	m := map[string]rule{}
	for _, x := range []string{"floats", "ints", "bools", "objects", "strhdr"} {
		m[p+"."+x] = r
	}
	return m
}

type variant struct {
	kind         string
	maps, shareK bool
	viewed       bool
	mixed        bool // the other frame is whole
}

func (v variant) String() string {
	s := v.kind
	if v.maps {
		s += "/view"
	}
	if v.shareK {
		s += "/shared"
	}
	if v.viewed {
		s += "/selected"
	}
	if v.mixed {
		s += "/mixed"
	}
	return s
}

func variants(all bool) []variant {
	var r []variant
	for _, k := range kinds {
		for _, vw := range []bool{false, true} {
			for _, mp := range []bool{false, true} {
				for _, sk := range []bool{false, true} {
					r = append(r, variant{kind: k, maps: mp, shareK: sk, viewed: vw})
				}
			}
		}
	}
	return r
}

func (v variant) spec(name string) FrameSpec {
	return FrameSpec{name: name, kind: v.kind, viewed: v.viewed, maps: v.maps, shareK: v.shareK, safe: triOf(v.kind == "int" || v.kind == "bool"), encNil: No}
}

// invoke a method of DataFrame on the frame
func (b *B) onDF(h *FrameH, name string, args ...Val) (*ssa.Function, []Val) {
	fn, byVal := b.w.method("dataframe", "DataFrame", name)
	var recv Val = h.ptr
	if byVal {
		recv = b.s.heap[h.cell].v
	}
	return fn, append([]Val{recv}, args...)
}

func (b *B) rawPtr(h *FrameH) Ptr {
	return Ptr{Ts: []Loc{{Obj: h.cell, Path: b.d.rawPath}}, Nil: No}
}

const msgC04 = "an operation that is not in place changes its input"

func dfScenarios() []*Scenario {
	var out []*Scenario
	add := func(s *Scenario) { out = append(out, s) }

	// ---- views
	type vop struct {
		name   string
		args   func(b *B, p *FrameH) []Val
		cols   string // "in": restricted to a list with κ, "out": list without κ
		shared bool
	}
	inOrder := map[string]bool{"View": true, "ColumnView": true, "ResetIndexView": true, "DetachedView": true, "HashStringsView": true, "ShallowCopy": true}
	ident := func(b *B, p *FrameH) []Val { return nil }
	views := []vop{
		{name: "View", args: ident},
		{name: "IndexView", args: func(b *B, p *FrameH) []Val {
			s := b.userSlice("vals", types.Typ[types.Int], nil)
			origRange[s.Arrs[0]] = p.N
			return []Val{s}
		}},
		{name: "SliceView", args: func(b *B, p *FrameH) []Val { return []Val{b.num("from"), b.num("to")} }},
		{name: "MaskView", args: func(b *B, p *FrameH) []Val { return []Val{b.userSlice("vals", types.Typ[types.Bool], p.N)} }},
		{name: "ColumnView", cols: "in", args: func(b *B, p *FrameH) []Val { return []Val{b.strs(Yes, "cols")} }},
		{name: "ColumnView", cols: "out", args: func(b *B, p *FrameH) []Val { return []Val{b.strs(No, "cols")} }},
		{name: "ColumnView", cols: "", args: func(b *B, p *FrameH) []Val { return []Val{b.noStrs()} }},
		{name: "ShuffleView", args: ident},
		{name: "SampleView", args: func(b *B, p *FrameH) []Val { return []Val{b.num("n"), Bool{T: No}} }},
		{name: "SplitNView", args: func(b *B, p *FrameH) []Val { return []Val{b.num("n")} }},
		{name: "SplitView", args: func(b *B, p *FrameH) []Val { return []Val{b.num("n")} }},
		{name: "SplitTrainTestViews", args: func(b *B, p *FrameH) []Val { return []Val{Sc{T: "arg:ratio"}} }},
		{name: "SortedView", args: func(b *B, p *FrameH) []Val { return []Val{Str{K: Yes}} }},
		{name: "SortedView", args: func(b *B, p *FrameH) []Val { return []Val{Str{K: No}} }},
		{name: "TopView", args: func(b *B, p *FrameH) []Val {
			return []Val{Str{K: Maybe}, b.num("n"), Bool{T: Maybe}, Bool{T: Maybe}}
		}},
		{name: "ReverseView", args: ident},
		{name: "ResetIndexView", args: ident},
		{name: "DetachedView", args: func(b *B, p *FrameH) []Val { return []Val{b.strs(Yes, "cols")} }},
		{name: "DetachedView", cols: "kept", args: func(b *B, p *FrameH) []Val { return []Val{b.strs(No, "cols")} }},
		{name: "DetachedView", args: func(b *B, p *FrameH) []Val { return []Val{b.noStrs()} }},
		{name: "HashStringsView", cols: "kept", args: func(b *B, p *FrameH) []Val { return []Val{b.strs(No, "cols")} }},
		{name: "HashStringsView", cols: "", args: func(b *B, p *FrameH) []Val { return []Val{b.noStrs()} }},
		{name: "HashStringsView", cols: "hash", args: func(b *B, p *FrameH) []Val { return []Val{b.strs(Yes, "cols")} }},
		{name: "ShallowCopy", args: ident},
	}
	// strings that are missing, and strings that are not
	for _, kind := range []string{"string", "object"} {
		for _, missing := range []bool{true, false} {
			kind, missing := kind, missing
			add(&Scenario{
				name: fmt.Sprintf("HashStringsView/cells(%s/%v)", kind, missing), props: []string{"C19"},
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(FrameSpec{name: "p", kind: kind, noOth: true, rows: linC(1), encNil: Yes})
					o := b.s.heap[p.col]
					o.orig = false
					o.fun = Iface{Nil: Yes}
					if !missing {
						o.fun = Iface{Nil: No, Typ: types.Typ[types.String], Dyn: Str{K: No, T: "cell"}}
					}
					return b.onDF(p, "HashStringsView", b.listOf(types.Typ[types.String], Str{K: Yes}))
				},
				check: func(r *Res) {
					for _, f := range r.anyFrames(r.ret[0], r.fn.Signature.Results().At(0).Type()) {
						o, _, ok := r.mapOf(f, "ints")
						if !ok || o == nil || o.kP == No {
							continue
						}
						sl, ok := o.kV.(Slice)
						if !ok {
							continue
						}
						r.e.oblige("C19 column of missing strings, or of none")
						v := r.e.contentFun(r.s, sl)
						written := v == nil && len(sl.Arrs) == 1
						if written {
							v = r.s.heap[sl.Arrs[0]].sum
						}
						n, ok := v.(Num)
						if !ok || n.L == nil || !n.L.isConst() || n.L.c == -1 && missing {
							continue
						}
						msg := fmt.Sprintf("a missing string is replaced by %d, not by -1", n.L.c)
						if !missing {
							msg = fmt.Sprintf("all the strings are replaced by %d", n.L.c)
						}
						if written {
							r.bad("C19", "missing string", "%s", msg)
						} else {
							r.some("C19", "missing string", "%s", msg)
						}
					}
				},
			})
		}
	}
	for i, op := range views {
		for _, v := range variants(true) {
			op, v, i := op, v, i
			detached := op.name == "DetachedView" && op.cols == ""
			if op.cols == "hash" && v.kind != "string" && v.kind != "object" {
				continue
			}
			props := []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"}
			if op.cols == "hash" {
				props = append(props, "C19")
			}
			add(&Scenario{
				name:  fmt.Sprintf("%s#%d(%s)", op.name, i, v),
				props: props,
				sc:    Scn{frozen: frozenAll("p", "C04", msgC04), rowSyms: []string{"Np"}, viewed: v.viewed, hashes: op.cols == "hash"},
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(v.spec("p"))
					return b.onDF(p, op.name, op.args(b, p)...)
				},
				check: func(r *Res) {
					p := r.f["p"]
					x := Expect{src: p, kept: true, storage: "shared", meta: true, order: inOrder[op.name]}
					switch {
					case detached:
						x.storage = "copied"
					case op.cols == "out":
						x.kept, x.gone, x.storage = false, true, ""
					case op.cols == "hash":
						x.kind, x.storage = "int", "copied"
					}
					if op.name == "DetachedView" {
						x.storage = detachStorage(op.cols, v)
					}
					for _, ret := range r.ret {
						for _, f := range r.frames(ret) {
							r.checkFrame(f, x)
						}
					}
				},
			})
		}
	}

	// ---- copies
	for _, v := range variants(true) {
		v := v
		add(&Scenario{
			name:  fmt.Sprintf("Copy(%s)", v),
			props: []string{"C01", "C02", "C04", "C05", "C06", "C07", "C08"},
			sc:    Scn{frozen: frozenAll("p", "C04", msgC04), rowSyms: []string{"Np"}, viewed: v.viewed},
			setup: func(b *B) (*ssa.Function, []Val) {
				p := b.frame(v.spec("p"))
				return b.onDF(p, "Copy")
			},
			check: func(r *Res) {
				for _, f := range r.frames(r.ret[0]) {
					r.checkFrame(f, Expect{src: r.f["p"], kept: true, storage: "copied", meta: true, order: true})
				}
			},
		})
	}
	return out
}

func detachStorage(cols string, v variant) string {
	if cols == "kept" {
		return "" // may be copied as well
	}
	return "copied"
}
