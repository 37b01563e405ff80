package main

// Structural edits: of a frame, and of a view whose maps belong to another
// frame as well.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const msgC01 = "a structural edit through a view alters the frame it was taken from"
const msgC02s = "detaching or editing a view alters what the source knows about its shared columns"

type eop struct {
	name string
	id   string
	on   string // kinds for which it applies ("" = all, "-": κ is absent)
	args func(b *B, p *FrameH) []Val
	exp  func(v variant, x *Expect)
	loc  bool // writes cells of its own columns
}

func editScenarios() []*Scenario {
	var out []*Scenario
	keep := func(v variant, x *Expect) { x.kept = true }
	gone := func(v variant, x *Expect) { x.gone = true }
	created := func(kind string) func(v variant, x *Expect) {
		return func(v variant, x *Expect) { x.kept, x.kind = true, kind }
	}
	converted := func(v variant, x *Expect) { x.kept, x.kind, x.storage = true, "float", "copied" }
	in := func(b *B, p *FrameH) []Val { return []Val{b.strs(Yes, "cols")} }
	no := func(b *B, p *FrameH) []Val { return []Val{b.strs(No, "cols")} }
	nothing := func(b *B, p *FrameH) []Val { return []Val{b.noStrs()} }
	kp := func(b *B, p *FrameH) []Val { return []Val{Str{K: Yes}, Str{K: No}} }
	pk := func(b *B, p *FrameH) []Val { return []Val{Str{K: No}, Str{K: Yes}} }
	kk := func(b *B, p *FrameH) []Val { return []Val{Str{K: Yes}, Str{K: Yes}} }
	vals := func(t types.Type, rest ...Val) func(b *B, p *FrameH) []Val {
		return func(b *B, p *FrameH) []Val {
			return append([]Val{Str{K: Yes}, b.userSlice("vals", t, p.N)}, rest...)
		}
	}
	anyT := types.NewInterfaceType(nil, nil)
	ops := []eop{
		{name: "Drop", id: "in", args: in, exp: gone},
		{name: "Drop", id: "out", args: no, exp: keep},
		{name: "Drop", id: "none", args: nothing, exp: keep},
		{name: "Rename", id: "from", args: kp, exp: gone},
		{name: "Rename", id: "self", args: kk, exp: keep},
		{name: "Rename", id: "to", on: "-", args: pk, exp: func(v variant, x *Expect) {}},
		{name: "AllocInts", id: "out", args: no, exp: keep},
		{name: "AllocFloats", id: "out", args: no, exp: keep},
		{name: "AllocBools", id: "out", args: no, exp: keep},
		{name: "AllocObjects", id: "out", args: no, exp: keep},
		{name: "AllocStrings", id: "out", args: no, exp: keep},
		{name: "AllocInts", id: "new", on: "-", args: in, exp: created("int")},
		{name: "AllocFloats", id: "new", on: "-", args: in, exp: created("float")},
		{name: "AllocBools", id: "new", on: "-", args: in, exp: created("bool")},
		{name: "AllocObjects", id: "new", on: "-", args: in, exp: created("object")},
		{name: "AllocStrings", id: "new", on: "-", args: in, exp: created("string")},
		{name: "IntToFloats", id: "in", on: "int", args: in, exp: converted},
		{name: "IntToFloats", id: "out", args: no, exp: keep},
		{name: "BoolToFloats", id: "in", on: "bool", args: in, exp: converted},
		{name: "BoolToFloats", id: "out", args: no, exp: keep},
		{name: "Unshare", id: "all", args: nothing, exp: keep},
		{name: "Unshare", id: "in", args: in, exp: keep},
		{name: "Unshare", id: "out", args: no, exp: keep},
		{name: "OverwriteInts", id: "new", on: "-", args: vals(types.Typ[types.Int]), exp: created("int")},
		{name: "OverwriteFloats64", id: "new", on: "-", args: vals(types.Typ[types.Float64]), exp: created("float")},
		{name: "OverwriteFloats32", id: "new", on: "-", args: vals(types.Typ[types.Float32]), exp: created("float")},
		{name: "OverwriteBools", id: "new", on: "-", args: vals(types.Typ[types.Bool]), exp: created("bool")},
		{name: "OverwriteObjects", id: "new", on: "-", args: vals(anyT, Num{L: linC(0)}), exp: created("object")},
		{name: "OverwriteObjects", id: "news", on: "-", args: vals(anyT, Num{L: linC(1)}), exp: created("string")},
		{name: "OverwriteStrings", id: "new", on: "-", args: vals(types.Typ[types.String]), exp: created("string")},
		{name: "OverwriteInts", id: "old", on: "int", args: vals(types.Typ[types.Int]), exp: keep, loc: true},
		{name: "OverwriteFloats64", id: "old", on: "float", args: vals(types.Typ[types.Float64]), exp: keep, loc: true},
		{name: "OverwriteFloats32", id: "old", on: "float", args: vals(types.Typ[types.Float32]), exp: keep, loc: true},
		{name: "OverwriteBools", id: "old", on: "bool", args: vals(types.Typ[types.Bool]), exp: keep, loc: true},
		{name: "OverwriteObjects", id: "old", on: "object", args: vals(anyT, Num{L: linC(0)}), exp: keep, loc: true},
		{name: "OverwriteObjects", id: "olds", on: "string", args: vals(anyT, Num{L: linC(1)}), exp: keep, loc: true},
		{name: "OverwriteStrings", id: "old", on: "string", args: vals(types.Typ[types.String]), exp: keep, loc: true},
	}
	for _, op := range ops {
		vs := variants(true)
		if op.on == "-" {
			vs = nil
			for _, mp := range []bool{false, true} {
				for _, vw := range []bool{false, true} {
					vs = append(vs, variant{kind: "", maps: mp, viewed: vw})
				}
			}
		}
		for _, v := range vs {
			op, v := op, v
			if op.on != "" && op.on != "-" && op.on != v.kind {
				continue
			}
			fz := map[string]rule{}
			if v.maps {
				fz = structFrozen("p", "C01", msgC01)
				fz["p.shared"] = rule{"C02", msgC02s}
			}
			if !op.loc {
				fz["p.col"] = rule{"C02", "an edit of the structure of a frame changes cells of a column"}
			}
			fz["p.idx"] = rule{"C04", "an edit of the columns changes the rows"}
			props := []string{"C01", "C02", "C04", "C05", "C06", "C07", "C08"}
			if op.loc {
				props = append(props, "C03")
			}
			var mu []must
			if op.loc {
				mu = []must{{"w:p.col", "C03", op.name + " does not write the storage of the column it is given"}}
			}
			out = append(out, &Scenario{
				must:  mu,
				name:  fmt.Sprintf("%s/%s(%s)", op.name, op.id, v),
				props: props,
				sc:    Scn{frozen: fz, rowSyms: []string{"Np"}, viewed: v.viewed},
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(v.spec("p"))
					if op.loc {
						b.s.assume(p.A, 1, inf)
						b.s.assume(p.N, 1, inf)
					}
					return b.onDF(p, op.name, op.args(b, p)...)
				},
				check: func(r *Res) {
					p := r.f["p"]
					x := Expect{src: p, inplace: true, meta: true, storage: "", order: true}
					if op.loc {
						x.storage = "shared"
					}
					op.exp(v, &x)
					for _, f := range r.frames(p.ptr) {
						r.checkFrame(f, x)
						if op.id == "to" {
							r.checkRenamed(f)
						}
						if op.name == "Unshare" && op.id != "out" {
							r.checkDetached(f, v)
						}
					}
				},
			})
		}
	}
	return out
}

// checkRenamed: the new name holds what the old one held, as the same kind
func (r *Res) checkRenamed(f Val) {
	r.e.oblige("C07 renamed column")
	any := false
	for _, m := range mapParts {
		o, _, ok := r.mapOf(f, m)
		if !ok || o == nil {
			return
		}
		if o.kP == No {
			continue
		}
		any = true
		if o.kP != Yes {
			continue
		}
		if s, ok := o.kV.(Slice); ok {
			r.e.oblige("C03 renamed column shares the storage")
			for _, a := range s.Arrs {
				switch role := r.role(a); role {
				case "p.oth." + m:
				case "":
					r.bad("C03", "rename copies "+m, "the renamed column no longer refers to the storage it had")
				default:
					r.bad("C07", "rename changes the kind "+m, "the renamed column is stored as another kind")
				}
			}
		}
	}
	if !any {
		r.bad("C07", "renamed column lost", "the frame has no column of the new name")
	}
}

// checkDetached: after being detached a column is not shared with anyone
func (r *Res) checkDetached(f Val, v variant) {
	if !v.maps && !v.shareK {
		return
	}
	o, _, ok := r.mapOf(f, partOf(v.kind))
	if !ok || o == nil || o.kP != Yes {
		return
	}
	s, ok := o.kV.(Slice)
	if !ok || len(s.Arrs) == 0 {
		return
	}
	r.e.oblige("C02 detached column copied")
	for _, a := range s.Arrs {
		if a != r.f["p"].col {
			return
		}
	}
	r.bad("C02", "not detached "+v.kind, "a detached %s column still refers to the storage of the source", v.kind)
}
