package main

// C26: frames without rows, frames without columns and empty lists are no
// reason for an operation to fail: it must have a path that returns.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func emptyScenarios() []*Scenario {
	var out []*Scenario
	type op struct {
		name string
		kind string // kind of the column it works on; "*": any kind; "": none
		args func(b *B, p *FrameH) []Val
		rows bool // to be tried on frames with rows (and no column) as well
		fn   func(b *B, p *FrameH) (*ssa.Function, []Val)
	}
	strT := types.Typ[types.String]
	none := func(b *B, p *FrameH) []Val { return nil }
	k := func(b *B, p *FrameH) []Val { return []Val{b.listOf(strT, Str{K: Yes})} }
	no := func(b *B, p *FrameH) []Val { return []Val{b.noStrs()} }
	list := func(t types.Type, more ...Val) func(b *B, p *FrameH) []Val {
		return func(b *B, p *FrameH) []Val { return append([]Val{Str{K: Yes}, b.userSlice("vals", t, p.N)}, more...) }
	}
	num := func(ns ...int64) func(b *B, p *FrameH) []Val {
		return func(b *B, p *FrameH) []Val {
			var r []Val
			for _, n := range ns {
				r = append(r, Num{L: linC(n)})
			}
			return r
		}
	}
	top := func(n int64, asc, sorted bool) func(b *B, p *FrameH) []Val {
		return func(b *B, p *FrameH) []Val {
			return []Val{Str{K: Yes}, Num{L: linC(n)}, Bool{T: triOf(asc)}, Bool{T: triOf(sorted)}}
		}
	}
	anyT := types.NewInterfaceType(nil, nil)
	ops := []op{
		{name: "View", kind: "*", args: none, rows: true},
		{name: "Copy", kind: "*", args: none, rows: true},
		{name: "ShallowCopy", kind: "*", args: none, rows: true},
		{name: "ResetIndexView", kind: "*", args: none, rows: true},
		{name: "ReverseView", kind: "*", args: none, rows: true},
		{name: "ShuffleView", kind: "*", args: none, rows: true},
		{name: "AreIndicesAltered", kind: "*", args: none, rows: true},
		{name: "ZeroMask", kind: "*", args: none, rows: true},
		{name: "EmptyMask", kind: "*", args: none, rows: true},
		{name: "ColumnView", kind: "*", args: no, rows: true},
		{name: "ColumnView", kind: "*", args: k},
		{name: "DetachedView", kind: "*", args: no, rows: true},
		{name: "DetachedView", kind: "*", args: k},
		{name: "HashStringsView", kind: "*", args: no, rows: true},
		{name: "HashStringsView", kind: "string", args: k},
		{name: "IndexView", kind: "*", args: func(b *B, p *FrameH) []Val {
			return []Val{Slice{Nil: Yes, Off: linC(0), Ln: linC(0)}}
		}, rows: true},
		{name: "MaskView", kind: "*", args: func(b *B, p *FrameH) []Val { return []Val{b.userSlice("vals", types.Typ[types.Bool], p.N)} }, rows: true},
		{name: "SliceView", kind: "*", args: num(0, 0), rows: true},
		{name: "SampleView", kind: "*", args: func(b *B, p *FrameH) []Val { return []Val{Num{L: linC(0)}, Bool{T: No}} }, rows: true},
		{name: "SplitView", kind: "*", args: num(3), rows: true},
		{name: "SplitNView", kind: "*", args: num(3), rows: true},
		{name: "SplitNView", kind: "*", args: num(1), rows: true},
		{name: "SplitTrainTestViews", kind: "*", args: func(b *B, p *FrameH) []Val { return []Val{Sc{T: "arg:ratio"}} }, rows: true},
		{name: "Drop", kind: "*", args: no, rows: true},
		{name: "Drop", kind: "*", args: k},
		{name: "Unshare", kind: "*", args: no, rows: true},
		{name: "Unshare", kind: "*", args: k},
		{name: "IntToFloats", kind: "int", args: k},
		{name: "IntToFloats", kind: "*", args: no, rows: true},
		{name: "BoolToFloats", kind: "bool", args: k},
		{name: "BoolToFloats", kind: "*", args: no, rows: true},
		{name: "Rename", kind: "*", args: func(b *B, p *FrameH) []Val { return []Val{Str{K: Yes}, Str{K: No}} }},
		{name: "PrintHead", kind: "*", args: func(b *B, p *FrameH) []Val { return []Val{Num{L: linC(5)}, Str{K: No, T: "arg:fmt"}} }, rows: true},
		{name: "PrintRecords", kind: "*", args: func(b *B, p *FrameH) []Val {
			return []Val{Num{L: linC(5)}, Str{K: No, T: "arg:fmt"}, MapV{Nil: Yes}}
		}, rows: true},
		{name: "PrintSummary", kind: "*", args: none, rows: true},
		{name: "Encode", kind: "*", args: func(b *B, p *FrameH) []Val { return []Val{Iface{Nil: No, T: "arg:enc", Tag: "ext"}} }, rows: true},
		{name: "OverwriteInts", args: list(types.Typ[types.Int]), rows: true},
		{name: "OverwriteFloats64", args: list(types.Typ[types.Float64]), rows: true},
		{name: "OverwriteFloats32", args: list(types.Typ[types.Float32]), rows: true},
		{name: "OverwriteBools", args: list(types.Typ[types.Bool]), rows: true},
		{name: "OverwriteObjects", args: list(anyT, Num{L: linC(0)}), rows: true},
		{name: "OverwriteStrings", args: list(strT), rows: true},
		{name: "OverwriteInts", kind: "int", args: list(types.Typ[types.Int])},
		{name: "OverwriteFloats64", kind: "float", args: list(types.Typ[types.Float64])},
		{name: "OverwriteFloats32", kind: "float", args: list(types.Typ[types.Float32])},
		{name: "OverwriteBools", kind: "bool", args: list(types.Typ[types.Bool])},
		{name: "OverwriteObjects", kind: "object", args: list(anyT, Num{L: linC(0)})},
		{name: "OverwriteStrings", kind: "string", args: list(strT)},
		{name: "To1CSV", kind: "*", args: func(b *B, p *FrameH) []Val {
			return []Val{Iface{Nil: No, Tag: "ext", T: "u.w"}, b.opt("dataframe", "CSVWritingSpec", map[string]Val{})}
		}, rows: true},
	}
	for _, a := range []string{"Ints", "Floats", "Bools", "Objects", "Strings"} {
		ops = append(ops, op{name: "Alloc" + a, args: k, rows: true}, op{name: "Alloc" + a, kind: "*", args: no, rows: true})
	}
	for _, kd := range []string{"int", "float", "bool"} {
		ops = append(ops, op{name: "SortedView", kind: kd, args: func(b *B, p *FrameH) []Val { return []Val{Str{K: Yes}} }},
			op{name: "TopView", kind: kd, args: top(0, false, true)}, op{name: "TopView", kind: kd, args: top(2, true, true)}, op{name: "TopView", kind: kd, args: top(2, false, false)})
	}
	ops = append(ops, op{name: "LabelToInt", kind: "string", args: func(b *B, p *FrameH) []Val { return []Val{Str{K: Yes}} }},
		op{name: "CopyValuesToInterfaces", kind: "*", args: func(b *B, p *FrameH) []Val { return []Val{Str{K: Yes}} }})
	for _, c := range []string{"RowConcat", "ColumnConcatView", "ColumnSmartConcat", "ColumnCopyConcat"} {
		c := c
		ops = append(ops, op{name: c, kind: "*", rows: true, fn: func(b *B, p *FrameH) (*ssa.Function, []Val) {
			fn := b.w.fn("dataframe", c)
			return fn, []Val{b.listOf(fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem(), p.ptr)}
		}})
	}
	type shape struct {
		kind   string
		rows   int64
		viewed bool
		empty  bool
	}
	var shapes []shape
	for _, kd := range kinds {
		shapes = append(shapes, shape{kind: kd}, shape{kind: kd, viewed: true})
	}
	shapes = append(shapes, shape{empty: true}, shape{empty: true, rows: 2}, shape{empty: true, rows: 2, viewed: true})
	for i, o := range ops {
		for _, sh := range shapes {
			o, sh := o, sh
			if o.kind != "*" && o.kind != sh.kind || sh.rows > 0 && !o.rows {
				continue
			}
			if o.kind == "*" && sh.empty && !o.rows {
				continue
			}
			when := " on frames without rows"
			switch {
			case sh.empty && sh.rows > 0:
				when = " on frames with rows and no column"
			case sh.empty:
				when = " on frames without rows nor columns"
			}
			out = append(out, &Scenario{
				when: when,
				name: fmt.Sprintf("%s/nothing#%d(%+v)", o.name, i, sh), props: []string{"C26"}, returns: "C26",
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(FrameSpec{name: "p", kind: sh.kind, viewed: sh.viewed, empty: sh.empty, rows: linC(sh.rows), noOth: true, encNil: Maybe, safe: No})
					b.e.oblige("C26 operation on a frame without rows or columns")
					if o.fn != nil {
						return o.fn(b, p)
					}
					return b.onDF(p, o.name, o.args(b, p)...)
				},
			})
		}
	}
	return out
}
