package main

// Exports, access objects, text encoding, CSV.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opt: a struct of options with the given fields, the others being zero
func (b *B) opt(pkg, typ string, fs map[string]Val) Val {
	n := b.w.named(pkg, typ)
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		panic(anchorErr{"type " + pkg + "." + typ + " is not a struct"})
	}
	v := b.e.zero(nil, n, "")
	for k, x := range fs {
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == k {
				v = setPath(v, fmt.Sprintf(".%d", i), x)
				found = true
			}
		}
		if !found {
			panic(anchorErr{"field " + pkg + "." + typ + "." + k + " not found"})
		}
	}
	return v
}

// faultsSeen: an injected failure must not end in a success (C11); nothing
// is left open or in a buffer (C22)
func (r *Res) checkEnd() {
	n := len(r.ret)
	hasErr := n > 0 && isErr(r.fn.Signature.Results().At(n-1).Type())
	var err Iface
	if hasErr {
		err, _ = r.ret[n-1].(Iface)
	}
	if r.s.fault != "" && hasErr {
		r.e.oblige("C11 failure followed to the end of the operation")
		if err.Nil == Yes {
			r.bad("C11", "failure not reported: "+siteOf(r.s.fault), "a failure of %s is not reported: %s returns without error", r.s.fault, fnName(r.fn))
		}
	}
	if !hasErr || err.Nil == Yes {
		r.e.oblige("C22 operation ends with everything written and closed")
	}
	for k, v := range r.s.marks {
		switch {
		case strings.HasPrefix(k, "!file:"):
			r.bad("C22", "file left open", "the file opened at %s is still open when %s returns", v, fnName(r.fn))
		case strings.HasPrefix(k, "!csv:") && v == "pending" && hasErr && err.Nil == Yes:
			r.bad("C22", "not flushed", "%s returns with rows still in the buffer of the CSV writer", fnName(r.fn))
		}
	}
}

// siteOf: the function that failed, without the position
func siteOf(f string) string {
	if i := strings.Index(f, " at "); i >= 0 {
		return f[:i]
	}
	return f
}

// faultyIO: what may fail and must be reported
func faultyIO(name string) bool { return !strings.HasSuffix(name, ".Close") }

func ioScenarios() []*Scenario {
	var out []*Scenario
	add := func(s *Scenario) { out = append(out, s) }
	wopts := func(b *B, order bool) (Val, map[string]Val) {
		b.s.assume(linA("arg:Comma"), 1, inf)
		m := map[string]Val{"Comma": Num{L: linA("arg:Comma")}, "UseCRLF": Bool{T: Yes}, "StringMissingMarker": Str{K: No, T: "arg:marker"}}
		o := map[string]Val{"MaintainOrder": Bool{T: triOf(order)}}
		for k, v := range m {
			o[k] = v
		}
		return b.opt("dataframe", "CSVWritingSpec", o), m
	}
	writer := func(b *B, name string) Val { return Iface{Nil: No, Tag: "ext", T: "u." + name} }
	ioWriter := func(b *B) types.Type {
		fn, _ := b.w.method("dataframe", "DataFrame", "To1CSV")
		return fn.Signature.Params().At(0).Type()
	}
	type xop struct {
		name, id string
		kinds    string // kinds exported
		order    bool
		faults   bool
		args     func(b *B, p *FrameH) []Val
		props    []string
	}
	w1 := func(order bool) func(b *B, p *FrameH) []Val {
		return func(b *B, p *FrameH) []Val {
			o, m := wopts(b, order)
			b.sc.opts = m
			return []Val{writer(b, "w"), o}
		}
	}
	wn := func(order bool) func(b *B, p *FrameH) []Val {
		return func(b *B, p *FrameH) []Val {
			o, m := wopts(b, order)
			b.sc.opts = m
			n := b.sym("n:writers")
			b.s.assume(n, 1, inf)
			id := b.obj("u.writers", &Obj{kind: kArr, ln: n, elemT: ioWriter(b), sum: writer(b, "w"), orig: false})
			return []Val{Slice{Arrs: []ObjID{id}, Off: linC(0), Ln: n, Nil: No}, o}
		}
	}
	files := func(b *B, p *FrameH) []Val {
		o, m := wopts(b, false)
		b.sc.opts = m
		return []Val{o, b.userSlice("paths", types.Typ[types.String], nil)}
	}
	dir := func(b *B, p *FrameH) []Val {
		o, m := wopts(b, false)
		b.sc.opts = m
		return []Val{o, Str{K: No, T: "arg:prefix"}}
	}
	exported := "bool int float string"
	ops := []xop{
		{name: "To1CSV", id: "any", kinds: exported, args: w1(false)},
		{name: "To1CSV", id: "ordered", kinds: exported, order: true, args: w1(true)},
		{name: "ToCSVs", id: "any", kinds: exported, args: wn(false), props: []string{"C09", "C10"}},
		{name: "ToCSVFiles", id: "", kinds: exported, args: files, props: []string{"C09", "C10"}},
		{name: "ToCSVDir", id: "", kinds: exported, args: dir, props: []string{"C09", "C10"}},
	}
	for _, op := range ops {
		for _, v := range variants(true) {
			if v.maps != v.shareK {
				continue
			}
			for _, flt := range []bool{false, true} {
				op, v, flt := op, v, flt
				if flt && (v.maps || v.kind != "float" && v.kind != "string") {
					continue
				}
				props := append([]string{"C04", "C05", "C07", "C20", "C22"}, op.props...)
				nm := fmt.Sprintf("%s/%s(%s)", op.name, op.id, v)
				sc := Scn{frozen: frozenAll("p", "C04", msgC04), rowSyms: []string{"Np"}, viewed: v.viewed}
				var mu []must
				switch op.name {
				case "ToCSVs":
					sc.stubs = map[string]bool{"(*dataframe.DataFrame).To1CSV": true}
				case "ToCSVFiles":
					sc.stubs = map[string]bool{"(*dataframe.DataFrame).ToCSVs": true}
				case "ToCSVDir":
					sc.stubs = map[string]bool{"(*dataframe.DataFrame).ToCSVFiles": true}
				}
				if flt {
					nm += "!"
					props = []string{"C11", "C22"}
					sc.faults, sc.faultOf = true, faultyIO
				} else if strings.Contains(op.kinds, v.kind) {
					mu = []must{{"r:p.col", "C07", op.name + " does not write the " + v.kind + " columns"}}
					if op.name == "To1CSV" && v.kind == "string" {
						mu = append(mu, must{"u.marker", "C20", "the marker of missing strings is not looked at"})
					}
				}
				add(&Scenario{
					name: nm, props: props, sc: sc, must: mu,
					setup: func(b *B) (*ssa.Function, []Val) {
						sp := v.spec("p")
						sp.noOth = true
						p := b.frame(sp)
						return b.onDF(p, op.name, op.args(b, p)...)
					},
					check: func(r *Res) { r.checkEnd() },
				})
			}
		}
	}
	out = append(out, readScenarios()...)
	return append(out, accessScenarios()...)
}

// call runs a function as a step of the setup
func (b *B) call(fn *ssa.Function, args ...Val) []Val {
	outs := b.e.callFn(fn, nil, args, b.s, 0, nil)
	if len(outs) == 0 {
		panic(anchorErr{"no outcome of " + fnName(fn) + " in a setup"})
	}
	o := outs[0]
	for i := 1; i < len(outs); i++ {
		m := merge(o.st, outs[i].st, fmt.Sprintf("setup%d", i))
		var ret []Val
		for j := range o.ret {
			ret = append(ret, joinVal(o.ret[j], outs[i].ret[j], o.st, outs[i].st, m, fmt.Sprintf("setup%d.%d", i, j)))
		}
		o = outcome{m, ret}
	}
	b.s = o.st
	b.e.curS = nil
	for _, v := range o.ret {
		if v != nil {
			refs(v, func(id ObjID) { b.s.pins = append(b.s.pins[:len(b.s.pins):len(b.s.pins)], id) })
		}
	}
	// the program has not begun for what is watched
	for k := range b.e.touched {
		delete(b.e.touched, k)
	}
	return o.ret
}

// cellOf: the cells of a list hold the cells of the tracked column, row by row
func (r *Res) rowByRow(v Val, src *FrameH, what string) {
	sl, ok := v.(Slice)
	if !ok || len(sl.Arrs) != 1 {
		return
	}
	if sl.Ln != nil && exact(sl.Ln) {
		r.e.oblige("C05 number of rows exported")
		if d := linAdd(sl.Ln, src.N, -1); !r.s.eq(sl.Ln, src.N) && !argy(d) {
			r.bad("C05", "number of rows", "%s has %s elements instead of one for each row", what, sl.Ln)
		}
	}
	h := r.e.contentFun(r.s, sl)
	if h == nil {
		return
	}
	arr, pos, ok := colLoad(r.s, h)
	if !ok || arr != src.col {
		return
	}
	r.atRow(pos, src, linA(piAtom), what)
}

// atRow: pos is the position of the given row
func (r *Res) atRow(pos *Lin, src *FrameH, row *Lin, what string) {
	r.e.oblige("C05 exported rows traced to rows of the source")
	if !src.viewed {
		if _, ok := rowOf(r.s, pos); !ok && !r.s.eq(pos, row) && exact(pos) && !pos.mentions(isIV) {
			r.bad("C05", "rows moved "+src.kind, "%s holds the value of position %s instead of %s", what, pos, row)
		}
		return
	}
	rw, ok := rowOf(r.s, pos)
	if !ok {
		if r.s.eq(pos, row) {
			r.bad("C05", "row numbers taken for positions "+src.kind, "%s holds the cell at storage position %s, which is not the position of that row", what, pos)
		}
		return
	}
	if !r.s.eq(rw, row) && exact(rw) && !rw.mentions(isIV) {
		r.bad("C05", "rows moved "+src.kind, "%s holds the value of row %s instead of row %s", what, rw, row)
	}
}

func (b *B) cols(v variant) Slice { return b.strs(Yes, "cols") }

// accessScenarios: accesses to single cells, lists and matrices made of columns
func accessScenarios() []*Scenario {
	var out []*Scenario
	add := func(s *Scenario) { out = append(out, s) }
	kindName := map[string]string{"float": "Float", "int": "Int", "bool": "Bool", "object": "Object", "string": "String"}
	for _, v := range variants(true) {
		if v.maps != v.shareK {
			continue
		}
		v := v
		acc := kindName[v.kind]
		spec := func() FrameSpec { sp := v.spec("p"); sp.noOth = true; return sp }
		sc := func() Scn {
			return Scn{frozen: frozenAll("p", "C04", msgC04), rowSyms: []string{"Np"}, viewed: v.viewed}
		}
		must := []must{{"r:p.col", "C07", "the " + v.kind + " columns are left out"}}
		// forms are made within the scenario: the numbering of atoms is its own
		row := func() *Lin { return linA("arg:row") }
		// single cells
		add(&Scenario{
			name: fmt.Sprintf("%sAccess.Get(%s)", acc, v), props: []string{"C03", "C04", "C05"}, sc: sc(),
			must: []struct0{{"r:p.col", "C03", acc + "Access does not read the storage of the column"}},
			setup: func(b *B) (*ssa.Function, []Val) {
				p := b.frame(spec())
				fn, args := b.onDF(p, acc+"s", Str{K: Yes})
				a := b.call(fn, args...)
				get, _ := b.w.method("dataframe", acc+"Access", "Get")
				b.s.assume(row(), 0, inf)
				b.s.assume(linAdd(linAdd(p.N, row(), -1), linC(1), -1), 0, inf)
				return get, []Val{a[0], Num{L: row()}}
			},
			check: func(r *Res) {
				if arr, pos, ok := colLoad(r.s, r.ret[0]); ok && arr == r.f["p"].col {
					r.atRow(pos, r.f["p"], row(), "the access")
				}
			},
		})
		sw := sc()
		delete(sw.frozen, "p.col")
		add(&Scenario{
			name: fmt.Sprintf("%sAccess.Set(%s)", acc, v), props: []string{"C03", "C05"}, sc: sw,
			must: []struct0{{"w:p.col", "C03", acc + "Access does not write the storage of the column"}},
			setup: func(b *B) (*ssa.Function, []Val) {
				p := b.frame(spec())
				fn, args := b.onDF(p, acc+"s", Str{K: Yes})
				a := b.call(fn, args...)
				set, _ := b.w.method("dataframe", acc+"Access", "Set")
				b.s.assume(row(), 0, inf)
				b.s.assume(linAdd(linAdd(p.N, row(), -1), linC(1), -1), 0, inf)
				return set, []Val{a[0], Num{L: row()}, b.e.unknown(set.Signature.Params().At(1).Type())}
			},
			check: func(r *Res) {
				o := r.s.heap[r.f["p"].col]
				if o != nil && o.lastI != nil {
					r.atRow(o.lastI, r.f["p"], row(), "the access writes to the wrong cell: it")
				}
			},
		})
		// lists
		add(&Scenario{
			name: fmt.Sprintf("CopyValuesToInterfaces(%s)", v), props: []string{"C04", "C05", "C07"}, sc: sc(), must: must,
			setup: func(b *B) (*ssa.Function, []Val) {
				p := b.frame(spec())
				b.s.assume(p.N, 1, inf)
				return b.onDF(p, "CopyValuesToInterfaces", Str{K: Yes})
			},
			check: func(r *Res) { r.rowByRow(r.ret[0], r.f["p"], "the list") },
		})
		if v.kind == "string" {
			add(&Scenario{
				name: fmt.Sprintf("LabelToInt(%s)", v), props: []string{"C04", "C05"}, sc: sc(), must: must,
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(spec())
					b.s.assume(p.N, 1, inf)
					return b.onDF(p, "LabelToInt", Str{K: Yes})
				},
				check: func(r *Res) { r.rowByRow(r.ret[0], r.f["p"], "the list") },
			})
		}
		if v.kind == "float" {
			for _, m := range []string{"VecDense", "VecDenseCopy"} {
				m := m
				add(&Scenario{
					name: fmt.Sprintf("%s(%s)", m, v), props: []string{"C02", "C04", "C05"}, sc: sc(),
					setup: func(b *B) (*ssa.Function, []Val) {
						p := b.frame(spec())
						b.s.assume(p.N, 1, inf)
						fn, args := b.onDF(p, acc+"s", Str{K: Yes})
						a := b.call(fn, args...)
						f, _ := b.w.method("dataframe", acc+"Access", m)
						return f, []Val{a[0]}
					},
					check: func(r *Res) {
						for _, sl := range r.extData(r.ret[0]) {
							r.rowByRow(sl, r.f["p"], "the vector")
							if m == "VecDenseCopy" {
								r.e.oblige("C02 copy storage independent")
								if s, ok := sl.(Slice); ok && len(s.Arrs) == 1 && s.Arrs[0] == r.f["p"].col {
									r.bad("C02", "copy aliases float", "the vector refers to the storage of the column")
								}
							}
						}
					},
				})
			}
		}
		// matrices and rows of numbers
		if v.kind == "float" || v.kind == "int" || v.kind == "bool" {
			add(&Scenario{
				name: fmt.Sprintf("DenseMatrix(%s)", v), props: []string{"C04", "C05", "C07"}, sc: sc(), must: must,
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(spec())
					a := b.call(b.w.fn("dataframe", "NewDense64Batching"), b.cols(v))
					f, _ := b.w.method("dataframe", "Dense64Batching", "DenseMatrix")
					return f, []Val{a[0], p.ptr}
				},
				check: func(r *Res) { r.rowsOfMatrix() },
			})
			add(&Scenario{
				name: fmt.Sprintf("NextRow(%s)", v), props: []string{"C04", "C05", "C07"}, sc: sc(), must: must,
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(spec())
					b.s.assume(p.N, 1, inf)
					a := b.call(b.w.fn("dataframe", "NewFloat32Iterator"), p.ptr, b.cols(v))
					f, _ := b.w.method("dataframe", "Float32Iterator", "NextRow")
					return f, []Val{a[0]}
				},
				check: func(r *Res) {
					p := r.f["p"]
					if n, ok := r.ret[1].(Num); ok && n.L != nil && exact(n.L) {
						r.e.oblige("C05 row number given by the iterator")
						if !r.s.eq(n.L, linC(0)) && r.s.isSym(n.L) == false && n.L.isConst() {
							r.bad("C05", "row number of the iterator", "the first row is given the row number %s", n.L)
						}
					}
					if n, ok := r.ret[2].(Num); ok && n.L != nil && p.viewed {
						r.e.oblige("C05 storage position given by the iterator")
						if rw, ok := rowOf(r.s, n.L); ok && !r.s.eq(rw, linC(0)) && exact(rw) {
							r.bad("C05", "position given by the iterator", "the position given with the first row is that of row %s", rw)
						} else if !ok && n.L.isConst() {
							r.bad("C05", "position given by the iterator", "the position given with the first row is %s, not that of the row in the storage", n.L)
						}
					}
				},
			})
		}
		// printing
		for _, m := range []string{"PrintHead", "PrintRecords", "PrintSummary"} {
			m := m
			var mu []struct0
			if m != "PrintSummary" {
				mu = must
			}
			add(&Scenario{
				name: fmt.Sprintf("%s(%s)", m, v), props: []string{"C04", "C05", "C07"}, sc: sc(), must: mu,
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(spec())
					b.s.assume(p.N, 1, inf)
					var args []Val
					switch m {
					case "PrintHead":
						args = []Val{b.num("n"), Str{K: No, T: "arg:fmt"}}
					case "PrintRecords":
						args = []Val{b.num("n"), Str{K: No, T: "arg:fmt"}, MapV{Nil: Yes}}
					}
					return b.onDF(p, m, args...)
				},
			})
		}
	}
	return out
}

// extData: the memory given to an object of the outside (a vector, a matrix)
func (r *Res) extData(v Val) []Val {
	p, ok := v.(Ptr)
	if !ok {
		return nil
	}
	var out []Val
	for _, t := range p.Ts {
		if o := r.s.heap[t.Obj]; o != nil && o.sum != nil {
			out = append(out, o.sum)
		}
	}
	return out
}

type struct0 = must

// rowsOfMatrix: a matrix made of the rows of a view does not hold a column in
// the order of its storage
func (r *Res) rowsOfMatrix() {
	for _, id := range r.s.ids() {
		o := r.s.heap[id]
		if o.sum == nil || o.ek != "mat" {
			continue
		}
		sl, ok := o.sum.(Slice)
		if !ok {
			continue
		}
		for _, a := range sl.Arrs {
			r.e.oblige("C05 matrix made of the rows")
			if at := r.s.marks[fmt.Sprintf("!bulk:%d", a)]; at != "" {
				r.bad("C05", "matrix in storage order", "the matrix holds a column copied at %s in the order of its storage, not in the order of the rows", at)
			}
		}
	}
}

// readScenarios: text encoding, reading CSV
func readScenarios() []*Scenario {
	var out []*Scenario
	add := func(s *Scenario) { out = append(out, s) }
	for _, v := range variants(true) {
		if v.maps != v.shareK || v.kind != "string" && v.kind != "object" && v.kind != "float" {
			continue
		}
		for _, same := range []string{"other", "nil"} {
			for _, flt := range []bool{false, true} {
				v, flt, same := v, flt, same
				if flt && v.kind != "string" {
					continue
				}
				nm := fmt.Sprintf("Encode/%s(%s)", same, v)
				sc := Scn{frozen: structFrozen("p", "C04", "changing the text encoding changes the structure"), rowSyms: []string{"Np"}, viewed: v.viewed, rmw: map[string]bool{"p.col": true}}
				var mu []must
				if flt {
					nm += "!"
					sc.faults, sc.faultOf = true, faultyIO
				} else if v.kind == "string" {
					mu = []must{{"w:p.col", "C17", "the strings are not converted to the new encoding"}}
				}
				if v.kind != "string" {
					sc.frozen["p.col"] = rule{"C17", "changing the text encoding changes a column that does not hold strings"}
				}
				add(&Scenario{
					name: nm, props: []string{"C03", "C04", "C05", "C11", "C16", "C17"}, sc: sc, must: mu,
					setup: func(b *B) (*ssa.Function, []Val) {
						sp := v.spec("p")
						p := b.frame(sp)
						b.s.assume(p.N, 1, inf)
						enc := Iface{Nil: No, T: "arg:enc", Tag: "ext"}
						if same == "nil" {
							enc = Iface{Nil: Yes}
						}
						return b.onDF(p, "Encode", enc)
					},
					check: func(r *Res) {
						r.checkEnd()
						r.checkEncoded(v, same)
					},
				})
			}
		}
	}
	return out
}

func (r *Res) checkEncoded(v variant, same string) {
	p := r.f["p"]
	err, _ := r.ret[0].(Iface)
	dirty := false
	for _, id := range r.s.ids() {
		if o := r.s.heap[id]; o.dirty && (o.role == "p.col" || o.role == "p.oth.objects") {
			dirty = true
		}
	}
	for _, f := range r.frames(p.ptr) {
		enc, ok := r.part(f, "enc").(Iface)
		if !ok {
			continue
		}
		r.e.oblige("C17 outcome of a change of encoding")
		if err.Nil == Yes {
			// nothing to do when the encoding is already the one wanted
			if !dirty {
				continue
			}
			if same == "nil" && enc.Nil == No || same != "nil" && (enc.Nil == Yes || enc.T != "" && enc.T != "arg:enc") {
				r.bad("C17", "encoding not recorded", "the strings are converted but the frame does not have the new text encoding")
			}
			continue
		}
		if err.Nil == No {
			if dirty {
				r.bad("C17", "half converted", "strings are already converted when the failure of %s makes the change of encoding end in an error", r.s.fault)
			}
			if enc.Nil == Yes || enc.T != "" && enc.T != "p.enc" {
				r.bad("C17", "encoding changed by a failure", "the frame has the new text encoding although the change of encoding ends in an error")
			}
		}
	}
}
