package main

// Scenarios of operations that select or divide the rows: which rows of the
// source each result holds (C24), for symbolic numbers of rows.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rowAt: the row of the source that row π of a frame is
func (r *Res) rowAt(f Val, src *FrameH) (row *Lin, n *Lin) {
	idx, ok := r.part(f, "idx").(Slice)
	if !ok {
		return nil, nil
	}
	n = idx.Ln
	o, _, _ := r.mapOf(f, partOf(src.kind))
	if o == nil || o.kP != Yes || len(idx.Arrs) != 1 {
		return nil, n
	}
	kcol, ok := o.kV.(Slice)
	if !ok || len(kcol.Arrs) != 1 || kcol.Off == nil {
		return nil, n
	}
	h := r.e.contentFun(r.s, kcol)
	if h == nil {
		return nil, n
	}
	arr, pos, ok := colLoad(r.s, h)
	if !ok || arr != src.col {
		return nil, n
	}
	at := func(g Num) *Lin {
		if g.L == nil {
			return nil
		}
		return pos.subst(func(a string) *Lin {
			if a == piAtom {
				return g.L
			}
			return nil
		})
	}
	g, _ := r.e.contentFun(r.s, idx).(Num)
	return r.toRow(at(g), src), n
}

// toRow: the row of the source that is at a position of its storage
func (r *Res) toRow(P *Lin, src *FrameH) *Lin {
	if P == nil || !src.viewed {
		return P
	}
	row, ok := rowOf(r.s, P)
	if !ok {
		if known(P) {
			r.e.oblige("C24 rows held")
			r.bad("C24", "rows held", "row π is taken from position %s of the storage, which is not where the row list of the source puts a row", P)
		}
		return nil
	}
	return row
}

// known: the form speaks only of numbers given with the scenario and of π
func known(l *Lin) bool {
	if l == nil {
		return false
	}
	ok := true
	for _, a := range l.atoms() {
		k := a == piAtom || len(a) > 4 && a[:4] == "arg:"
		for _, x := range lenSyms {
			k = k || x == a
		}
		if i := atomTab[a]; i != nil && i.kind == "ld" && objName(i.arr) == "u.rows" {
			k = true
		} else if i != nil && i.kind == "fn" {
			k = true
			for _, x := range i.args {
				k = k && known(x)
			}
		} else if i == nil && len(a) > 3 && a[:3] == "lit" {
			k = true
		}
		ok = ok && k
	}
	return ok
}

// plain: no function of numbers occurs in the form
func plain(l *Lin) bool {
	if !known(l) {
		return false
	}
	for _, a := range l.atoms() {
		if i := atomTab[a]; i != nil && i.kind == "fn" {
			return false
		}
	}
	return true
}

// differ: two forms that are certainly not equal for some values of the
// numbers of the scenario
func (r *Res) differ(a, b *Lin) bool {
	if a == nil || b == nil || r.s.eq(a, b) || !known(a) || !known(b) {
		return false
	}
	d := linAdd(a, b, -1)
	return d != nil && !(d.isConst() && d.c == 0)
}

// holds: the frame has n rows, row π of which is a given row of the source
func (r *Res) holds(f Val, src *FrameH, what string, n *Lin, row func(pi *Lin) *Lin) {
	got, ln := r.rowAt(f, src)
	if n != nil && ln != nil {
		r.e.oblige("C24 number of rows")
		if r.differ(ln, n) {
			r.bad("C24", "number of rows", "%s has %s rows and not %s", what, ln, n)
		}
	}
	if row == nil || got == nil || ln == nil || r.s.rng(ln).hi <= 0 {
		return
	}
	want := row(linA(piAtom))
	r.e.oblige("C24 rows held")
	if r.differ(got, want) {
		r.bad("C24", "rows held", "row π of %s is row %s of the source and not row %s", what, got, want)
	}
}

// exactRows: the frame holds the rows of the source that a mask selects
func (r *Res) exactRows(f Val, src *FrameH, mask []int64) {
	var want []int64
	for i, x := range mask {
		if x == 1 {
			want = append(want, int64(i))
		}
	}
	r.rowList(f, src, want, fmt.Sprintf("mask %v", mask))
}

// rowList: the rows that the frame holds are given one by one
func (r *Res) rowList(f Val, src *FrameH, want []int64, what string) {
	idx, ok := r.part(f, "idx").(Slice)
	if !ok || !idx.Ln.isConst() {
		return
	}
	r.e.oblige("C24 number of rows")
	if idx.Ln.c != int64(len(want)) {
		r.bad("C24", "number of rows", "the result has %s rows and not %d (%s)", idx.Ln, len(want), what)
		return
	}
	rows, ok := r.rowsOf(f, src)
	for i := range want {
		if !ok || rows[i] == nil {
			continue
		}
		r.e.oblige("C24 rows held")
		if r.differ(rows[i], linC(want[i])) {
			r.bad("C24", "rows held", "row %d of the result is row %s of the source and not row %d (%s)", i, rows[i], want[i], what)
		}
	}
}

// rowsOf: the rows of the source that the frame holds, one by one
func (r *Res) rowsOf(f Val, src *FrameH) ([]*Lin, bool) {
	idx, ok := r.part(f, "idx").(Slice)
	if !ok || !idx.Ln.isConst() || idx.Ln.c > 8 {
		return nil, false
	}
	out := make([]*Lin, idx.Ln.c)
	if els, ok := r.s.elements(idx); ok {
		o, _, _ := r.mapOf(f, partOf(src.kind))
		if o == nil || o.kP != Yes {
			return nil, false
		}
		kcol, ok := o.kV.(Slice)
		if !ok || len(kcol.Arrs) != 1 || kcol.Arrs[0] != src.col || !r.s.eq(kcol.Off, linC(0)) {
			return nil, false
		}
		for i, x := range els {
			n, _ := x.(Num)
			out[i] = r.toRow(n.L, src)
		}
		return out, true
	}
	row, _ := r.rowAt(f, src)
	if row == nil {
		return nil, false
	}
	for i := range out {
		out[i] = row.subst(func(a string) *Lin {
			if a == piAtom {
				return linC(int64(i))
			}
			return nil
		})
	}
	return out, true
}

// consecutive: the frames hold the rows of the source, each once and in order
func (r *Res) consecutive(fs []Val, src *FrameH, each *Lin, what string) {
	from := linC(0)
	for i, f := range fs {
		w := fmt.Sprintf("part %d of %d of %s", i+1, len(fs), what)
		at := from
		var n *Lin
		if each != nil && i < len(fs)-1 {
			n = each
		}
		if i == len(fs)-1 {
			n = linAdd(src.N, from, -1)
		}
		r.holds(f, src, w, n, func(pi *Lin) *Lin { return linAdd(at, pi, 1) })
		idx, ok := r.part(f, "idx").(Slice)
		if !ok || idx.Ln == nil {
			return
		}
		from = linAdd(from, idx.Ln, 1)
	}
}

// list: the frames of a list of known length
func (r *Res) list(v Val) ([]Val, bool) {
	sl, ok := v.(Slice)
	if !ok {
		return nil, false
	}
	els, ok := r.s.elements(sl)
	if !ok {
		return nil, false
	}
	var out []Val
	for _, x := range els {
		fs := r.frames(x)
		if len(fs) != 1 {
			return nil, false
		}
		out = append(out, fs[0])
	}
	return out, true
}

// sorted: the frame holds rows in the order of the values of the column, row π
// being one of the given places in that order
func (r *Res) sorted(f Val, src *FrameH, n *Lin, place func(pi *Lin) []*Lin) {
	r.holds(f, src, "the result", n, nil)
	row, ln := r.rowAt(f, src)
	if row == nil || ln == nil || r.s.rng(ln).hi <= 0 {
		return
	}
	at, ok := singleAtom(row)
	i := atomTab[at]
	if !ok || i == nil || i.kind != "fn" || len(i.args) != 1 {
		if plain(row) {
			r.e.oblige("C24 order of the rows")
			r.bad("C24", "order of the rows", "row π of the result is row %s of the source, whatever the values", row)
		}
		return
	}
	// sorted by the values of the rows
	if !strings.HasPrefix(i.fn, "argsort:") {
		return
	}
	if arr, pos, ok := colLoad(r.s, i.of); ok && arr == src.col {
		r.e.oblige("C24 order of the rows")
		if k := r.toRow(pos, src); k != nil && r.differ(k, linA(piAtom)) {
			r.bad("C24", "order of the rows", "the rows are sorted by the values of row %s as if they were those of row π", k)
		}
	}
	r.e.oblige("C24 order of the rows")
	for _, w := range place(linA(piAtom)) {
		if !r.differ(i.args[0], w) {
			return
		}
	}
	r.bad("C24", "order of the rows", "row π of the result is at place %s in ascending order, and not at %s", i.args[0], place(linA(piAtom))[0])
}

func partScenarios() []*Scenario {
	var out []*Scenario
	type op struct {
		name, id string
		args     func(b *B, p *FrameH) []Val
		rows     func(b *B) *Lin
		check    func(r *Res, p *FrameH)
	}
	pi := func(pi *Lin) *Lin { return pi }
	plus := func(l *Lin) func(*Lin) *Lin { return func(pi *Lin) *Lin { return linAdd(pi, l, 1) } }
	one := func(n func(r *Res, p *FrameH) *Lin, row func(r *Res, p *FrameH) func(*Lin) *Lin) func(r *Res, p *FrameH) {
		return func(r *Res, p *FrameH) {
			for _, f := range r.frames(r.ret[0]) {
				var at func(*Lin) *Lin
				if row != nil {
					at = row(r, p)
				}
				r.holds(f, p, "the result", n(r, p), at)
			}
		}
	}
	all := func(r *Res, p *FrameH) *Lin { return p.N }
	same := func(r *Res, p *FrameH) func(*Lin) *Lin { return pi }
	none := func(b *B, p *FrameH) []Val { return nil }
	// a number between bounds
	num := func(b *B, name string, lo int64, hi *Lin) Num {
		l := b.sym(name)
		b.s.assume(l, lo, inf)
		if hi != nil {
			b.s.assume(linAdd(hi, l, -1), 0, inf)
		}
		return Num{L: l}
	}
	neg := func(n Num, c int64) Num { return Num{L: linAdd(linC(c), n.L, -1)} }
	split := func(name, id string, rows func(b *B) *Lin, arg func(b *B, p *FrameH) Num, n int, each func() *Lin) op {
		return op{name, id, func(b *B, p *FrameH) []Val { return []Val{arg(b, p)} }, rows, func(r *Res, p *FrameH) {
			sl, ok := r.ret[0].(Slice)
			if !ok || !sl.Ln.isConst() {
				return
			}
			r.e.oblige("C24 number of parts")
			if sl.Ln.c != int64(n) {
				r.bad("C24", "number of parts", "%d parts are returned and not %d", sl.Ln.c, n)
				return
			}
			fs, ok := r.list(sl)
			if !ok {
				return
			}
			var e *Lin
			if each != nil {
				e = each()
			}
			r.consecutive(fs, p, e, "the frame")
		}}
	}
	batchArg := func(b *B, p *FrameH) Num { return Num{L: b.sym("batch")} }
	parts := func(n int64) func(b *B, p *FrameH) Num {
		return func(b *B, p *FrameH) Num { return Num{L: linC(n)} }
	}
	exactly := func(n int64) func(b *B) *Lin { return func(b *B) *Lin { return linC(n) } }
	ops := []op{
		{"View", "", none, nil, one(all, same)},
		{"ShallowCopy", "", none, nil, one(all, same)},
		{"Copy", "", none, nil, one(all, same)},
		{"ResetIndexView", "", none, nil, one(all, nil)},
		{"ColumnView", "", func(b *B, p *FrameH) []Val { return []Val{b.listOf(types.Typ[types.String], Str{K: Yes})} }, nil, one(all, same)},
		{"DetachedView", "", func(b *B, p *FrameH) []Val { return []Val{b.noStrs()} }, nil, one(all, same)},
		{"SliceView", "", func(b *B, p *FrameH) []Val {
			to := num(b, "to", 0, p.N)
			return []Val{num(b, "from", 0, to.L), to}
		}, nil, one(func(r *Res, p *FrameH) *Lin { return linAdd(linA("to"), linA("from"), -1) },
			func(r *Res, p *FrameH) func(*Lin) *Lin { return plus(linA("from")) })},
		{"SliceView", "end", func(b *B, p *FrameH) []Val {
			from := num(b, "from", 0, p.N)
			return []Val{from, Num{L: linC(-1)}}
		}, nil, one(func(r *Res, p *FrameH) *Lin { return linAdd(p.N, linA("from"), -1) },
			func(r *Res, p *FrameH) func(*Lin) *Lin { return plus(linA("from")) })},
		{"SliceView", "fromEnd", func(b *B, p *FrameH) []Val {
			k := num(b, "back", 0, p.N)
			return []Val{neg(k, -1), Num{L: linC(-1)}}
		}, nil, one(func(r *Res, p *FrameH) *Lin { return linA("back") },
			func(r *Res, p *FrameH) func(*Lin) *Lin { return plus(linAdd(p.N, linA("back"), -1)) })},
		{"IndexView", "", func(b *B, p *FrameH) []Val {
			n := b.sym("n:rows")
			s := b.userSlice("rows", types.Typ[types.Int], n)
			origRange[s.Arrs[0]] = p.N
			return []Val{s}
		}, nil, one(func(r *Res, p *FrameH) *Lin { return linA("n:rows") },
			func(r *Res, p *FrameH) func(*Lin) *Lin {
				return func(pi *Lin) *Lin { return linA(ldAtom(mkObj("u.rows"), pi)) }
			})},
		{"ReverseView", "", none, nil, one(all, func(r *Res, p *FrameH) func(*Lin) *Lin {
			return func(pi *Lin) *Lin { return linAdd(linAdd(p.N, linC(1), -1), pi, -1) }
		})},
		{"SliceView", "reversed", func(b *B, p *FrameH) []Val {
			from := num(b, "from", 1, p.N)
			to := num(b, "to", 0, linAdd(from.L, linC(1), -1))
			return []Val{from, to}
		}, nil, one(func(r *Res, p *FrameH) *Lin { return linAdd(linA("from"), linA("to"), -1) },
			func(r *Res, p *FrameH) func(*Lin) *Lin {
				return func(pi *Lin) *Lin { return linAdd(linAdd(linA("from"), linC(1), -1), pi, -1) }
			})},
		{"ShuffleView", "", none, nil, one(all, nil)},
		{"SortedView", "", func(b *B, p *FrameH) []Val { return []Val{Str{K: Yes}} }, nil, func(r *Res, p *FrameH) {
			for _, f := range r.frames(r.ret[0]) {
				r.sorted(f, p, p.N, func(pi *Lin) []*Lin { return []*Lin{pi} })
			}
		}},
		{"SampleView", "", func(b *B, p *FrameH) []Val { return []Val{num(b, "n", 0, p.N), Bool{T: No}} }, nil,
			one(func(r *Res, p *FrameH) *Lin { return linA("n") }, nil)},
		split("SplitView", "one", func(b *B) *Lin {
			n, rest := b.sym("batch"), b.sym("rest")
			b.s.assume(rest, 0, inf)
			b.s.assume(n, 1, inf)
			b.s.assume(linAdd(n, rest, -1), 0, inf)
			return rest
		}, batchArg, 1, nil),
		split("SplitNView", "one", nil, parts(1), 1, nil),
	}
	mins := map[string]int64{"at least 1": 1}
	for min, rows := range []func(b *B) *Lin{nil, func(b *B) *Lin {
		n := b.sym("Np")
		b.s.assume(n, 1, inf)
		return n
	}} {
		ops = append(ops, op{name: "SplitTrainTestViews", id: fmt.Sprintf("at least %d", min), rows: rows,
			args: func(b *B, p *FrameH) []Val { return []Val{Sc{T: "arg:ratio"}} },
			check: func(r *Res, p *FrameH) {
				a, c := r.frames(r.ret[0]), r.frames(r.ret[1])
				if len(a) != 1 || len(c) != 1 {
					return
				}
				r.consecutive([]Val{a[0], c[0]}, p, nil, "the frame")
			}})
	}
	for _, asc := range []Tri{Yes, No} {
		for _, sorted := range []Tri{Yes, No} {
			asc, sorted := asc, sorted
			id := fmt.Sprintf("%s,%s", asc, sorted)
			top := func(n func(p *FrameH) *Lin) func(r *Res, p *FrameH) {
				return func(r *Res, p *FrameH) {
					for _, f := range r.frames(r.ret[0]) {
						k := n(p)
						r.sorted(f, p, k, func(pi *Lin) []*Lin {
							if asc == Yes {
								return []*Lin{pi}
							}
							last := linAdd(linAdd(p.N, linC(1), -1), pi, -1)
							if sorted == Yes {
								return []*Lin{last}
							}
							return []*Lin{last, linAdd(linAdd(p.N, k, -1), pi, 1)}
						})
					}
				}
			}
			ops = append(ops, op{"TopView", "less," + id, func(b *B, p *FrameH) []Val {
				n := num(b, "n", 0, linAdd(p.N, linC(1), -1))
				return []Val{Str{K: Yes}, n, Bool{T: asc}, Bool{T: sorted}}
			}, nil, top(func(p *FrameH) *Lin { return linA("n") })})
			if sorted == No {
				ops = append(ops, op{"TopView", "all," + id, func(b *B, p *FrameH) []Val {
					n := num(b, "n", 0, nil)
					b.s.assume(linAdd(n.L, p.N, -1), 0, inf)
					return []Val{Str{K: Yes}, n, Bool{T: asc}, Bool{T: sorted}}
				}, nil, one(all, nil)})
			} else {
				ops = append(ops, op{"TopView", "all," + id, func(b *B, p *FrameH) []Val {
					n := num(b, "n", 0, nil)
					b.s.assume(linAdd(n.L, p.N, -1), 0, inf)
					return []Val{Str{K: Yes}, n, Bool{T: asc}, Bool{T: sorted}}
				}, nil, top(func(p *FrameH) *Lin { return p.N })})
			}
		}
	}
	// small frames, row by row
	exact := func(name string, n int64, want []int64, args func(b *B) []Val) {
		id := fmt.Sprintf("%d rows to %v", n, want)
		ops = append(ops, op{name, id, func(b *B, p *FrameH) []Val { return args(b) }, exactly(n), func(r *Res, p *FrameH) {
			for _, f := range r.frames(r.ret[0]) {
				r.rowList(f, p, want, id)
			}
		}})
	}
	noArgs := func(b *B) []Val { return nil }
	ints := func(ns ...int64) func(b *B) []Val {
		return func(b *B) []Val {
			var vs []Val
			for _, n := range ns {
				vs = append(vs, Num{L: linC(n)})
			}
			return vs
		}
	}
	intList := func(ns ...int64) func(b *B) []Val {
		return func(b *B) []Val { return []Val{b.listOf(types.Typ[types.Int], ints(ns...)(b)...)} }
	}
	exact("ReverseView", 3, []int64{2, 1, 0}, noArgs)
	exact("ReverseView", 4, []int64{3, 2, 1, 0}, noArgs)
	exact("ReverseView", 1, []int64{0}, noArgs)
	exact("ReverseView", 0, nil, noArgs)
	exact("IndexView", 3, []int64{2, 0, 2, 1, 1}, intList(2, 0, 2, 1, 1))
	exact("IndexView", 3, []int64{1}, intList(1))
	exact("IndexView", 3, nil, intList())
	exact("SliceView", 4, []int64{1, 2}, ints(1, 3))
	exact("SliceView", 4, []int64{0, 1, 2, 3}, ints(0, -1))
	exact("SliceView", 4, []int64{2, 3}, ints(-3, -1))
	exact("SliceView", 5, []int64{3, 2, 1}, ints(4, 1))
	exact("SliceView", 3, []int64{2, 1, 0}, ints(-1, 0))
	exact("SliceView", 3, []int64{2}, ints(-1, -2))
	exact("SliceView", 3, nil, ints(2, 2))
	// division of small frames
	div := func(name string, n, arg int64, sizes ...int64) {
		id := fmt.Sprintf("%d rows by %d", n, arg)
		ops = append(ops, op{name, id, func(b *B, p *FrameH) []Val { return ints(arg)(b) }, exactly(n), func(r *Res, p *FrameH) {
			sl, ok := r.ret[0].(Slice)
			if !ok || !sl.Ln.isConst() {
				return
			}
			r.e.oblige("C24 number of parts")
			if sl.Ln.c != int64(len(sizes)) {
				r.bad("C24", "number of parts", "%d parts are returned and not %d (%s)", sl.Ln.c, len(sizes), id)
				return
			}
			fs, ok := r.list(sl)
			if !ok {
				return
			}
			from := int64(0)
			for i, f := range fs {
				var rows []int64
				idx, _ := r.part(f, "idx").(Slice)
				k := sizes[i]
				if name == "SplitNView" {
					// any size up to the one of an even division
					if !idx.Ln.isConst() {
						return
					}
					k = idx.Ln.c
					if k > sizes[i] {
						k = sizes[i]
					}
					if i == len(fs)-1 {
						k = n - from
					}
				}
				for j := int64(0); j < k; j++ {
					rows = append(rows, from+j)
				}
				from += k
				r.rowList(f, p, rows, fmt.Sprintf("part %d of %s", i, id))
			}
		}})
	}
	div("SplitView", 5, 2, 2, 2, 1)
	div("SplitView", 6, 2, 2, 2, 2)
	div("SplitView", 7, 3, 3, 3, 1)
	div("SplitView", 8, 3, 3, 3, 2)
	div("SplitView", 1, 3, 1)
	div("SplitView", 3, 3, 3)
	div("SplitView", 4, 3, 3, 1)
	div("SplitView", 3, 1, 1, 1, 1)
	div("SplitView", 2, 1, 1, 1)
	div("SplitView", 9, 3, 3, 3, 3)
	div("SplitView", 10, 3, 3, 3, 3, 1)
	div("SplitView", 9, 5, 5, 4)
	div("SplitNView", 5, 2, 3, 3)
	div("SplitNView", 7, 3, 3, 3, 3)
	div("SplitNView", 6, 3, 2, 2, 2)
	div("SplitNView", 2, 4, 1, 1, 1, 1)
	div("SplitNView", 5, 4, 2, 2, 2, 2)
	div("SplitNView", 0, 2, 0, 0)
	div("SplitNView", 3, 3, 1, 1, 1)
	div("SplitNView", 4, 1, 4)
	div("SplitNView", 9, 3, 3, 3, 3)
	div("SplitNView", 10, 3, 4, 4, 4)
	div("SplitNView", 11, 3, 4, 4, 4)
	div("SplitNView", 9, 2, 5, 5)
	for _, m := range [][]int64{{1, 0, 1, 0}, {0, 1, 1}, {0, 0, 0}, {1, 1}, {0, 0, 1}} {
		m := m
		ops = append(ops, op{"MaskView", fmt.Sprint(m), func(b *B, p *FrameH) []Val {
			vs := make([]Val, len(m))
			for i, x := range m {
				vs[i] = Bool{T: triOf(x == 1)}
			}
			return []Val{b.listOf(types.Typ[types.Bool], vs...)}
		}, exactly(int64(len(m))), func(r *Res, p *FrameH) {
			for _, f := range r.frames(r.ret[0]) {
				r.exactRows(f, p, m)
			}
		}})
	}
	for _, o := range ops {
		for _, viewed := range []bool{false, true} {
			for _, k := range []string{"float", "int"} {
				for _, maps := range []bool{false, true} {
					o, viewed, k, maps := o, viewed, k, maps
					if maps && o.id == "" {
						continue
					}
					nm := o.name
					if o.id != "" {
						nm += "/" + o.id
					}
					out = append(out, &Scenario{
						name:  fmt.Sprintf("rows/%s(%s,%v,%v)", nm, k, viewed, maps),
						props: []string{"C24"}, returns: "C24",
						sc: Scn{iters: true, ratio: "arg:ratio", ratioMin: mins[o.id], rowSyms: []string{"Np"}, viewed: viewed},
						setup: func(b *B) (*ssa.Function, []Val) {
							sp := FrameSpec{name: "p", kind: k, viewed: viewed, maps: maps, encNil: No, noOth: true, safe: No}
							if o.rows != nil {
								sp.rows = o.rows(b)
							}
							p := b.frame(sp)
							return b.onDF(p, o.name, o.args(b, p)...)
						},
						check: func(r *Res) { o.check(r, r.f["p"]) },
					})
				}
			}
		}
	}
	return append(out, iterScenarios()...)
}

// iterScenarios: all the rows of a frame, one after the other
func iterScenarios() []*Scenario {
	var out []*Scenario
	for _, n := range []int{0, 1, 3, 127, 128, 129, 140} {
		for c := 0; c < 6; c++ {
			n, viewed, kind := n, c%2 == 1, []string{"float", "int", "bool"}[c/2]
			if n > 3 && kind != "float" {
				continue
			}
			var rets [][]Val
			var cells []Val
			out = append(out, &Scenario{
				name:  fmt.Sprintf("rows/NextRow/%d(%s,%v)", n, kind, viewed),
				props: []string{"C24"}, returns: "C24",
				sc: Scn{unroll: 150, iters: true, rowSyms: []string{"Np"}, viewed: viewed},
				setup: func(b *B) (*ssa.Function, []Val) {
					p := b.frame(FrameSpec{name: "p", kind: kind, viewed: viewed, encNil: No, noOth: true, safe: No, rows: linC(int64(n))})
					a := b.call(b.w.fn("dataframe", "NewFloat32Iterator"), p.ptr, b.listOf(types.Typ[types.String], Str{K: Yes}))
					f, _ := b.w.method("dataframe", "Float32Iterator", "NextRow")
					rets, cells = nil, nil
					for i := 0; i < n; i++ {
						ret := b.call(f, a[0])
						rets = append(rets, ret)
						cells = append(cells, b.first(ret[0]))
					}
					return f, []Val{a[0]}
				},
				check: func(r *Res) {
					p := r.f["p"]
					for i, ret := range append(rets, r.ret) {
						r.e.oblige("C24 rows iterated over")
						isNil := Maybe
						if sl, ok := ret[0].(Slice); ok {
							isNil = sl.Nil
						}
						num, _ := ret[1].(Num)
						if i == n {
							if isNil == No {
								r.bad("C24", "end of the iteration", "the iterator gives another row after the %d rows of the frame", n)
							} else if r.differ(num.L, p.N) {
								r.bad("C24", "end of the iteration", "the iterator of a frame of %d rows ends with %s instead of the number of rows", n, num.L)
							}
							pos, _ := ret[2].(Num)
							if r.differ(pos.L, p.A) {
								r.bad("C24", "end of the iteration", "the iterator ends with %s instead of the size of the storage", pos.L)
							}
							continue
						}
						if isNil == Yes {
							r.bad("C24", "end of the iteration", "the iterator of a frame of %d rows ends at row %d", n, i)
							return
						}
						if r.differ(num.L, linC(int64(i))) {
							r.bad("C24", "row iterated over", "the iterator gives row number %s with row %d", num.L, i)
							return
						}
						pos, _ := ret[2].(Num)
						if row := r.toRow(pos.L, p); row != nil && r.differ(row, linC(int64(i))) {
							r.bad("C24", "row iterated over", "the iterator gives the position of row %s with row %d", row, i)
							return
						}
						if _, at, ok := colLoad(r.s, cells[i]); ok && kind != "bool" {
							r.e.oblige("C24 cells iterated over")
							if row := r.toRow(at, p); row != nil && r.differ(row, linC(int64(i))) {
								r.bad("C24", "cells iterated over", "the iterator gives the cells of row %s with row %d", row, i)
								return
							}
						}
					}
				},
			})
		}
	}
	return out
}

// first: the first element of a list
func (b *B) first(v Val) Val {
	if sl, ok := v.(Slice); ok {
		if els, ok := b.s.elements(sl); ok && len(els) > 0 {
			return els[0]
		}
	}
	return nil
}
