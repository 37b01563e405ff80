package main

// C19: what the numbers stored for the strings are computed from. A backward
// slice of each number stored in a column of integers that comes from a string
// or from a hash: it must not contain the number of the row, a counter carried
// from one row to the next, the size of a table, nor a number of the frame.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type hashDep struct {
	w    *World
	text bool // a string or a hash is part of it
	bad  string
	rows map[ssa.Value]bool
	head *ssa.BasicBlock // where the loop over the rows begins
	seen map[ssa.Value]bool
	par  map[*ssa.Parameter]ssa.Value
	deep int
}

// hashDeps: reports what the numbers stored by a function depend on
func hashDeps(w *World, r *ruleReport, f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !isSigned(st.Val.Type()) {
				continue
			}
			if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			d := &hashDep{w: w, rows: map[ssa.Value]bool{}, seen: map[ssa.Value]bool{}, par: map[*ssa.Parameter]ssa.Value{}}
			d.row(ia.Index)
			d.visit(st.Val)
			if !d.text {
				continue
			}
			r.oblige("number stored for a string", w.posOf(st.Pos()))
			if d.bad != "" {
				r.bad("hash of more than the string", w.posOf(st.Pos())+" in "+fnName(f), "the number stored for a string depends on %s", d.bad)
			}
		}
	}
}

// row: the values that tell which row is being stored
func (d *hashDep) row(v ssa.Value) {
	if _, ok := v.(*ssa.Const); ok || d.rows[v] {
		return
	}
	d.rows[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		d.head = x.Block()
	case *ssa.BinOp:
		d.row(x.X)
		d.row(x.Y)
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			d.row(ia.Index)
		}
	case *ssa.Extract:
	}
}

func (d *hashDep) no(what string) {
	if d.bad == "" {
		d.bad = what
	}
}

func (d *hashDep) visit(v ssa.Value) {
	if v == nil || d.seen[v] {
		return
	}
	if d.rows[v] {
		d.no("the number of its row")
		return
	}
	d.seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		if a := d.par[x]; a != nil {
			d.visit(a)
		}
	case *ssa.Phi:
		if x.Block() == d.head && isNumber(x.Type()) && counts(x) {
			d.no("a counter carried from the rows above")
			return
		}
		for _, e := range x.Edges {
			d.visit(e)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return
		}
		d.visit(x.X)
		d.visit(x.Y)
	case *ssa.Convert:
		d.visit(x.X)
	case *ssa.ChangeType:
		d.visit(x.X)
	case *ssa.MakeInterface:
		d.visit(x.X)
	case *ssa.ChangeInterface:
		d.visit(x.X)
	case *ssa.Slice:
		d.visit(x.X)
		d.visit(x.Low)
		d.visit(x.High)
	case *ssa.Extract:
		d.visit(x.Tuple)
	case *ssa.TypeAssert:
		if b, ok := x.AssertedType.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			d.text = true
			return
		}
		d.visit(x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			d.visit(x.X)
			return
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if isNumber(x.Type()) && strings.Contains(a.X.Type().String(), modPath) {
				d.no("a number of the frame (" + fieldName(a) + ")")
			}
		case *ssa.Alloc:
			d.stores(a)
		}
	case *ssa.Alloc:
		d.stores(x)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			d.visit(x.X)
			return
		}
		d.visit(x.Index)
		for _, in := range usesOf(x.X) {
			if u, ok := in.(*ssa.MapUpdate); ok && u.Map == x.X {
				d.visit(u.Value)
			}
		}
	case *ssa.Call:
		d.call(x)
	}
}

// stores: what is put in a local variable, or in an array
func (d *hashDep) stores(a ssa.Value) {
	for _, in := range usesOf(a) {
		switch y := in.(type) {
		case *ssa.Store:
			if y.Addr == a {
				d.visit(y.Val)
			}
		case *ssa.IndexAddr:
			for _, in := range usesOf(y) {
				if st, ok := in.(*ssa.Store); ok && st.Addr == y {
					d.visit(st.Val)
				}
			}
		}
	}
}

// fed: what is given to a hash, whoever is called with it
func (d *hashDep) fed(h ssa.Value) {
	if d.seen[h] {
		return
	}
	d.seen[h] = true
	for _, in := range usesOf(h) {
		switch y := in.(type) {
		case *ssa.ChangeInterface:
			d.fed(y)
		case *ssa.MakeInterface:
			d.fed(y)
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && b != nil {
				continue
			}
			if g := y.Call.StaticCallee(); g != nil && d.w.inModule(g) {
				continue
			}
			for _, a := range y.Call.Args {
				if a != h {
					d.visit(a)
				}
			}
		}
	}
}

func (d *hashDep) call(x *ssa.Call) {
	c := &x.Call
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			switch t := c.Args[0].Type().Underlying().(type) {
			case *types.Map:
				d.no("the size of a table")
				return
			case *types.Slice:
				if e, ok := t.Elem().Underlying().(*types.Basic); !ok || e.Kind() != types.Byte && e.Kind() != types.Rune {
					d.no("the size of a list")
					return
				}
			}
			d.visit(c.Args[0])
			return
		}
		for _, a := range c.Args {
			d.visit(a)
		}
		return
	}
	if c.IsInvoke() {
		if m := c.Method; strings.HasPrefix(m.Name(), "Sum") && m.Pkg() != nil && strings.HasPrefix(m.Pkg().Path(), "hash") {
			d.text = true
			d.fed(c.Value)
			for _, a := range c.Args {
				d.visit(a)
			}
		}
		return
	}
	g := c.StaticCallee()
	if g == nil {
		return
	}
	if !d.w.inModule(g) || len(g.Blocks) == 0 {
		if strings.HasPrefix(g.String(), "hash/") || strings.HasPrefix(g.String(), "(*hash/") {
			d.text = true
		}
		for _, a := range c.Args {
			d.visit(a)
		}
		return
	}
	if d.deep > 4 {
		return
	}
	d.deep++
	for i, p := range g.Params {
		if i < len(c.Args) {
			d.par[p] = c.Args[i]
		}
	}
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range ret.Results {
				if isNumber(v.Type()) {
					d.visit(v)
				}
			}
		}
	}
	d.deep--
}

func usesOf(v ssa.Value) []ssa.Instruction {
	if r := v.Referrers(); r != nil {
		return *r
	}
	return nil
}

func isNumber(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func fieldName(a *ssa.FieldAddr) string {
	t := a.X.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if s, ok := t.(*types.Struct); ok && a.Field < s.NumFields() {
		return s.Field(a.Field).Name()
	}
	return "?"
}

// counts: a number computed from the one it had at the previous turn
func counts(p *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value, op bool) bool
	from = func(v ssa.Value, op bool) bool {
		if v == ssa.Value(p) {
			return op
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if from(e, op) {
					return true
				}
			}
		case *ssa.BinOp:
			return from(x.X, true) || from(x.Y, true)
		case *ssa.Convert:
			return from(x.X, op)
		}
		return false
	}
	for _, e := range p.Edges {
		if e != ssa.Value(p) && from(e, false) {
			return true
		}
	}
	return false
}
