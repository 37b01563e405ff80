package main

// C19: two rules on the SSA form of what hashes the strings: no source of
// chance is used, and no hash can be negative (-1 stands for missing strings).

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// chance: functions whose result changes from one call or one run to the next.
// (math/rand shuffles the columns among workers and draws identifiers, which
// has no bearing on the hashes: it is told apart by what is done with it)
var chance = []string{"hash/maphash.", "(*hash/maphash.", "crypto/rand.", "os.Getpid", "(time.Time).UnixNano", "(time.Time).Unix"}

func ruleHash(w *World, r *ruleReport) {
	root, _ := w.method("dataframe", "DataFrame", "HashStringsView")
	j := &jsonRule{w: w, r: r, owner: map[*types.Named]string{}}
	fns := map[*ssa.Function]bool{}
	j.reach(root, fns)
	var all []*ssa.Function
	for f := range fns {
		all = append(all, f)
	}
	sort.Slice(all, func(a, b int) bool { return all[a].Pos() < all[b].Pos() })
	for _, f := range all {
		r.funcs[fnName(f)] = true
		hashDeps(w, r, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					name := ""
					if g := c.Common().StaticCallee(); g != nil {
						name = g.String()
					}
					r.oblige("calls on the way to a hash", "")
					for _, p := range chance {
						if strings.HasPrefix(name, p) {
							r.bad("chance in a hash", w.posOf(in.Pos())+" in "+fnName(f), "%s, which changes from one run to the next, is used while strings are hashed: the same string gets different numbers", name)
						}
					}
				}
				x, ok := in.(*ssa.Convert)
				if !ok || !isSigned(x.Type()) {
					continue
				}
				hashed := false
				max := upper(x.X, map[ssa.Value]bool{}, &hashed)
				if !hashed {
					continue
				}
				r.oblige("hash converted to a signed number", w.posOf(in.Pos()))
				if adjusted(x) {
					continue
				}
				if lim := maxOf(x.Type()); max != nil && constant.Compare(max, token.GTR, lim) {
					r.bad("negative hash", w.posOf(in.Pos())+" in "+fnName(f), "a hash up to %s is converted to %s: it may be negative, and -1 stands for a missing string", max.ExactString(), x.Type())
				}
			}
		}
	}
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// maxOf: the greatest number of an integer type
func maxOf(t types.Type) constant.Value {
	bits := uint(64)
	signed := isSigned(t)
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8, types.Int8:
			bits = 8
		case types.Uint16, types.Int16:
			bits = 16
		case types.Uint32, types.Int32:
			bits = 32
		}
	}
	if signed {
		bits--
	}
	one := constant.MakeInt64(1)
	return constant.BinaryOp(constant.Shift(one, token.SHL, bits), token.SUB, one)
}

// upper: the greatest value that an unsigned number computed from a hash may
// have; nil if it is not known
func upper(v ssa.Value, seen map[ssa.Value]bool, hashed *bool) constant.Value {
	if seen[v] || isSigned(v.Type()) {
		return nil
	}
	seen[v] = true
	least := func(a, b constant.Value) constant.Value {
		if a == nil || b != nil && constant.Compare(b, token.LSS, a) {
			return b
		}
		return a
	}
	most := func(a, b constant.Value) constant.Value {
		if a == nil || b == nil {
			return nil
		}
		if constant.Compare(b, token.GTR, a) {
			return b
		}
		return a
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return x.Value
		}
	case *ssa.Call:
		if c := x.Call; c.IsInvoke() && strings.HasPrefix(c.Method.Name(), "Sum") && c.Method.Pkg() != nil && strings.HasPrefix(c.Method.Pkg().Path(), "hash") {
			*hashed = true
			return maxOf(x.Type())
		}
		g := x.Call.StaticCallee()
		if g == nil {
			return nil
		}
		if strings.HasPrefix(g.String(), "hash/") || strings.HasPrefix(g.String(), "(*hash/") {
			*hashed = true
			return maxOf(x.Type())
		}
		// what a helper returns
		var m constant.Value
		n := 0
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				u := upper(ret.Results[0], seen, hashed)
				if n > 0 {
					u = most(m, u)
				}
				m = u
				n++
			}
		}
		return m
	case *ssa.Phi:
		var m constant.Value
		for i, e := range x.Edges {
			u := upper(e, seen, hashed)
			if i > 0 {
				u = most(m, u)
			}
			m = u
		}
		return m
	case *ssa.Convert:
		u := upper(x.X, seen, hashed)
		if u == nil {
			return nil
		}
		return least(u, maxOf(x.Type()))
	case *ssa.ChangeType:
		return upper(x.X, seen, hashed)
	case *ssa.BinOp:
		a := upper(x.X, seen, hashed)
		switch x.Op {
		case token.REM:
			b := upper(x.Y, seen, hashed)
			if b == nil {
				return nil // less than a number that is not known
			}
			return least(a, constant.BinaryOp(b, token.SUB, constant.MakeInt64(1)))
		case token.AND:
			b := upper(x.Y, seen, hashed)
			if a == nil || b == nil {
				if _, ok := x.Y.(*ssa.Const); ok {
					return b
				}
				if _, ok := x.X.(*ssa.Const); ok {
					return a
				}
				return nil
			}
			return least(a, b)
		case token.SHR:
			if c, ok := x.Y.(*ssa.Const); ok && a != nil {
				if n, ok := constant.Uint64Val(c.Value); ok && n < 64 {
					return constant.Shift(a, token.SHR, uint(n))
				}
			}
			return nil
		case token.QUO:
			if c, ok := x.Y.(*ssa.Const); ok && a != nil && constant.Sign(c.Value) > 0 {
				return constant.BinaryOp(a, token.QUO_ASSIGN, c.Value)
			}
			return nil
		case token.XOR, token.ADD, token.MUL, token.OR, token.SHL:
			b := upper(x.Y, seen, hashed)
			m := maxOf(x.Type())
			if a != nil && constant.Compare(a, token.EQL, m) || b != nil && constant.Compare(b, token.EQL, m) {
				return m
			}
			return nil
		}
	}
	return nil
}

// adjusted: something is still made of the converted number
func adjusted(v ssa.Value) bool {
	for _, in := range *v.Referrers() {
		switch in.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.Call:
			return true
		case *ssa.Phi:
			return true
		}
	}
	return false
}
