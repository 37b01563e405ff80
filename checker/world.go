package main

// Loading the program and finding, by meaning, the parts of it that the
// scenarios talk about.

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func loadWorld(dir string) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the module does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, ppk: map[string]*packages.Package{}, dir: dir}
	for i, p := range pk {
		if ps[i] == nil || !strings.HasPrefix(p.PkgPath, modPath) {
			continue
		}
		n := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
		w.pkgs[n] = ps[i]
		w.ppk[n] = p
		w.fset = p.Fset
	}
	if w.pkgs["dataframe"] == nil || w.pkgs["preprocessing"] == nil || w.pkgs["algorithms"] == nil || w.pkgs["utils"] == nil {
		return nil, fmt.Errorf("packages not found")
	}
	w.all = map[*ssa.Function]bool{}
	for f := range ssautil.AllFunctions(prog) {
		if w.inModule(f) {
			w.all[f] = true
		}
	}
	return w, nil
}

type anchorErr struct{ msg string }

func (a anchorErr) Error() string { return a.msg }

func (w *World) named(pkg, name string) *types.Named {
	p := w.pkgs[pkg]
	if p == nil {
		panic(anchorErr{"package " + pkg + " not found"})
	}
	t, ok := p.Members[name].(*ssa.Type)
	if !ok {
		panic(anchorErr{"type " + pkg + "." + name + " not found"})
	}
	return t.Type().(*types.Named)
}

func (w *World) fn(pkg, name string) *ssa.Function {
	p := w.pkgs[pkg]
	if p == nil || p.Func(name) == nil {
		panic(anchorErr{"function " + pkg + "." + name + " not found"})
	}
	return p.Func(name)
}

// method returns the function declared (or promoted) for T or *T; byVal tells
// whether the receiver is the value itself
func (w *World) method(pkg, typ, name string) (*ssa.Function, bool) {
	f, v := w.tryMethod(pkg, typ, name)
	if f == nil {
		panic(anchorErr{"method " + pkg + "." + typ + "." + name + " not found"})
	}
	return f, v
}

func (w *World) tryMethod(pkg, typ, name string) (*ssa.Function, bool) {
	n := w.named(pkg, typ)
	ms := types.NewMethodSet(n)
	if sel := ms.Lookup(w.pkgs[pkg].Pkg, name); sel != nil {
		return w.prog.MethodValue(sel), true
	}
	ms = types.NewMethodSet(types.NewPointer(n))
	if sel := ms.Lookup(w.pkgs[pkg].Pkg, name); sel != nil {
		return w.prog.MethodValue(sel), false
	}
	return nil, false
}

// dfShape tells where the parts of a data frame are
type dfShape struct {
	df, raw, hdr *types.Named
	path         map[string]string // part -> path in the DataFrame struct
	rawPath      string            // path of the embedded RawData
	hdrElem      types.Type        // element type of the map of a header
	hdrPath      string            // path of the map in a header
	typ          map[string]types.Type
}

func (w *World) shape() *dfShape {
	if w.shp != nil {
		return w.shp
	}
	d := &dfShape{df: w.named("dataframe", "DataFrame"), raw: w.named("dataframe", "RawData"), hdr: w.named("dataframe", "ColumnHeader"), path: map[string]string{}, typ: map[string]types.Type{}}
	type leaf struct {
		path, name string
		t          types.Type
		raw        bool
	}
	var leaves []leaf
	var walk func(t types.Type, path string, raw bool, depth int)
	walk = func(t types.Type, path string, raw bool, depth int) {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			p := fmt.Sprintf("%s.%d", path, i)
			if types.Identical(f.Type(), d.raw) {
				d.rawPath = p
				walk(f.Type(), p, true, depth+1)
				continue
			}
			if n, ok := f.Type().(*types.Named); ok && !types.Identical(n, d.hdr) && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && depth < 3 {
				if _, ok := n.Underlying().(*types.Struct); ok {
					walk(f.Type(), p, raw, depth+1)
					continue
				}
			}
			leaves = append(leaves, leaf{p, f.Name(), f.Type(), raw})
		}
	}
	walk(d.df, "", false, 0)
	class := func(t types.Type) string {
		if types.Identical(t, d.hdr) {
			return "hdr"
		}
		switch u := t.Underlying().(type) {
		case *types.Map:
			if s, ok := u.Elem().Underlying().(*types.Slice); ok {
				switch b := s.Elem().Underlying().(type) {
				case *types.Basic:
					switch b.Kind() {
					case types.Float64:
						return "floats"
					case types.Int:
						return "ints"
					case types.Bool:
						return "bools"
					}
				case *types.Interface:
					return "objects"
				}
			}
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok {
				switch b.Kind() {
				case types.Int:
					return "idx"
				case types.Bool:
					return "mask"
				}
			}
		case *types.Interface:
			return "enc"
		case *types.Basic:
			switch u.Kind() {
			case types.Bool:
				return "flag"
			case types.Int:
				return "int"
			}
		}
		return "?"
	}
	want := map[string][2]string{"floats": {"floats", "floats"}, "ints": {"ints", "ints"}, "bools": {"bools", "bools"}, "objects": {"objects", "objects"},
		"idx": {"indices", "idx"}, "mask": {"mask", "mask"}, "enc": {"textEncoding", "enc"}, "shared": {"shared", "hdr"}, "strhdr": {"stringHeader", "hdr"},
		"sharedMaps": {"sharedMaps", "flag"}, "viewed": {"indexViewed", "flag"}, "safe": {"mThreadSafe", "flag"}, "maxCPU": {"maxCPU", "int"}}
	accessor := map[string][2]string{"strhdr": {"StringHeader", "r"}, "safe": {"ThreadSafeMasking", "w"}, "maxCPU": {"SetMaxCPU", "w"}, "viewed": {"AreIndicesAltered", "r"}}
	taken := map[string]bool{}
	for part, x := range want {
		for _, l := range leaves {
			if l.name == x[0] && class(l.t) == x[1] {
				d.path[part] = l.path
				d.typ[part] = l.t
				taken[l.path] = true
			}
		}
	}
	for part, a := range accessor {
		if d.path[part] != "" {
			continue
		}
		fn, _ := w.method("dataframe", "DataFrame", a[0])
		for _, l := range leaves {
			if class(l.t) == want[part][1] && touches(fn, l.name, a[1]) {
				d.path[part] = l.path
				d.typ[part] = l.t
				taken[l.path] = true
			}
		}
	}
	for part, x := range want {
		if d.path[part] != "" {
			continue
		}
		var c []leaf
		for _, l := range leaves {
			if !taken[l.path] && class(l.t) == x[1] && !(part == "sharedMaps" && !l.raw) {
				c = append(c, l)
			}
		}
		if len(c) != 1 {
			panic(anchorErr{fmt.Sprintf("cannot tell which field of DataFrame is %q", part)})
		}
		d.path[part] = c[0].path
		d.typ[part] = c[0].t
		taken[c[0].path] = true
	}
	// the map of a header
	hs, ok := d.hdr.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < hs.NumFields(); i++ {
			if m, ok := hs.Field(i).Type().Underlying().(*types.Map); ok {
				d.hdrElem = m.Elem()
				d.hdrPath = fmt.Sprintf(".%d", i)
			}
		}
	} else if m, ok := d.hdr.Underlying().(*types.Map); ok {
		d.hdrElem = m.Elem()
	}
	if d.hdrElem == nil {
		panic(anchorErr{"ColumnHeader holds no map"})
	}
	if d.rawPath == "" {
		panic(anchorErr{"DataFrame holds no RawData"})
	}
	w.shp = d
	return d
}

// touches: the function (or what it calls directly) reads or writes the field
func touches(fn *ssa.Function, name, how string) bool {
	for i := 0; i < 2; i++ {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				if st.Field(fa.Field).Name() != name {
					continue
				}
				for _, r := range *fa.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == fa {
						if how == "w" {
							return true
						}
					} else if how == "r" {
						return true
					}
				}
			}
		}
		// a promotion wrapper
		var callee *ssa.Function
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
					callee = c.Common().StaticCallee()
				}
			}
		}
		if callee == nil || fn.Synthetic == "" {
			return false
		}
		fn = callee
	}
	return false
}

// constOf: the value of an integer constant of the module
func (w *World) constOf(pkg, name string) int64 {
	p := w.pkgs[pkg]
	if p == nil {
		panic(anchorErr{"package " + pkg + " not found"})
	}
	c, ok := p.Members[name].(*ssa.NamedConst)
	if !ok {
		panic(anchorErr{"constant " + pkg + "." + name + " not found"})
	}
	v, _ := constant.Int64Val(c.Value.Value)
	return v
}

// unseen: the functions of the module that no scenario went through
func (w *World) unseen(seen map[string]bool) []string {
	var r []string
	for f := range w.all {
		if f.Synthetic == "" && len(f.Blocks) > 0 && !seen[fnName(f)] {
			r = append(r, fmt.Sprintf("%s (%d blocks, %s)", fnName(f), len(f.Blocks), w.posOf(f.Pos())))
		}
	}
	sort.Strings(r)
	return r
}
