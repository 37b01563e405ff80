package main

// What is checked while the program is interpreted.

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/rom1mouret/ml-essentials"

type World struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package // by path below the module
	ppk  map[string]*packages.Package
	fset *token.FileSet
	dir  string
	all  map[*ssa.Function]bool
	shp  *dfShape
}

func (w *World) posOf(p token.Pos) string {
	q := w.fset.Position(p)
	if !q.IsValid() {
		return "?"
	}
	r, err := filepath.Rel(w.dir, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func (w *World) pos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		// the nearest instruction that has a position
		b := in.Block()
		k := -1
		for i, x := range b.Instrs {
			if x == in {
				k = i
			}
		}
		for i := k; i >= 0 && !p.IsValid(); i-- {
			p = b.Instrs[i].Pos()
		}
		for i := k + 1; i < len(b.Instrs) && i > 0 && !p.IsValid(); i++ {
			p = b.Instrs[i].Pos()
		}
		if !p.IsValid() {
			p = in.Parent().Pos()
		}
	}
	fn := in.Parent()
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return w.posOf(p) + " in " + strings.ReplaceAll(fn.RelString(nil), modPath+"/", "")
}

func (w *World) inModule(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		if fn.Origin() != nil && fn.Origin().Pkg != nil {
			return strings.HasPrefix(fn.Origin().Pkg.Pkg.Path(), modPath)
		}
		// wrappers of methods (promoted, bound)
		if fn.Synthetic != "" && len(fn.Blocks) > 0 {
			if o := fn.Object(); o != nil && o.Pkg() != nil {
				return strings.HasPrefix(o.Pkg().Path(), modPath)
			}
		}
		return false
	}
	p := fn.Pkg.Pkg.Path()
	if fn.Name() == "debugPrint" || fn.Name() == "PrintUIDs" {
		return false
	}
	return strings.HasPrefix(p, modPath)
}

// ---- scenarios

type rule struct{ prop, msg string }

type Scn struct {
	name     string
	kLit     string
	props    map[string]bool
	faults   bool
	faultOf  func(string) bool
	jobs     bool
	frozen   map[string]rule // role or role:what
	rowSyms  []string        // lengths of lists of rows
	viewed   bool
	rmw      map[string]bool // roles of columns that are transformed in place
	only     map[string]bool
	stubs    map[string]bool // public functions decided by scenarios of their own: taken as only reading their arguments
	unroll   int             // how many iterations are followed one by one
	ratio    string          // a number between 0 and 1
	ratioMin int64           // what is taken of a number is at least that
	hashes   bool            // whether strings are hashed
	iters    bool            // tell the iterations of unrolled loops apart
	cells    []Tri           // whether the cells of each column of a CSV are κ
	doc      []string        // the classes of the cells of a CSV of one column
	fileHdr  Tri             // whether the header found in a file has κ
	opts     map[string]Val  // fields of the reader or writer, by name
}

func (c *Scn) wants(p string) bool { return c.props == nil || c.props[p] }
func (c *Scn) tracksJobs() bool    { return true }

func (e *Engine) desc(id ObjID) string {
	if o := e.curS; o != nil {
		if ob := o.heap[id]; ob != nil && ob.role != "" {
			return "(" + roleText(ob.role) + ")"
		}
	}
	n := objName(id)
	if i := strings.IndexByte(n, '#'); i >= 0 {
		if j := strings.IndexByte(n, ':'); j > i {
			return "(allocated in " + strings.Trim(n[j+1:], "κ.old") + ")"
		}
	}
	return "(" + n + ")"
}

func roleText(r string) string {
	p := strings.SplitN(r, ".", 2)
	who := map[string]string{"p": "the source frame", "q": "another source frame", "u": "the caller", "v": "the frame"}[p[0]]
	if who == "" || len(p) < 2 {
		return r
	}
	what := map[string]string{"floats": "float column map", "ints": "int column map", "bools": "bool column map", "objects": "object column map",
		"shared": "record of shared columns", "strhdr": "string marks", "idx": "row list", "mask": "mask buffer", "df": "header",
		"cols": "list of names", "col": "column storage", "vals": "values"}[strings.SplitN(p[1], ".", 2)[0]]
	if what == "" {
		what = p[1]
	}
	return what + " of " + who
}

func (e *Engine) onRead(s *State, id ObjID, o *Obj, in ssa.Instruction) {
	if o.role != "" {
		e.touched["r:"+o.role] = true
	}
	if in == nil {
		return
	}
	e.raceRead(s, id, o, in)
}

func (e *Engine) onWrite(s *State, id ObjID, o *Obj, what, path string, in ssa.Instruction) {
	if o.role != "" {
		e.touched["w:"+o.role] = true
	}
	if in == nil || e.weakW {
		return
	}
	e.raceWrite(s, id, o, what, in)
	if what == "own" {
		what = "elem"
	}
	if o.role == "" || e.sc == nil {
		return
	}
	r, ok := e.sc.frozen[o.role+":"+what]
	if !ok {
		r, ok = e.sc.frozen[o.role]
	}
	if !ok {
		if i := strings.IndexByte(o.role, '.'); i >= 0 {
			if j := strings.IndexByte(o.role[i+1:], '.'); j >= 0 {
				base := o.role[:i+1+j]
				r, ok = e.sc.frozen[base+":"+what]
				if !ok {
					r, ok = e.sc.frozen[base]
				}
			}
		}
	}
	if !ok {
		return
	}
	if r.prop != "" {
		e.oblige(r.prop + " write to watched memory")
		e.alarm(r.prop, "writes "+o.role, in, "%s: %s is modified", r.msg, roleText(o.role))
	}
}

// exact: the form speaks only of what the scenario named
func exact(l *Lin) bool {
	return l != nil && !l.mentions(func(a string) bool {
		return strings.HasPrefix(a, "j:") || strings.HasPrefix(a, "len:") || strings.HasPrefix(a, "div(") || strings.HasPrefix(a, "mod(") ||
			strings.HasPrefix(a, "conv") || strings.HasPrefix(a, "mlen:") || strings.HasPrefix(a, "wg?")
	})
}

// onIndex: row numbers must not be taken for storage positions, nor the other way round
func (e *Engine) onIndex(s *State, sl Slice, a ObjID, idx Num, in ssa.Instruction) {
	o := s.heap[a]
	if o == nil || e.sc == nil || !e.sc.viewed || idx.L == nil && idx.R == nil || idx.L.isConst() || sl.Ln == nil {
		return
	}
	if strings.HasPrefix(o.role, "u.") {
		return
	}
	if !exact(sl.Ln) {
		return
	}
	R := idx.R
	if R == nil {
		R = loadRange(idx.L)
	}
	if R != nil {
		if !exact(R) {
			return
		}
		e.oblige("C05 element addressed through a row list")
		if !s.isSym(sl.Ln) {
			return
		}
		for _, p := range rangeParts(R) {
			if s.provesGE0(linAdd(sl.Ln, p, -1)) || !s.isSym(p) {
				continue
			}
			if at, _ := singleAtom(p); e.isRows(at) && strings.Contains(o.role, ".col") {
				e.alarm("C05", "row number used as a storage position", in, "a row number (below %s) addresses %s, which has %s elements", p, e.desc(a), sl.Ln)
			} else {
				e.alarm("C05", "storage position used as a row number", in, "a position below %s is used on %s, which has %s elements", p, e.desc(a), sl.Ln)
			}
		}
		return
	}
	if !(strings.Contains(o.role, ".col") || strings.HasSuffix(o.role, ".idx")) {
		return
	}
	if s.provesGE0(linAdd(linAdd(sl.Ln, idx.L, -1), linC(1), -1)) {
		return
	}
	if strings.HasSuffix(o.role, ".idx") && s.isSym(sl.Ln) {
		for _, n := range lenSyms {
			if n[0] != 'A' || s.provesGE0(linAdd(linA(sl.Ln.key()[1:]), linA(n), -1)) {
				continue
			}
			if iv, _, ok := affineIV(idx.L); ok && iv != "" && s.provesGE0(linAdd(linAdd(linA(n), idx.L, -1), linC(1), -1)) {
				e.alarm("C05", "storage position used as a row number", in, "a position in the storage (below %s) addresses %s, which has %s elements", n, e.desc(a), sl.Ln)
				return
			}
		}
	}
	for _, n := range e.sc.rowSyms {
		if n == sl.Ln.key()[1:] {
			continue
		}
		if s.provesGE0(linAdd(linAdd(linA(n), idx.L, -1), linC(1), -1)) {
			e.alarm("C05", "row number used as a storage position", in, "a row number (below %s) directly addresses %s, which has %s elements", n, e.desc(a), sl.Ln)
			return
		}
	}
}

func (e *Engine) isRows(at string) bool {
	for _, x := range e.sc.rowSyms {
		if x == at {
			return true
		}
	}
	return false
}

// isSym: the form is a single length named by the scenario
func (s *State) isSym(l *Lin) bool {
	at, ok := singleAtom(l)
	if !ok {
		return false
	}
	for _, x := range lenSyms {
		if x == at {
			return true
		}
	}
	return false
}

// colLoad: the value is exactly the content of a column of the scenario at a
// position; returns the storage and the position
func colLoad(s *State, v Val) (ObjID, *Lin, bool) {
	t := ""
	switch x := v.(type) {
	case Sc:
		t = x.T
	case Num:
		t, _ = singleAtom(x.L)
	case Str:
		t = x.T
	case Bool:
		if x.C != nil && x.C.kind == "atom" {
			t = x.C.atom
		}
	case Iface:
		if x.T != "" {
			t = x.T
		} else if x.Dyn != nil {
			return colLoad(s, x.Dyn)
		}
	}
	for t != "" {
		i := atomTab[t]
		if i == nil {
			return 0, nil, false
		}
		if i.kind == "ld" {
			o := s.heap[i.arr]
			if o != nil && strings.Contains(o.role, ".col") {
				return i.arr, i.idx, true
			}
			return 0, nil, false
		}
		if i.fn == "conv" || i.fn == "val" {
			if t, _ = singleAtom(i.args[0]); t != "" {
				continue
			}
		}
		return 0, nil, false
	}
	return 0, nil, false
}

// rowOf: the row whose storage position is l
func rowOf(s *State, l *Lin) (*Lin, bool) {
	at, ok := singleAtom(l)
	if !ok {
		return nil, false
	}
	i := atomTab[at]
	if i == nil || i.kind != "ld" {
		return nil, false
	}
	o := s.heap[i.arr]
	if o == nil || !strings.HasSuffix(o.role, ".idx") {
		return nil, false
	}
	return i.idx, true
}

func (e *Engine) onElemStore(s *State, arr ObjID, o *Obj, idx Num, v Val, in ssa.Instruction) {
	if e.sc == nil {
		return
	}
	// transformation in place of rows that may be repeated
	if e.sc.rmw[o.role] && e.sc.viewed && idx.L != nil {
		e.oblige("C16 in-place transformation")
		if valDeps(v).has(arr) {
			if _, ok := rowOf(s, idx.L); ok {
				e.alarm("C16", "transformed once per row", in, "the new value is computed from the cell and written back while the rows are being visited: a cell that several rows refer to is transformed several times")
			}
		}
	}
	// alignment
	if _, pos, ok := colLoad(s, v); ok && idx.L != nil {
		row, ok := rowOf(s, pos)
		if !ok {
			return
		}
		iv, ra, ok1 := affineIV(row)
		iv2, rb, ok2 := affineIV(idx.L)
		if ok1 && ok2 && iv == iv2 && !strings.Contains(o.role, ".col") {
			e.oblige("C05 row copied to row")
			d := linAdd(rb, ra, -1)
			if d != nil && d.isConst() && d.c != 0 {
				e.alarm("C05", "rows shifted", in, "the value of a row is stored at the position of another row (shifted by %d)", d.c)
			}
		}
		if drow, ok := rowOf(s, idx.L); ok {
			_, rc, ok3 := affineIV(drow)
			if ok1 && ok3 {
				d := linAdd(rc, ra, -1)
				if d != nil && d.isConst() && d.c != 0 {
					e.alarm("C05", "rows shifted", in, "the value of a row is stored in another row (shifted by %d)", d.c)
				}
			}
		}
	}
}

func (e *Engine) onBulk(s *State, arr ObjID, o *Obj, off, n *Lin, src Slice, in ssa.Instruction) {
	if e.sc == nil || !e.sc.viewed || in == nil || len(src.Arrs) != 1 || src.Ln == nil {
		return
	}
	so := s.heap[src.Arrs[0]]
	if so == nil || !strings.Contains(so.role, ".col") || !s.isSym(src.Ln) {
		return
	}
	e.oblige("C05 storage copied in bulk")
	s.marks[fmt.Sprintf("!bulk:%d", arr)] = e.w.pos(in)
	if o.ln == nil {
		return
	}
	at, ok := singleAtom(o.ln)
	if ok && e.isRows(at) && !s.eq(src.Ln, o.ln) && !s.provesGE0(linAdd(src.Ln, o.ln, -1)) {
		e.alarm("C05", "storage copied as rows", in, "%s is copied in the order of its storage into as many cells as there are rows", e.desc(src.Arrs[0]))
	}
}

func (e *Engine) onAppend(s *State, base, more Slice, in ssa.Instruction) {}

func (e *Engine) onSlice(s *State, sl Slice, lo, hi *Lin, in ssa.Instruction) {
	if e.sc == nil || !e.sc.viewed || len(sl.Arrs) != 1 {
		return
	}
	o := s.heap[sl.Arrs[0]]
	if o != nil && strings.HasSuffix(o.role, ".idx") && hi != nil && s.isSym(hi) && !s.eq(hi, sl.Ln) && hi.key()[1] == 'A' {
		e.alarm("C05", "storage length used on a row list", in, "a length of storage (%s) delimits a part of %s", hi, e.desc(sl.Arrs[0]))
	}
	if o == nil || !strings.Contains(o.role, ".col") || lo == nil || hi == nil {
		return
	}
	if s.isSym(hi) && !s.eq(hi, sl.Ln) {
		for _, n := range e.sc.rowSyms {
			if hi.key() == "+"+n {
				e.alarm("C05", "row numbers used to cut storage", in, "row numbers delimit a part of %s although the rows of the frame are not its storage order", e.desc(sl.Arrs[0]))
			}
		}
	}
}

// extUse: a slice is handed to a function outside of the module that is not
// known to leave it alone
func (e *Engine) extUse(s *State, sl Slice, i int, name string, in ssa.Instruction) {}

// ---- reading results

func (e *Engine) field(st Val, t types.Type, names ...string) (Val, bool) {
	for _, n := range names {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				sv, ok := st.(Struct)
				if !ok || i >= len(sv.F) {
					return nil, false
				}
				st, t, found = sv.F[i], s.Field(i).Type(), true
				break
			}
		}
		if !found {
			return nil, false
		}
	}
	return st, true
}

func sortedKeys(m map[string]int) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
