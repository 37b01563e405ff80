package main

// Reading CSV.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// whichKinds: is κ among the columns of each kind?
func (r *Res) whichKinds(f Val) (yes, maybe []string) {
	for _, m := range mapParts {
		switch r.hasK(f, m) {
		case Yes:
			yes = append(yes, m)
		case Maybe:
			maybe = append(maybe, m)
		}
	}
	return
}

// anyFrames: the data a result consists of, be it a frame or raw data
func (r *Res) anyFrames(v Val, t types.Type) []Val {
	if p, ok := t.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), r.d.df) {
		return r.frames(v)
	}
	return r.rawFrames(v)
}

func csvScenarios() []*Scenario {
	var out []*Scenario
	add := func(s *Scenario) { out = append(out, s) }
	type rop struct {
		id    string
		file  bool // the header is in the file
		with  func(b *B, o map[string]Val)
		gone  bool     // κ is excluded
		never []string // kinds κ cannot have
		why   string
		fault bool
		many  bool // several workers
	}
	ops := []rop{
		{id: "given header"},
		{id: "header in the file", file: true},
		{id: "excluded", gone: true, with: func(b *B, o map[string]Val) { o["Exclude"] = b.strs(Yes, "exclude") }},
		{id: "excluded, header in the file", file: true, gone: true, with: func(b *B, o map[string]Val) { o["Exclude"] = b.strs(Yes, "exclude") }},
		{id: "others excluded", with: func(b *B, o map[string]Val) { o["Exclude"] = b.strs(No, "exclude") }},
		{id: "integers as floats", with: func(b *B, o map[string]Val) { o["IntAsFloat"] = Bool{T: Yes} }, never: []string{"ints"},
			why: "a column is read as integers although integers are to be read as floats"},
		{id: "bools as floats", with: func(b *B, o map[string]Val) { o["BoolAsFloat"], o["BinaryAsFloat"] = Bool{T: Yes}, Bool{T: Yes} }, never: []string{"bools"},
			why: "a column is read as booleans although booleans are to be read as floats"},
		{id: "all bools as floats", with: func(b *B, o map[string]Val) { o["BoolAsFloat"] = Bool{T: Yes} }, never: []string{"bools"},
			why: "a column is read as booleans although booleans are to be read as floats"},
		{id: "missing values", with: func(b *B, o map[string]Val) { o["MissingValues"] = b.strs(No, "missing") }},
		{id: "many workers", many: true, with: func(b *B, o map[string]Val) {
			o["IntAsFloat"], o["BoolAsFloat"], o["BinaryAsFloat"] = Bool{T: Yes}, Bool{T: Yes}, Bool{T: Yes}
		}},
		{id: "fault", fault: true},
		{id: "fault, header in the file", file: true, fault: true},
	}
	for _, op := range ops {
		op := op
		sc := Scn{fileHdr: No}
		if op.file {
			sc.fileHdr = Yes
		}
		props := []string{"C07", "C08", "C20"}
		var mu []must
		if op.id == "missing values" {
			mu = []must{{"r:u.missing", "C20", "the list of missing values is not looked at"}}
		}
		if op.many {
			props = []string{"C09", "C10"}
			sc.stubs = map[string]bool{"dataframe.MergeRawDataColumns": true}
		}
		if op.fault {
			props = []string{"C11"}
			sc.faults = true
			sc.faultOf = func(n string) bool { return strings.Contains(n, "csv.Reader") }
		}
		add(&Scenario{
			name: "FromCSV/" + op.id, props: props, sc: sc, must: mu,
			setup: func(b *B) (*ssa.Function, []Val) {
				o := map[string]Val{"Encoding": Iface{Nil: No, T: "arg:enc", Tag: "ext"}, "LazyQuotes": Bool{T: Yes}, "TrimLeadingSpace": Bool{T: Yes},
					"Comma": Num{L: linA("arg:Comma")}, "Comment": Num{L: linA("arg:Comment")}, "MaxCPU": Num{L: linC(1)}}
				if op.many {
					o["MaxCPU"] = Num{L: linA("arg:cpu")}
				}
				for _, a := range []string{"arg:Comma", "arg:Comment", "arg:cpu"} {
					b.s.assume(linA(a), 1, inf)
				}
				b.s.assume(linA("ncpu"), 1, inf)
				b.s.assume(linAdd(linA("ncpu"), linA("arg:cpu"), -1), 0, inf)
				b.sc.opts = map[string]Val{}
				for _, k := range []string{"Comma", "Comment", "LazyQuotes", "TrimLeadingSpace"} {
					b.sc.opts[k] = o[k]
				}
				if !op.file {
					switch {
					case op.gone || op.many:
						o["Header"] = b.listOf(types.Typ[types.String], Str{K: Yes}, Str{K: No})
					default:
						o["Header"] = b.listOf(types.Typ[types.String], Str{K: Yes})
					}
				}
				if op.with != nil {
					op.with(b, o)
				}
				return b.w.fn("dataframe", "FromCSV"), []Val{Iface{Nil: No, Tag: "ext", T: "u.r"}, b.opt("dataframe", "CSVReadingSpec", o)}
			},
			check: func(r *Res) {
				r.checkEnd()
				if op.fault || op.many {
					return
				}
				if err, ok := r.ret[1].(Iface); !ok || err.Nil != Yes {
					return
				}
				for _, f := range r.anyFrames(r.ret[0], r.fn.Signature.Results().At(0).Type()) {
					r.checkRead(f, op.gone, op.never, op.why)
				}
			},
		})
	}
	// missing values
	for _, as := range []bool{false, true} {
		for _, two := range []bool{false, true} {
			as, two := as, two
			cells := []Tri{Yes}
			if two {
				// the other column is missing, this one is not
				cells = []Tri{No, Yes}
			}
			add(&Scenario{
				name: fmt.Sprintf("FromCSV/missing/%v/%v", as, two), props: []string{"C23"}, sc: Scn{cells: cells}, returns: "C23",
				setup: func(b *B) (*ssa.Function, []Val) {
					o := map[string]Val{"MaxCPU": Num{L: linC(1)}, "IntAsFloat": Bool{T: triOf(as)}, "BinaryAsFloat": Bool{T: Yes}, "BoolAsFloat": Bool{T: Yes},
						"MissingValues": b.listOf(types.Typ[types.String], Str{K: Yes}), "Header": b.listOf(types.Typ[types.String], Str{K: Yes})}
					if two {
						o["Header"] = b.listOf(types.Typ[types.String], Str{K: Yes}, Str{K: No})
					}
					return b.w.fn("dataframe", "FromCSV"), []Val{Iface{Nil: No, Tag: "ext", T: "u.r"}, b.opt("dataframe", "CSVReadingSpec", o)}
				},
				check: func(r *Res) {
					if err, ok := r.ret[1].(Iface); !ok || err.Nil != Yes {
						return
					}
					for _, f := range r.anyFrames(r.ret[0], r.fn.Signature.Results().At(0).Type()) {
						r.checkMissing(f, !two)
					}
				},
			})
		}
	}
	// files
	ropts := func(b *B) Val {
		o := map[string]Val{"Encoding": Iface{Nil: No, T: "arg:enc", Tag: "ext"}, "LazyQuotes": Bool{T: Yes}, "TrimLeadingSpace": Bool{T: Yes},
			"Comma": Num{L: linA("arg:Comma")}, "Comment": Num{L: linA("arg:Comment")}, "IntAsFloat": Bool{T: Yes}, "BoolAsFloat": Bool{T: Yes}, "BinaryAsFloat": Bool{T: Yes},
			"Header": b.strs(Yes, "header"), "Exclude": b.strs(Yes, "exclude"), "MissingValues": b.strs(No, "missing")}
		b.sc.opts = map[string]Val{}
		for k, v := range o {
			b.sc.opts[k] = v
		}
		return b.opt("dataframe", "CSVReadingSpec", o)
	}
	for _, name := range []string{"FromCSVFile", "FromCSVFilePattern"} {
		for _, flt := range []bool{false, true} {
			name, flt := name, flt
			sc := Scn{}
			props := []string{"C09", "C10", "C20", "C22"}
			nm := name
			if name == "FromCSVFile" {
				sc.stubs = map[string]bool{"dataframe.FromCSV": true}
			} else {
				sc.stubs = map[string]bool{"dataframe.FromCSVFile": true, "dataframe.FromCSV": true, "dataframe.MergeRawDataRows": true}
			}
			if flt {
				nm += "!"
				props = []string{"C09", "C11", "C22"}
				sc.faults = true
				sc.faultOf = func(n string) bool { return faultyIO(n) && !strings.Contains(n, "Merge") }
			}
			add(&Scenario{
				name: nm, props: props, sc: sc,
				setup: func(b *B) (*ssa.Function, []Val) {
					return b.w.fn("dataframe", name), []Val{Str{K: No, T: "arg:path"}, ropts(b)}
				},
				check: func(r *Res) {
					r.checkEnd()
				},
			})
		}
	}
	return out
}

// checkRead: a column of a CSV is in the result once, or not at all
func (r *Res) checkRead(f Val, gone bool, never []string, why string) {
	yes, maybe := r.whichKinds(f)
	if gone {
		r.e.oblige("C20 excluded column absent")
		if len(yes) > 0 {
			r.bad("C20", "excluded column read", "a column that the caller excludes is in the result, among its %s", yes[0])
		}
		return
	}
	r.e.oblige("C07 column read once")
	if len(yes) == 0 && len(maybe) == 0 {
		r.bad("C07", "column not read", "a column of the header is missing from the result")
	}
	if len(yes) > 1 {
		r.bad("C07", "column read twice", "a column of the header is at the same time among the %s and the %s of the result", yes[0], yes[1])
	}
	for _, n := range never {
		r.e.oblige("C20 kind of a column chosen by the options")
		for _, y := range yes {
			if y == n {
				r.bad("C20", "kind not converted "+n, "%s", why)
			}
		}
	}
	if len(yes) == 1 {
		r.e.oblige("C07 string mark")
		mark := r.hasK(f, "strhdr")
		if yes[0] == "objects" && mark == No {
			r.bad("C07", "string mark lost", "a column of text is read without being marked as holding strings")
		}
		if yes[0] != "objects" && mark == Yes {
			r.bad("C07", "string mark invented", "a column read among the %s is marked as holding strings", yes[0])
		}
	}
	if i, ok := r.part(f, "enc").(Iface); ok {
		r.e.oblige("C20 text encoding recorded")
		if i.Nil == Yes || i.T != "" && i.T != "arg:enc" {
			r.bad("C20", "text encoding lost", "the result does not have the text encoding given in the options")
		}
	}
	if n, ok := r.part(f, "maxCPU").(Num); ok && n.L != nil {
		r.e.oblige("C20 number of CPUs recorded")
		if exact(n.L) && !r.s.eq(n.L, linC(1)) {
			r.bad("C20", "number of CPUs lost", "the result does not use the number of CPUs given in the options")
		}
	}
	_ = fmt.Sprint
}

// checkMissing: the cells of a column whose cells are all missing, or all not
func (r *Res) checkMissing(f Val, missing bool) {
	for _, m := range mapParts {
		o, _, ok := r.mapOf(f, m)
		if !ok || o == nil || o.kP == No {
			continue
		}
		sl, ok := o.kV.(Slice)
		if !ok {
			continue
		}
		r.e.oblige("C23 column of missing values, or of none")
		switch c := r.e.contentFun(r.s, sl).(type) {
		case Num:
			switch {
			case c.L == nil || !c.L.isConst():
			case missing && c.L.c != -1:
				r.bad("C23", "missing integer", "a missing value is read as %d in a column of integers, not as -1", c.L.c)
			case !missing:
				r.bad("C23", "value lost", "the cells of a column are read as %d although they are not missing", c.L.c)
			}
		case Sc:
			switch {
			case c.T == "":
			case missing && c.T != "math.NaN()":
				r.bad("C23", "missing float", "a missing value is read as %s in a column of floats, not as NaN", c.T)
			case !missing && c.T == "math.NaN()":
				r.bad("C23", "value lost", "the cells of a column are read as NaN although they are not missing")
			}
		case Iface:
			switch {
			case missing && c.Nil == No:
				r.bad("C23", "missing string", "a missing value is read as a string, not as nil")
			case !missing && c.Nil == Yes:
				r.bad("C23", "value lost", "the cells of a column are read as nil although they are not missing")
			}
		}
	}
}
