package main

// The text of CSV cells, abstracted to what it can be parsed as.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// classes of text: a cell of class "int" is any integer that does not fit in 32
// bits, "small" any other integer but 0 and 1, "hex" an integer with a prefix
// (which Go, but not CSV, knows as an integer); "wide" a number that does not fit
// in 32 bits; "bool" any name of a boolean that is not a number; "float" any number
// that is not an integer; "text" and the missing value anything else.
const clsPrefix = "cls:"

func classOfLit(s string) string {
	if s == "0" || s == "1" {
		return "binary"
	}
	if _, err := strconv.ParseBool(s); err == nil {
		return "bool"
	}
	if _, err := strconv.ParseInt(s, 10, 64); err == nil {
		if _, err := strconv.ParseInt(s, 10, 32); err == nil {
			return "small"
		}
		return "int"
	}
	if _, err := strconv.ParseInt(s, 0, 64); err == nil {
		return "hex"
	}
	if _, err := strconv.ParseFloat(s, 64); err == nil {
		if _, err := strconv.ParseFloat(s, 32); err != nil {
			return "wide"
		}
		return "float"
	}
	return "text"
}

func strClass(v Str) string {
	if v.Is {
		return classOfLit(v.Lit)
	}
	if i := strings.Index(v.T, clsPrefix); i == 0 {
		return strings.SplitN(v.T[len(clsPrefix):], "#", 2)[0]
	}
	return ""
}

func cellText(class string, row int) Str {
	switch class {
	case "0", "1":
		return Str{K: No, Is: true, Lit: class}
	case "missing":
		return Str{K: Yes, T: clsPrefix + "text#missing"}
	}
	return Str{K: No, T: fmt.Sprintf("%s%s#%d", clsPrefix, class, row)}
}

// parseClass: what parsing a text of a known class gives
func parseClass(fn string, args []Val) (ok Tri) {
	c := strClass(args[0].(Str))
	if c == "" {
		return Maybe
	}
	arg := func(i int, def int64) (int64, bool) {
		if i >= len(args) {
			return def, true
		}
		n, ok := args[i].(Num)
		if !ok || n.L == nil || !n.L.isConst() {
			return 0, false
		}
		return n.L.c, true
	}
	switch fn {
	case "ParseBool":
		return triOf(c == "binary" || c == "bool")
	case "ParseInt", "Atoi":
		base, ok1 := arg(1, 10)
		bits, ok2 := arg(2, 64)
		if !ok1 || !ok2 || base != 10 && base != 0 || bits != 0 && bits != 64 && bits != 32 {
			return Maybe
		}
		switch c {
		case "binary":
			return Yes
		case "int":
			return triOf(bits != 32) // if it is small enough is not known
		case "small":
			return Yes
		case "hex":
			return triOf(base == 0)
		}
		return No
	case "ParseFloat":
		bits, ok := arg(1, 64)
		if !ok {
			return Maybe
		}
		switch c {
		case "wide":
			return triOf(bits == 64)
		}
		return triOf(c == "binary" || c == "int" || c == "small" || c == "float")
	}
	return Maybe
}

// parseModel: text may or may not be a number; that it is not is an answer,
// not a failure of the outside
func parseModel(e *Engine, s *State, args []Val, sig *types.Signature, in ssa.Instruction, ctx int) []outcome {
	v := e.unknown(sig.Results().At(0).Type())
	a, is := args[0].(Str)
	call, isCall := in.(ssa.CallInstruction)
	if !is || !isCall || call.Common().StaticCallee() == nil {
		return []outcome{{s, []Val{v, Iface{Nil: Maybe}}}}
	}
	name := call.Common().StaticCallee().Name()
	switch parseClass(name, args) {
	case Yes:
		if a.Is {
			switch name {
			case "ParseBool":
				if b, err := strconv.ParseBool(a.Lit); err == nil {
					v = Bool{T: triOf(b)}
				}
			case "ParseInt", "Atoi":
				if n, ok := constant.Int64Val(constant.MakeFromLiteral(a.Lit, 5 /* token.INT */, 0)); ok {
					v = Num{L: linC(n)}
				}
			}
		} else if n, ok := v.(Num); ok {
			n.L = nil
			v = n
		}
		return []outcome{{s, []Val{v, Iface{Nil: Yes}}}}
	case No:
		if name == "ParseBool" {
			v = Bool{T: No}
		}
		return []outcome{{s, []Val{v, Iface{Nil: No, Tag: "ext"}}}}
	}
	return []outcome{{s, []Val{v, Iface{Nil: Maybe}}}}
}

// docRecords: the records of a document of one column
func (e *Engine) docRecords(outs []outcome) {
	for _, o := range outs {
		sl, ok := o.ret[0].(Slice)
		if !ok || sl.Nil == Yes || len(sl.Arrs) != 1 {
			continue
		}
		a := o.st.heap[sl.Arrs[0]]
		if a == nil || a.kind != kArr {
			continue
		}
		if _, ok := a.elemT.Underlying().(*types.Slice); !ok {
			continue
		}
		var rows []Val
		for i, class := range e.sc.doc {
			id := e.alloc(o.st, fmt.Sprintf("record#%d", i), &Obj{kind: kArr, ln: linC(1), elemT: types.Typ[types.String], v: Struct{F: []Val{cellText(class, i)}}})
			rows = append(rows, Slice{Arrs: []ObjID{id}, Off: linC(0), Ln: linC(1), Nil: No})
		}
		n := linC(int64(len(rows)))
		c := a.clone()
		c.v, c.ln, c.fun, c.orig, c.zero, c.sum, c.sp = Struct{F: rows}, n, nil, false, false, nil, No
		o.st.set(sl.Arrs[0], c)
		sl.Ln, sl.Off = n, linC(0)
		o.ret[0] = sl
	}
}

// kindOf: the kind a column has according to the documentation
func kindOf(doc []string, intF, boolF, binF bool) string {
	all := func(cs ...string) bool {
		for _, c := range doc {
			in := false
			for _, x := range cs {
				in = in || c == x
			}
			if !in {
				return false
			}
		}
		return true
	}
	switch {
	case all("0", "1"):
		if boolF || binF {
			return "floats"
		}
		return "bools"
	case all("0", "1", "bool"):
		if boolF {
			return "floats"
		}
		return "bools"
	case all("0", "1", "int", "small", "missing"):
		if intF {
			return "floats"
		}
		return "ints"
	case all("0", "1", "int", "small", "float", "wide", "missing"):
		return "floats"
	}
	return "objects"
}

var kindNames = map[string]string{"bools": "booleans", "ints": "integers", "floats": "floats", "objects": "strings"}

func kindScenarios() []*Scenario {
	var out []*Scenario
	docs := [][]string{{"0", "1"}, {"1", "1"}, {"0", "bool"}, {"bool", "1"}, {"bool", "bool"}, {"int", "0"}, {"1", "int"}, {"int", "int"}, {"missing", "int"}, {"int", "missing"}, {"0", "missing"}, {"missing", "1"},
		{"float", "int"}, {"int", "float"}, {"1", "float"}, {"float", "float"}, {"missing", "float"}, {"float", "missing"}, {"text", "text"}, {"text", "1"}, {"int", "text"}, {"text", "missing"}, {"missing", "text"}, {"bool", "text"}, {"text", "bool"}, {"float", "text"}, {"bool", "int"}, {"int", "bool"},
		{"bool", "missing", "0"}, {"int", "int", "float"}, {"missing", "int", "int"}, {"int", "missing", "int"}, {"int", "int", "missing"}, {"missing", "missing", "int"}, {"float", "missing", "missing"}, {"missing", "text", "missing"}, {"small", "small"}, {"small", "0"}, {"missing", "small"}, {"wide", "small"}, {"wide", "float"}, {"hex", "small"}, {"hex", "hex"}, {"small", "float", "text"}, {"float", "missing", "int"}, {"0", "1", "bool"}, {"1", "0", "text"}}
	for _, doc := range docs {
		for o := 0; o < 8; o++ {
			doc, intF, boolF, binF := doc, o&1 != 0, o&2 != 0, o&4 != 0
			missing := false
			for _, c := range doc {
				missing = missing || c == "missing"
			}
			want := kindOf(doc, intF, boolF, binF)
			out = append(out, &Scenario{
				name: fmt.Sprintf("FromCSV/kind/%s/int=%v,bool=%v,binary=%v", strings.Join(doc, "."), intF, boolF, binF), props: []string{"C27"}, sc: Scn{doc: doc, iters: true}, returns: "C27",
				setup: func(b *B) (*ssa.Function, []Val) {
					o := map[string]Val{"MaxCPU": Num{L: linC(1)}, "IntAsFloat": Bool{T: triOf(intF)}, "BinaryAsFloat": Bool{T: triOf(binF)}, "BoolAsFloat": Bool{T: triOf(boolF)},
						"Header": b.listOf(types.Typ[types.String], Str{K: Yes})}
					if missing {
						o["MissingValues"] = b.listOf(types.Typ[types.String], Str{K: Yes, T: clsPrefix + "text#missing"})
					}
					b.e.oblige("C27 document read")
					return b.w.fn("dataframe", "FromCSV"), []Val{Iface{Nil: No, Tag: "ext", T: "u.r"}, b.opt("dataframe", "CSVReadingSpec", o)}
				},
				check: func(r *Res) {
					other := func() {
						r.B.some("C27", "kind of a column", "a column whose cells are %s is not read as %s%s", docText(doc), kindNames[want], optText(intF, boolF, binF))
					}
					if err, ok := r.ret[1].(Iface); !ok || err.Nil != Yes {
						if ok && err.Nil == No {
							other() // not read at all
						}
						return
					}
					for _, f := range r.anyFrames(r.ret[0], r.fn.Signature.Results().At(0).Type()) {
						yes, maybe := r.whichKinds(f)
						r.e.oblige("C27 kind of a column")
						if len(yes) == 1 && len(maybe) == 0 && yes[0] != want {
							other()
						}
						if len(yes) == 1 && yes[0] == want {
							r.checkDoc(f, want, doc)
						}
					}
				},
			})
		}
	}
	return out
}

func docText(doc []string) string {
	var r []string
	for _, c := range doc {
		switch c {
		case "bool":
			c = "true"
		case "int":
			c = "a large integer"
		case "small":
			c = "an integer"
		case "hex":
			c = "a text such as 0x1F"
		case "wide":
			c = "a large number"
		case "float":
			c = "a number"
		case "text":
			c = "a text"
		case "missing":
			c = "missing"
		}
		r = append(r, c)
	}
	return strings.Join(r, ", ")
}

func optText(intF, boolF, binF bool) string {
	var r []string
	if intF {
		r = append(r, "IntAsFloat")
	}
	if boolF {
		r = append(r, "BoolAsFloat")
	}
	if binF {
		r = append(r, "BinaryAsFloat")
	}
	if len(r) == 0 {
		return ""
	}
	return " (with " + strings.Join(r, ", ") + ")"
}

// checkDoc: the missing cells are missing, and no other
func (r *Res) checkDoc(f Val, kind string, doc []string) {
	o, _, ok := r.mapOf(f, kind)
	if !ok || o == nil || o.kP == No {
		return
	}
	sl, ok := o.kV.(Slice)
	if !ok {
		return
	}
	els, ok := r.s.elements(sl)
	if !ok || len(els) != len(doc) {
		return
	}
	for i, c := range doc {
		miss := c == "missing"
		r.e.oblige("C27 cell read")
		switch v := els[i].(type) {
		case Num:
			if v.L == nil || !v.L.isConst() {
				continue
			}
			switch {
			case miss && v.L.c != -1:
				r.bad("C27", "missing integer", "a missing cell is read as %d in a column of integers, not as -1", v.L.c)
			case !miss && c != "0" && c != "1":
				r.bad("C27", "value lost", "a cell that is %s is read as %d", docText(doc[i:i+1]), v.L.c)
			case c == "0" && v.L.c != 0 || c == "1" && v.L.c != 1:
				r.bad("C27", "value lost", "a cell that is %s is read as %d", c, v.L.c)
			}
		case Bool:
			if c == "0" && v.T == Yes || c == "1" && v.T == No {
				r.bad("C27", "value lost", "a cell that is %s is read as %v", c, v.T == Yes)
			}
		case Sc:
			switch {
			case v.T == "":
			case miss && v.T != "math.NaN()":
				r.bad("C27", "missing float", "a missing cell is read as %s in a column of floats, not as NaN", v.T)
			case c == "0" && strings.HasPrefix(v.T, "lit") && v.T != "lit0", c == "1" && strings.HasPrefix(v.T, "lit") && v.T != "lit1":
				r.bad("C27", "value lost", "a cell that is %s is read as %s", c, v.T[3:])
			case !miss && v.T == "math.NaN()":
				r.bad("C27", "value lost", "a cell that is not missing is read as NaN")
			}
		case Iface:
			switch {
			case miss && v.Nil == No:
				r.bad("C27", "missing string", "a missing cell is read as a string, not as nil")
			case !miss && v.Nil == Yes:
				r.bad("C27", "value lost", "a cell that is not missing is read as nil")
			}
		}
	}
}
