package dataframe

// Demonstrations of the genuine defects listed in ../known_findings.txt.
// Run through an overlay (see run.sh); none of the checks uses this file.

import (
	"bytes"
	"errors"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"golang.org/x/text/encoding/charmap"
)

func mk() *DataFrame {
	return DataBuilder{RawData: NewRawData()}.
		AddFloats("f", 1, 2, 3, 4).AddInts("i", 1, 2, 3, 4).
		AddBools("b", true, false, true, true).AddStrings("s", "a", "b", "c", "d").ToDataFrame()
}

func within(t *testing.T, d time.Duration, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Fatalf("panic: %v", r)
		}
	case <-time.After(d):
		t.Fatal("deadlock")
	}
}

func TestF01SortIfNeeded(t *testing.T) {
	var buf bytes.Buffer
	mk().IndexView([]int{3, 1}).ColumnView("i").To1CSV(&buf, CSVWritingSpec{})
	if buf.String() != "i\n2\n4\n" {
		t.Fatalf("%q", buf.String())
	}
}

func TestF02DropOnView(t *testing.T) {
	df := mk()
	df.View().Drop("f", "s")
	if df.NumColumns() != 4 || df.StringHeader().Num() != 1 {
		t.Fatal("parent changed", df.Header().NameList())
	}
}

func TestF02RenameOnView(t *testing.T) {
	df := mk()
	df.View().Rename("s", "z")
	if !reflect.DeepEqual(df.StringHeader().NameList(), []string{"s"}) {
		t.Fatal(df.StringHeader().NameList())
	}
	v := mk().View()
	v.AllocStrings("t")
	w := mk()
	w.View().AllocStrings("t")
	if w.StringHeader().Num() != 1 {
		t.Fatal("string marks of the parent changed")
	}
}

func TestF03HashAll(t *testing.T) {
	df := mk().ColumnView("s")
	r := df.HashStringsView("s")
	if df.IntHeader().Num() != 0 || df.StringHeader().Num() != 1 {
		t.Fatal("source frame got the hashed column")
	}
	if r.NumColumns() != 1 || r.IntHeader().Num() != 1 {
		t.Fatal("result has", r.NumColumns())
	}
}

func TestF04Pattern(t *testing.T) {
	dir := t.TempDir()
	for _, n := range []string{"a", "b"} {
		os.WriteFile(filepath.Join(dir, n+".csv"), []byte("x,s\n1.5,u\n2.5,v\n"), 0644)
	}
	within(t, 5*time.Second, func() {
		d, err := FromCSVFilePattern(filepath.Join(dir, "*.csv"), CSVReadingSpec{MaxCPU: 64})
		if err != nil || d.NumAllocatedRows() != 4 {
			t.Error(err)
		}
		if d.StringHeader().Num() != 1 { // F07
			t.Error("string marks lost")
		}
	})
}

func TestF05MaxCPU(t *testing.T) {
	df := EmptyDataFrame(3, 0)
	df.strings3()
	within(t, 5*time.Second, func() { df.HashStringsView("s") })
}

func (df *DataFrame) strings3() {
	df.objects["s"] = []interface{}{"a", nil, "b"}
	df.stringHeader.add("s")
}

func TestF06EmptyName(t *testing.T) {
	within(t, 5*time.Second, func() {
		d, err := FromCSV(strings.NewReader(",a\n1.5,2.5\n"), CSVReadingSpec{})
		if err != nil || d.NumColumns() != 2 {
			t.Error(err, d.NumColumns())
		}
	})
}

func TestF07MergeRows(t *testing.T) {
	a := DataBuilder{RawData: NewRawData()}.AddStrings("s", "x").TextEncoding(charmap.ISO8859_1).RawData
	b := DataBuilder{RawData: NewRawData()}.AddStrings("s", "y").TextEncoding(charmap.ISO8859_1).RawData
	m := MergeRawDataRows([]*RawData{a, b})
	if m.StringHeader().Num() != 1 || m.textEncoding != charmap.ISO8859_1 {
		t.Fatal("marks/encoding lost")
	}
}

func TestF09BoolToFloats(t *testing.T) {
	df := mk()
	df.BoolToFloats("b")
	if df.BoolHeader().Num() != 0 || df.NumColumns() != 4 {
		t.Fatal("old bool column is still there")
	}
}

func TestF10RenameSelf(t *testing.T) {
	for _, c := range []string{"f", "i", "b", "s"} {
		df := mk()
		df.Rename(c, c)
		if df.NumColumns() != 4 || df.StringHeader().Num() != 1 {
			t.Fatal("column lost", c)
		}
	}
}

func TestF11Encoding(t *testing.T) {
	df := DataBuilder{RawData: NewRawData()}.AddStrings("s", "x").TextEncoding(charmap.ISO8859_1).ToDataFrame()
	if df.Copy().textEncoding == nil {
		t.Error("Copy")
	}
	if df.ShallowCopy().textEncoding == nil {
		t.Error("ShallowCopy")
	}
	if r, _ := RowConcat(df, df); r.textEncoding == nil {
		t.Error("RowConcat")
	}
	if r, _ := ColumnCopyConcat(df); r.textEncoding == nil {
		t.Error("ColumnCopyConcat")
	}
}

func TestF12Concat(t *testing.T) {
	a := DataBuilder{RawData: NewRawData()}.AddFloats("a", 1, 2, 3).ToDataFrame()
	b := DataBuilder{RawData: NewRawData()}.AddFloats("b", 1, 2).ToDataFrame()
	if _, err := ColumnConcatView(a, b); err == nil {
		t.Error("row counts differ, no error")
	}
	x := make([]float64, 10)
	c := DataBuilder{RawData: NewRawData()}.AddFloats("c", x...).ToDataFrame().IndexView([]int{0, 7})
	d := DataBuilder{RawData: NewRawData()}.AddFloats("d", x...).ToDataFrame().IndexView([]int{1, 0})
	if _, err := ColumnConcatView(c, d); err == nil {
		t.Error("indices differ, no error")
	}
	s := DataBuilder{RawData: NewRawData()}.AddStrings("s", "x", "y", "z").ToDataFrame()
	r, err := ColumnConcatView(a, s)
	if err != nil || r.StringHeader().Num() != 1 {
		t.Error("string mark lost")
	}
	e := DataBuilder{RawData: NewRawData()}.AddFloats("e", 1, 2, 3, 4, 5).ToDataFrame().IndexView([]int{0, 1, 2})
	r, err = ColumnConcatView(a, e)
	if err == nil && r.Floats("e").VecDense().Len() != 3 {
		t.Error("contiguous access on a row view")
	}
}

func TestF13RowConcatExtra(t *testing.T) {
	a := DataBuilder{RawData: NewRawData()}.AddFloats("a", 1).ToDataFrame()
	b := DataBuilder{RawData: NewRawData()}.AddFloats("a", 1).AddStrings("s", "x").ToDataFrame()
	if _, err := RowConcat(a, b); err == nil {
		t.Error("different columns, no error")
	}
}

func TestF14SplitN(t *testing.T) {
	e := mk().SliceView(0, 0)
	if len(e.SplitNView(3)) != 3 {
		t.Error("not exactly n")
	}
	for _, p := range mk().SplitNView(6) {
		if p.NumColumns() != 4 {
			t.Error("part without columns")
		}
	}
	for _, p := range mk().SplitNView(7) {
		p.Ints("i")
	}
}

func TestF15Batching(t *testing.T) {
	df := mk()
	bat := NewDense64Batching([]string{"f", "i"})
	bat.DenseMatrix(df.SliceView(0, 2))
	within(t, time.Second, func() { bat.DenseMatrix(df) })
}

type failing struct{}

func (failing) Write(p []byte) (int, error) { return 0, errors.New("disk full") }

func TestF16Flush(t *testing.T) {
	if err := mk().SliceView(0, 0).To1CSV(failing{}, CSVWritingSpec{}); err == nil {
		t.Error("write error lost")
	}
}

func TestF23Printf(t *testing.T) {
	df := DataBuilder{RawData: NewRawData()}.AddFloats("100%d", 1).ToDataFrame()
	old := os.Stdout
	r, w, _ := os.Pipe()
	os.Stdout = w
	df.PrintRecords(1, "", nil)
	w.Close()
	os.Stdout = old
	var b bytes.Buffer
	b.ReadFrom(r)
	if !strings.Contains(b.String(), "100%d:") {
		t.Error(b.String())
	}
}

func TestF24ColumnViewShared(t *testing.T) {
	p := mk().View()
	p.AllocFloats("own") // p now has its own structure; everything but "own" is shared
	v := p.ColumnView("own")
	v.Unshare("own")
	q := p.View()
	_ = q
	p.ColumnView("own")
	// "own" must not become shared for p, and p's set of shared columns must survive
	before := p.shared.Copy()
	w := p.ColumnView("f")
	w.Drop("f")
	if !reflect.DeepEqual(before, p.shared) {
		t.Error("parent's share marks changed", before, p.shared)
	}
}


func TestF28Header(t *testing.T) {
	// a header longer than the records used to crash the process from a worker
	if os.Getenv("F28") == "" {
		t.Skip()
	}
	_, err := FromCSV(strings.NewReader("1,2\n"), CSVReadingSpec{Header: []string{"a", "b", "c"}})
	if err == nil {
		t.Error("no error")
	}
}

func TestF32NoFrames(t *testing.T) {
	within(t, time.Second, func() {
		if _, err := ColumnConcatView(); err == nil {
			t.Error("no error")
		}
		if _, err := ColumnCopyConcat(); err == nil {
			t.Error("no error")
		}
	})
}

func TestF33ToDataFrameShared(t *testing.T) {
	df := mk()
	raw := NewRawData()
	raw.TransferRawDataFrom(&df.RawData)
	d2 := raw.ToDataFrame()
	d2.Unshare("f")
	d2.OverwriteFloats64("f", []float64{9, 9, 9, 9})
	if df.Floats("f").Get(0) == 9 {
		t.Error("unshare did not copy")
	}
}

func TestF20EncodeRepeated(t *testing.T) {
	df := DataBuilder{RawData: NewRawData()}.AddStrings("s", "é", "b").ToDataFrame()
	v := df.IndexView([]int{0, 0})
	if err := v.Encode(charmap.ISO8859_1); err != nil {
		t.Error(err)
	}
	if v.Objects("s").Get(0).(string) != "\xe9" {
		t.Errorf("%q", v.Objects("s").Get(0))
	}
	d := DataBuilder{RawData: NewRawData()}.AddStrings("s", "é", "\U0001F600").AddStrings("t", "é", "é").ToDataFrame()
	if err := d.Encode(charmap.ISO8859_1); err == nil {
		t.Error("unencodable rune accepted")
	}
	if d.Objects("s").Get(0).(string) != "é" || d.Objects("t").Get(0).(string) != "é" {
		t.Error("not reverted")
	}
}


func TestF35TopViewAll(t *testing.T) {
	df := mk()
	v := df.TopView("f", 1000, true, false)
	v.Drop("f")
	if !df.FloatHeader().contains("f") {
		t.Error("dropping a column of the view drops it from the source")
	}
}

// known and not repaired (C26): run with -run TestK36
func TestK36OverwriteNoColumn(t *testing.T) {
	EmptyDataFrame(2, 1).OverwriteInts("a", []int{1, 2})
}

func TestF37BoolAsFloat(t *testing.T) {
	read := func(o CSVReadingSpec) *RawData {
		raw, err := FromCSV(strings.NewReader("b,w\n0,true\n1,false\n"), o)
		if err != nil {
			t.Fatal(err)
		}
		return raw
	}
	d := read(CSVReadingSpec{BoolAsFloat: true})
	if len(d.floats["b"]) != 2 || len(d.floats["w"]) != 2 {
		t.Error("BoolAsFloat has no effect")
	}
	d = read(CSVReadingSpec{BinaryAsFloat: true})
	if len(d.floats["b"]) != 2 || len(d.bools["w"]) != 2 {
		t.Error("BinaryAsFloat does not make floats of binary columns, or makes strings of the other booleans")
	}
}
