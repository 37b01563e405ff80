package preprocessing

import (
	"encoding/json"
	"math"
	"testing"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

func frame() *dataframe.DataFrame {
	return dataframe.DataBuilder{RawData: dataframe.NewRawData()}.
		AddFloats("f", 1, 2, 3, 4).AddFloats("nan", math.NaN(), math.NaN(), math.NaN(), math.NaN()).
		AddFloats("cst", 1, 1, 1, 1).AddInts("i", 1, 2, 3, 4).
		AddStrings("s", "a", "b", "c", "d").ToDataFrame()
}

func TestF17Finite(t *testing.T) {
	for _, o := range []ScalerOptions{{MinMax: true}, {Centering: true}, {Scaling: true}, {Centering: true, Scaling: true}} {
		s := NewScaler(o)
		s.Fit(frame())
		if _, err := json.Marshal(s); err != nil {
			t.Error(o, err)
		}
	}
	df := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddFloats("f", 0, 10).ToDataFrame()
	s := NewScaler(ScalerOptions{MinMax: true})
	s.Fit(df)
	s.TransformInplace(df)
	if df.Floats("f").Get(1) != 1 {
		t.Error("min-max", df.Floats("f").Get(1))
	}
}

func TestF18Imputer(t *testing.T) {
	im := NewFloatImputer(FloatImputerOptions{})
	im.Fit(frame())
	if _, err := json.Marshal(im); err != nil {
		t.Error(err)
	}
}

func TestF19Auto(t *testing.T) {
	for _, o := range []AutoPreprocOptions{{}, {Imputing: true}, {Scaling: true}, {Imputing: true, Scaling: true},
		{Imputing: true, Exclude: []string{"f", "nan", "cst"}}} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Error(o, r)
				}
			}()
			p := NewAutoPreprocessor(o)
			p.FitTransform(frame())
			p.TransformedColumns()
			if _, err := p.TransformView(frame()); err != nil {
				t.Error(err)
			}
		}()
	}
	p := NewAutoPreprocessor(AutoPreprocOptions{Scaling: true, Exclude: []string{"f", "nan", "cst", "s"}})
	r := p.FitTransform(frame())
	if r.StringHeader().Num() != 1 {
		t.Error("excluded string column was transformed")
	}
	if r.Floats("f").Get(0) != 1 {
		t.Error("excluded float column was transformed")
	}
	p = NewAutoPreprocessor(AutoPreprocOptions{})
	p.Fit(frame())
	p.Fit(frame().ColumnView("f", "i"))
	if p.StringToInt != nil {
		t.Error("stale component")
	}
}

func TestF20Scaler(t *testing.T) {
	df := frame().IndexView([]int{3, 3})
	s := &Scaler{Scale: map[string]float64{"f": 2}}
	s.TransformInplace(df)
	if df.Floats("f").Get(0) != 8 {
		t.Error(df.Floats("f").Get(0))
	}
}
