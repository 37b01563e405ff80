package algorithms

import (
	"testing"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

func TestF21Predict(t *testing.T) {
	df := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.
		AddFloats("x", 1, 2, 3).AddFloats("y", 1, 2, 3).ToDataFrame()
	m := NewLinearRegressor()
	m.Fit(df, "y", LinRegTrainParams{Epochs: 1, LR: 0.01, BatchSize: 2})
	in := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.
		AddFloats("x", 1, 2, 3).AddFloats("_target", 7, 7, 7).ToDataFrame()
	m.Predict(in, "p")
	if in.Floats("_target").Get(0) != 7 {
		t.Error("input overwritten")
	}
}

func TestF22Defaults(t *testing.T) {
	df := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.
		AddFloats("x", 1, 2, 3).AddFloats("y", 1, 2, 3).ToDataFrame()
	if err := NewLinearRegressor().Fit(df, "y", LinRegTrainParams{}); err != nil {
		t.Error(err)
	}
}
