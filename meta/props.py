#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from the tables below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique="", note="", na="", observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na, observe=observe))

AI = "abstract interpretation of the SSA form (points-to, definite aliasing and symbolic lengths)"
NOTE = ("Whole-program analysis of the current source: every public operation in scope is interpreted abstractly on symbolic frames "
        "(any length, any cell values, one tracked column of each kind, all sharing states). An alarm is a definite contradiction at a named construct; "
        "paths the analysis cannot resolve stay silent and are counted in the evidence, so silence is strong evidence and not a proof. "
        "Trusted: the Go compiler, the models of the standard library and gonum, golang.org/x/tools/go/ssa.")

D = "dataframe/"
prop("C01", "Structural edits through a view never alter the frame it was taken from",
  "Adding, removing, renaming or converting columns of a view (of any flavour: full view, row selection, slice, column selection, shallow copy, sample, split, sorted view) never changes which columns its source frame has, their kinds, or which of them hold strings, and the other way round. Frames that share their column tables record that they do, and the first structural edit gives the edited frame tables of its own.",
  ["inputs","histories"], "every structural operation, on every view flavour, on frames of any shape and every column kind, with the column listed or not",
  "tests edit one float or int column of one view flavour; the object/string tables, the second-level views and the no-op edits are never combined",
  [D+"view.go", D+"inplace.go", D+"raw_data.go", D+"dataframe_internals.go", D+"column_header.go"],
  [("copy-on-write of the column tables", D+"raw_data.go reallocateMaps"), ("sharedMaps flag set by views", D+"view.go")],
  AI, NOTE)
prop("C02", "Copies and detached columns are independent of the frame they came from",
  "After copying a frame, or detaching or unsharing columns of a view, writing the cells of one never changes the cells of the other, for every kind of column; columns that still refer to another frame's storage are recorded as shared so that they can be detached later. Detaching columns in one frame never makes another frame believe it owns them.",
  ["inputs","histories"], "every copy, detach, unshare and transfer operation, every column kind, every sharing state before the call, empty or partial column lists",
  "tests detach a float column; whether each of the five kinds is really reallocated, and whether the sharing record survives each derivation, is quantified over histories",
  [D+"view.go", D+"dataframe.go", D+"raw_data.go", D+"column_header.go", D+"concat.go"],
  [("record of shared columns", D+"raw_data.go"), ("Unshare / DetachedView", D+"inplace.go, view.go")],
  AI, NOTE)
prop("C03", "Views share the cells of their source",
  "A view refers to the same cells as the frame it was taken from: overwriting values in the columns of one is seen through the other, for every view flavour and every kind of column, until a column is explicitly detached or replaced. Renaming a column keeps its storage, and overwriting an existing column writes its cells instead of replacing it.",
  ["inputs","histories"], "every view flavour and every overwriting operation, every column kind and sharing state",
  "tests check one or two flavours with one kind",
  [D+"view.go", D+"column_access.go", D+"inplace.go"],
  [("views refer to the source's column slices", D+"view.go"), ("column accesses", D+"column_access.go")],
  AI, NOTE)
prop("C04", "Operations that are not in place leave their inputs untouched",
  "Views, copies, concatenations that are not documented as consuming, sampling, sorting, shuffling, batching, printing, CSV export, hashing into a view and non-in-place transformers or models never modify the frame they are given (cells, rows, columns or settings), nor the arguments of the caller.",
  ["inputs"], "every operation documented as not in place, on frames of any shape (whole or selected rows), every column kind",
  "tests compare results, seldom the input after the call, and never for every kind and every branch",
  [D+"view.go", D+"concat.go", D+"csv_writing.go", D+"print.go", D+"row_iterators.go", "preprocessing/scaler.go", "preprocessing/float_imputer.go", "algorithms/linear_regression.go"],
  [("reallocation before writing", D+"view.go")],
  AI, NOTE)
prop("C05", "Rows of a selected or reordered frame are addressed consistently",
  "When the rows of a frame are a selection or a reordering of its storage (row views, sorted, shuffled or sampled views, splits), every operation reads and writes the cells of the rows of that selection: a row number is never used as a storage position nor the other way round, and the value of row i ends up in row i of the result.",
  ["inputs"], "every operation that addresses cells, on frames whose row list is an arbitrary list of positions",
  "most tests run on whole frames, where row numbers and positions coincide",
  [D+"column_access.go", D+"row_iterators.go", D+"dense_gonum_batching.go", D+"float_batching.go", D+"inplace.go", D+"concat.go", D+"csv_writing.go", "preprocessing/scaler.go", "preprocessing/float_imputer.go", "preprocessing/one_hot.go"],
  [("row list of a frame", D+"dataframe.go")],
  AI, NOTE)
prop("C06", "Derived frames have consistent rows, columns and masks",
  "In every frame the library returns or edits, all the columns have the length the row list needs, the rows designate existing cells, the mask buffer is long enough for the number of rows, and a frame whose rows are not simply all its storage in order says so. This holds after any sequence of views, copies, concatenations and structural edits.",
  ["inputs","histories"], "every operation returning a frame or editing its structure, symbolic numbers of rows, every column kind",
  "tests look at a few results of a few rows; a stale length only shows in a later operation",
  [D+"view.go", D+"dataframe.go", D+"concat.go", D+"inplace.go", D+"raw_data.go"],
  [("row list, selection flag and mask buffer", D+"dataframe.go")],
  AI, NOTE)
prop("C07", "Every operation carries every kind of column, with name, kind and string mark",
  "Operations that derive, copy, merge or export frames cover float, int, bool, object and string columns alike: a column of the source is in the result under its name and with its kind, a column of strings is still known to hold strings and an object column is not taken for strings, and a column that is dropped, renamed or converted is gone under its old name or kind everywhere.",
  ["inputs"], "every operation, every column kind, columns listed, not listed or absent",
  "tests use the kinds their author thought of",
  [D+"view.go", D+"dataframe.go", D+"concat.go", D+"raw_data.go", D+"inplace.go", D+"csv_writing.go", D+"print.go"],
  [("one table per kind and the string header", D+"raw_data.go")],
  AI, NOTE)
prop("C08", "Settings follow the data into derived frames",
  "Every frame derived from another one (views, copies, concatenations of frames) keeps the maximum number of CPUs and the text encoding of its source, and views and copies keep its thread-safe masking setting; frames built from raw data keep the settings of the raw data.",
  ["inputs","histories"], "every deriving operation, arbitrary settings",
  "tests run with the default settings",
  [D+"view.go", D+"dataframe.go", D+"concat.go", D+"raw_data.go", D+"builder.go"],
  [("fields copied by each constructor", D+"view.go, dataframe.go, concat.go")],
  AI, NOTE)
prop("C09", "Worker pools always finish and process every job exactly once",
  "Every parallel operation (parallel columns, CSV reading and writing, model training) starts at least one worker whenever there is a job, hands each job to exactly one worker, and returns only once all its workers are done; it never blocks forever, whatever the number of CPUs, jobs, or failures along the way.",
  ["schedules","inputs","fault_sequences"], "all schedules of all the parallel sections; any maximum number of CPUs ≥ 1, any number of jobs including zero, failing jobs",
  "a run shows one schedule on one machine; hangs on error paths and lost jobs need a particular interleaving or CPU count",
  [D+"csv_parsing.go", D+"csv_writing.go", D+"inplace.go", D+"view.go", "utils/string_q.go", "preprocessing/float_imputer.go", "preprocessing/scaler.go", "algorithms/linear_regression.go"],
  [("string queue and wait groups", "utils/string_q.go"), ("job channels", D+"csv_parsing.go")],
  "abstract interpretation of the SSA form with a fork/join model of goroutines, channels and wait groups", NOTE)
prop("C10", "Parallel workers never race",
  "In every parallel operation no two workers, nor a worker and its caller, access the same memory at the same time with one of them writing, except under a lock or an atomic operation: workers write only to what belongs to their own job, and results are read only after the workers are done.",
  ["schedules"], "all schedules of all the parallel sections, any number of workers and jobs",
  "the race detector only sees the schedules that a test happens to run, with the number of columns the test has",
  [D+"csv_parsing.go", D+"csv_writing.go", D+"inplace.go", D+"view.go", "preprocessing/float_imputer.go", "preprocessing/scaler.go", "algorithms/linear_regression.go"],
  [("per-job ownership of columns and buffers", D+"inplace.go"), ("wait groups", "utils/string_q.go")],
  "static race detection: abstract interpretation with a fork/join happens-before model and per-job ownership", NOTE)
prop("C21", "Concatenation rejects mismatching frames and accepts matching ones",
  "Concatenating rows succeeds exactly when the frames have the same columns with the same kinds (strings and other objects being different kinds), and concatenating columns succeeds exactly when the frames have the same number of rows, the same row selection where views are required, and no column in common. Otherwise an error is returned, no data is silently dropped, and nothing panics; concatenating nothing is an error.",
  ["inputs"], "every concatenation function, lists of two frames, every way two frames can mismatch",
  "tests try one mismatch of one function; a missing check in one of the five kinds goes unnoticed",
  [D+"concat.go", D+"checks.go"],
  [("checks before concatenating", D+"concat.go, checks.go")],
  AI, NOTE)

I = D+"csv_parsing.go"; O = D+"csv_writing.go"
prop("C11", "Failures of reading, writing and encoding are always reported",
  "When opening, reading, writing or flushing a CSV fails, or converting a text to an encoding fails, the operation in progress returns an error: no failure is dropped, whichever step, file, column or worker it occurs in. This goes for reading and writing one or several CSV files and for changing the text encoding of a frame.",
  ["fault_sequences"], "every step of every CSV reading or writing operation and of the change of encoding, failing at any point",
  "tests hardly make a step fail; a dropped error only shows when that very step fails",
  [I, O, D+"inplace.go"],
  [("errors of workers handed to the caller", I+" FromCSV, FromCSVFilePattern"), ("errors of writers", O)],
  "abstract interpretation of the SSA form with one injected failure per path, followed to the end of the operation", NOTE)
prop("C13", "Training forgets earlier training and covers exactly the right columns",
  "After training, a transformer (scaler, imputer, one-hot encoder, hash encoder) knows every column of the kind it handles (float, float, int and string columns respectively) and no other column of the data. Training it again on other data leaves nothing of the earlier training, in the automatic preprocessor as well.",
  ["inputs","histories"], "every transformer, with any options, trained once or again, on frames of any shape with columns of any kind",
  "tests train once, on frames of one kind of column; what a second training leaves behind only shows later",
  ["preprocessing/scaler.go", "preprocessing/float_imputer.go", "preprocessing/one_hot.go", "preprocessing/hash_encoder.go", "preprocessing/auto_preprocessor.go"],
  [("Fit methods", "preprocessing/")],
  AI, NOTE)
prop("C14", "The automatic preprocessor does what its options enable, and nothing else",
  "The automatic preprocessor imputes and scales float columns when these steps are enabled, encodes string and int columns, uses no excluded column and does not transform what the options leave out. It applies a step only if it was trained for it, works when some or all of its steps are absent, never fails for lack of a step, and its result is a frame of its own, never the input itself.",
  ["inputs"], "every combination of options and of trained steps, columns of every kind, excluded or not, Fit then TransformView as well as FitTransform",
  "tests use one combination of options on one data set",
  ["preprocessing/auto_preprocessor.go"],
  [("optional components", "preprocessing/auto_preprocessor.go")],
  AI, NOTE)
prop("C16", "Transformers change exactly the columns they were trained on, and not themselves",
  "Transforming in place (scaling, its inverse, imputing) changes every column the model was trained on and no other cell, row or column of the frame, and transforms each cell once however many rows refer to it. Encoders replace exactly the columns they were trained on. Transforming never changes the trained model.",
  ["inputs"], "every transformer, columns of every kind that are in its training or not, frames whose rows are arbitrary selections, possibly with repetitions",
  "tests transform the training data itself, where all columns are known and no cell is shared by several rows",
  ["preprocessing/scaler.go", "preprocessing/float_imputer.go", "preprocessing/one_hot.go", "preprocessing/hash_encoder.go", D+"inplace.go"],
  [("transformed columns", "preprocessing/scaler.go")],
  AI, NOTE)
prop("C17", "Changing the text encoding converts all strings or changes nothing",
  "Changing the text encoding of a frame converts the cells of all its string columns and no other column, and records the new encoding. If a text cannot be converted, an error is returned and the frame keeps both its strings and its encoding as they were.",
  ["inputs","fault_sequences"], "every encoding before and after, every failing text, every column kind, selected rows",
  "tests convert texts that all encodings have; the failure of the n-th text is never tested",
  [D+"inplace.go"],
  [("conversion before replacement", D+"inplace.go Encode")],
  "abstract interpretation of the SSA form with one injected failure per path", NOTE)
prop("C20", "CSV options take effect wherever CSV is read or written",
  "The options given for reading or writing CSV (separator, comment, quoting, trimming, header, excluded columns, conversion of integers and booleans to floats, missing values and the text written for them, text encoding) take effect in every function that accepts them, whether it handles one stream, one file or many.",
  ["inputs"], "every function that reads or writes CSV, every option",
  "tests set one or two options of one function",
  [I, O],
  [("options handed to the reader and writer", I+", csv_writing.go")],
  AI, NOTE)
prop("C22", "Files are always closed and written rows always flushed",
  "Every file opened by an operation that reads or writes CSV is closed when the operation returns, in case of success as well as of failure, and rows given to a CSV writer have all been flushed when the operation returns successfully.",
  ["fault_sequences","inputs"], "every path of every operation that reads or writes CSV, any step failing",
  "leaks on error paths are invisible to tests of results",
  [I, O],
  [("deferred closing", I+", csv_writing.go")],
  "typestate by abstract interpretation of the SSA form, with one injected failure per path", NOTE)

prop("C23", "Missing numbers are read as missing, and only them",
  "When a CSV is read, the cells equal to one of the declared missing values become -1 in a column of integers and NaN in a column of floats, and do not prevent the column from being numeric. Cells that are not missing keep their values whatever the missing cells of the other columns.",
  ["inputs"], "every numeric column all of whose cells are declared missing, or none, next to other columns, any number of rows",
  "tests read one document with one missing cell per kind",
  [I],
  [("mask of missing cells", I+" toNativeTypes")],
  AI, NOTE)

L = "algorithms/linear_regression.go"
prop("C25", "Linear regression uses the right columns and leaves its data alone",
  "Training a linear regression uses as features all the float and bool columns of the frame but the target, and no other column. Predicting returns a frame with all the other columns of its input and with the predictions, scaled back, in a float column of the given name, whether or not the input has a column of that name; neither training nor predicting changes its input, and predicting does not change the model.",
  ["inputs"], "frames of any shape, whole or selected rows, with columns of any kind and name, including the name of the result",
  "tests predict into a new column, of a frame with float columns only",
  [L],
  [("features and target", L+" Fit"), ("result column", L+" Predict")],
  AI, NOTE)

prop("C24", "Splits, selections and iterators hold exactly the documented rows",
  "Every view that selects or divides rows holds exactly the documented rows in the documented order: SliceView the rows from the first bound to the second (reversed if the first is higher), MaskView the rows whose mask is true, IndexView the listed rows, ReverseView all the rows from the last to the first, ColumnView, View and Copy all the rows; TopView the n first rows in the order of the column, or the n last from the highest, and all the rows if there are fewer; SampleView n rows; SplitView frames of exactly batchSize rows, but the last; SplitNView exactly n frames; and the frames of a split (train and test too) hold all the rows, each once and in order. A row iterator gives every row once, in order, with its cells, its number and its position, for any number of rows, and then reports the end.",
  ["inputs"], "any number of rows, batch size, bounds; whole frames and selections; columns of all kinds",
  "tests split a frame or two of ten rows; none iterates over as many rows as the iterator buffers",
  [D+"view.go", D+"row_iterators.go", D+"inplace.go"],
  [("selection", D+"view.go IndexView, MaskView, SliceView"), ("division", D+"view.go SplitView, SplitNView, SplitTrainTestViews"), ("buffering of rows", D+"row_iterators.go NextRow")],
  AI, NOTE)

prop("C26", "Frames without rows or columns are accepted",
  "No operation of package dataframe panics or waits forever because of the emptiness of what it is given: a frame (or raw data) without rows, without columns, or without both, a selection of no row, an empty list of columns or of frames, a column that is in no frame when nothing is read from it. Left out are the training of models and the conversion to gonum matrices, which need data.",
  ["inputs","histories"], "every exported operation on frames and raw data without rows, without columns, or both, whole or selected, and with rows and no column",
  "tests give a few operations an empty frame; no test crosses every operation with every form of emptiness",
  [D+"*.go"],
  [("padding and allocation of columns", D+"raw_data.go AllocInts, AllocFloats, AllocBools, AllocObjects"), ("first and last row", D+"view.go"), ("division of the work", D+"view.go, inplace.go")],
  AI, NOTE)

prop("C27", "CSV columns get the kind documented for their cells",
  "Reading a CSV gives every column the kind documented for its cells: booleans if all its cells are 0, 1 or the names of booleans; otherwise integers if they all are integers or declared missing values; otherwise floats if they all are numbers or missing; otherwise strings. With IntAsFloat such integers are read as floats; with BinaryAsFloat columns of 0 and 1, and with BoolAsFloat all the columns of booleans, are read as floats 0 and 1. Missing cells, and no others, are read as -1, NaN or no string.",
  ["inputs"], "columns whose cells are of any of the classes of text the reader tells apart, mixed in any order, under the eight combinations of options",
  "tests read a few documents with the default options; the combinations of options and mixtures of cells are not sampled at all",
  ["dataframe/csv_parsing.go"],
  [("inference of kinds", "dataframe/csv_parsing.go toNativeTypes, isBinary, isBool, isInt, isFloat")],
  AI, NOTE)

prop("C12", "Trained models survive JSON",
  "Everything that a trained preprocessor or model (scaler, imputer, hash and one-hot encoders, auto-preprocessor, linear regression) needs to transform or predict is part of its JSON encoding: a model that is encoded and decoded behaves as the one that was trained, without being trained again.",
  ["inputs","histories"], "every trained model, every transformation or prediction made after decoding it",
  "tests encode one trained model of two kinds; that no later method reads a field the encoding omits is a fact about all the code",
  ["preprocessing/scaler.go", "preprocessing/float_imputer.go", "preprocessing/one_hot.go", "preprocessing/hash_encoder.go", "preprocessing/auto_preprocessor.go", L],
  [("fields of the models", "preprocessing/*.go, "+L+" (struct types)")],
  "type and effect analysis: fields read after training against fields that encoding/json carries",
  "The fields that encoding/json carries are computed from the types (names, tags, embedding, encoders of their own); the fields read after training from the SSA form and the call graph. Fields used as caches (assigned on the path before they are read) and locks are not reported. Trusted: encoding/json.")
prop("C19", "Hashing strings depends on the string alone",
  "Hashing a string column replaces every string by a number that depends on the string alone: equal strings get the same number in every row, column, frame, call and run. The number is not negative, -1 being kept for missing strings.",
  ["inputs","schedules","histories"], "any rows, strings and columns, any number of workers, any earlier hashing",
  "tests hash one or two columns once; a hash that goes on from another row, worker, column or run needs several of them to be seen",
  [D+"view.go", "preprocessing/hash_encoder.go"],
  [("hashing of cells", D+"view.go HashStringsView")],
  "typestate by abstract interpretation of the SSA form, and interval analysis of the numbers stored", NOTE)

NA = lambda id, title, st, text, why, files, mech, na: prop(id, title, st, ["inputs"], text, why, files, mech, na=na)
NA("C31", "Sorting orders the rows by the column",
  "Sorted views (by one or several columns, ascending or descending, top-k) list the rows in the order of the values of the columns, ties being broken by the next column, and contain each selected row once.",
  "every frame and every column kind", "tests sort a few values",
  [D+"view.go"], [("comparison closures", D+"view.go SortedView, TopView")],
  "the order depends on the run-time values compared and on the sort algorithm of the standard library; no static rule of useful precision distinguishes a right order from a wrong one (that the rows are sorted by the values of the right rows, and which places of the sorted order are taken, is part of C05 and C24)")
NA("C32", "A frame written to CSV and read again has the same values",
  "Writing a frame to CSV and reading it again, with matching options, gives the same values.",
  "every frame", "tests read and write a few documents",
  [D+"csv_parsing.go", D+"csv_writing.go"], [("parsing and formatting", D+"csv_parsing.go, "+D+"csv_writing.go")],
  "a round trip through text formatting and parsing, a functional equality over all the values of strings: outside what dataflow over the source can decide (the kinds given to the columns read are C27, the missing values C23)")
NA("C33", "Models predict what they were trained to predict",
  "Linear regression, imputation and scaling compute the documented statistics: averages and standard deviations of the training rows, and coefficients that minimise the documented loss.",
  "every training set", "tests train on small random data sets",
  ["preprocessing/scaler.go", "preprocessing/float_imputer.go", "algorithms/linear_regression.go", "algorithms/evaluation.go"], [("Fit methods", "preprocessing/, algorithms/")],
  "numerical functional correctness (a sum over run-time values, convergence of gradient descent) is not bounded by a static analysis of the source; the structural half (rows addressed, state reset, divisions guarded) is claimed in other properties")
NA("C34", "Printed tables align and elide as documented",
  "Printing a frame shows the documented first rows and shortens column names to unique prefixes, aligned in columns.",
  "every frame", "tests print one frame",
  [D+"print.go"], [("column shorthands", D+"print.go")],
  "the layout and the uniqueness of the shortened names are functions of the run-time strings")
