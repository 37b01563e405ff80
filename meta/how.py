how = {
"C01": "Oracle: a write to a table object that belongs to the other frame, a table left shared without the record, a table replaced on one side only.",
"C02": "Oracle: after Copy/Unshare/DetachedView the column is an object allocated on the path, or is recorded as shared; the record of the other frame is not written.",
"C03": "Oracle: the column object of the result is that of the source (same storage, offset 0, same length).",
"C04": "Oracle: the target of each store (points-to) is not memory of an input, unless the object was allocated on the path; workers included.",
"C05": "Oracle: the index expression of each access to a column must be a position when the frame is a selection; the row number a value comes from must be that of the row it is put in.",
"C06": "Oracle: symbolic equality or inequality of lengths (columns vs allocated rows, mask vs rows, row list vs columns) under the assumptions of the path.",
"C07": "Oracle: the tables and the string header of the result, for κ present or absent in the source, in the column list or not.",
"C08": "Oracle: the settings of the source are tagged values; the result must hold the same tags.",
"C09": "Bounds: workers are symbolic (one of them, and one that is any other); the number of jobs is zero, one, or any.",
"C10": "Oracle: happens-before by go, channel, wait group and lock; exclusive ownership of what a job names.",
"C11": "Oracle: the operation's outcome after an injected failure has a non-nil error.",
"C12": "Oracle: the exported, distinctly named fields, of types that encoding/json can encode, against the fields read by all that the methods of a model reach, training excepted; package variables written by training.",
"C13": "Oracle: the keys of the tables of the model after Fit, for κ in the data, not in the data, or known from an earlier Fit.",
"C14": "Oracle: for all the combinations of options and components, which of the (stubbed, separately analysed) components is given κ; nil components are never called; the result is not the input.",
"C16": "Oracle: written objects; cells written through a row list that may repeat a position must not depend on their previous value more than once.",
"C17": "Oracle: encoding recorded and strings written agree on each outcome, with the n-th conversion failing, any n.",
"C19": "Oracle: each hash goes fresh, then written with nothing but a cell, then summed; the interval of each number stored; no source of chance on the way; and a backward slice of the numbers stored for strings, which must reach neither a row or frame number, a counter, nor the size of a table or list; missing strings get -1 in scenarios of one cell.",
"C20": "Oracle: each option is a tagged value that must reach the reader, the writer or the conversion that implements it.",
"C21": "Bounds: pairs of frames, in both orders; one mismatch at a time.",
"C22": "Oracle: typestate open/closed of each file and pending/flushed of each writer, at the end of every path (panics excepted).",
"C23": "Bounds: documents of one or two columns whose tracked column is uniform (all missing or none).",
"C24": "Oracle: the row of the source that row π of each result is, a form over the sizes given symbolically (batch size, bounds, rows), compared with the documented one; the sum of the parts of a division; small frames row by row. Row iterators are followed call by call over 0, 1, 3, 127, 128, 129 and 140 rows (the buffer holds 128), cells included. The permutation applied by the sort of the library is an uninterpreted function of the row: what is checked is the values it sorts and the places that are taken.",
"C25": "Oracle: the feature list of the model, the columns of the result; weights are not checked (see C33).",
"C26": "Oracle: of the paths of the operation, at least one returns; a scenario all of whose paths panic or wait is an alarm. The forms of emptiness are enumerated per operation (rows none or two, columns none or one, whole or selected, lists empty or not).",
"C27": "The text of a cell is abstracted to its class (0, 1, name of a boolean, other integer (small or large), 0x1F, other number (small or large), other text, missing), which decides what strconv answers; documents of one column of two or three such cells, in 47 mixtures, under the 8 combinations of options. Oracle: the kind the documentation gives; an alarm needs every path to end with another kind. Bounds: two or three rows, one column (several columns: C23, C07).",
}
