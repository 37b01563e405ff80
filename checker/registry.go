package main

func allScenarios() []*Scenario {
	var r []*Scenario
	r = append(r, dfScenarios()...)
	r = append(r, editScenarios()...)
	r = append(r, emptyScenarios()...)
	r = append(r, concatScenarios()...)
	r = append(r, transferScenarios()...)
	r = append(r, ioScenarios()...)
	r = append(r, csvScenarios()...)
	r = append(r, kindScenarios()...)
	r = append(r, mlScenarios()...)
	r = append(r, linScenarios()...)
	r = append(r, partScenarios()...)
	return r
}

// Rule: an analysis of the syntax or of the SSA form
type Rule struct {
	prop, name string
	run        func(w *World, r *ruleReport)
}

func allRules() []Rule {
	return []Rule{{"C12", "json", ruleJSON}, {"C19", "hash", ruleHash}}
}

// floors: the least number of obligations below which a check is vacuous (a
// small part of what was counted and confirmed by hand)
var floors = map[string]int{
	"C01": 500, "C02": 300, "C03": 150, "C04": 500, "C05": 500, "C06": 500, "C07": 500, "C08": 500,
	"C09": 50, "C10": 50, "C12": 25, "C21": 40,
	"C11": 100, "C13": 300, "C14": 400, "C16": 50, "C17": 20, "C19": 40, "C20": 100, "C23": 6, "C24": 800, "C25": 80, "C26": 150, "C27": 500, "C22": 100,
}

// explain: what the check of a property analyses
var explain = map[string]string{
	"C01": "Every public operation that derives a frame or edits its structure is interpreted abstractly on symbolic frames. Obligations: each write to the column tables and string marks of a frame that shares them, and at the end of each path, which tables the resulting frame uses and whether it says that they are shared.",
	"C02": "Obligations: at the end of each path of the deriving and detaching operations, the storage each tracked column refers to, and the record of shared columns; each write to the source's storage or to its record.",
	"C03": "Obligations: at the end of each path of the view-returning and overwriting operations, whether the tracked column of the result refers to the storage of the source.",
	"C04": "Obligations: every write on every path of the operations that are not in place, checked against the memory of the input frames and arguments (points-to).",
	"C05": "Obligations: every element addressed through a row list, every value copied from row to row, every bulk copy of storage, and the composition of the row list and of the content of the columns of each result, on frames whose rows are an arbitrary selection.",
	"C06": "Obligations: lengths of columns, mask and row list of every frame at the end of each path, compared symbolically; the row list of a frame that claims to be whole.",
	"C07": "Obligations: presence, kind and string mark of the tracked column (of each of the five kinds) in every resulting frame and path.",
	"C08": "Obligations: settings of every resulting frame on every path.",
	"C09": "Obligations: each goroutine started, job sent and received, result awaited and notified, in a fork/join model of the parallel sections.",
	"C10": "Obligations: each write by a worker, each access by its caller while workers run, in a fork/join happens-before model with ownership by job.",
	"C11": "In scenarios with failures, each operation that may fail (opening, reading, writing, flushing, converting) does fail once on some path. Obligations: each such step, and the outcome of the operation on each path after the failure.",
	"C12": "The struct types that make up the trained models and the fields that encoding/json carries (types, names, tags), against the fields that every function reachable from the methods of a model other than its training reads (SSA form). Obligations: the fields of the models, each read of one of them after training, each read of a package variable.",
	"C13": "Obligations: at the end of each path of each training, whether the tables of the model know the tracked column, and whether they still know the column of an earlier training.",
	"C14": "Obligations: at the end of each path, which components know the tracked column (of each kind, excluded or not, for each combination of options); for each combination of trained components, the result of the transformation.",
	"C16": "Obligations: each write on each path of a transformation, checked against the memory of the model, of the structure of the frame and of the columns it was not trained on; each read-modify-write of a cell through a row list that may repeat it; whether the trained column is reached at all.",
	"C17": "Obligations: outcomes of the change of encoding with and without an injected failure: the encoding of the frame and whether its strings have been written.",
	"C19": "Hashing strings is interpreted abstractly, the state of each hash (fresh, written, summed) being followed on every path; an interval analysis of the SSA form bounds the hashes stored. Obligations: each text given to a hash, each hash computed, each conversion to a signed number, each call on the way to a hash.",
	"C20": "Obligations: each option given by the caller, where it reaches a CSV reader or writer or a function analysed separately; presence and kind of the tracked column in what is read.",
	"C22": "Obligations: each file opened and each row given to a CSV writer, at the end of each path.",
	"C23": "CSV documents whose cells are all declared missing, or none, are read abstractly. Obligations: the content of the tracked column at the end of each path.",
	"C24": "Operations that select or divide rows are interpreted abstractly with symbolic and with concrete numbers of rows, bounds and batch sizes, on whole and on viewed frames; row iterators call by call. Obligations: the number of parts, the number of rows of each, the row of the source each row is, the order, what each call of the iterator gives.",
	"C27": "CSV documents of one column and two or three rows, whose cells are known by the class of their text only (0, 1, name of a boolean, other integer (small or large), 0x1F, other number (small or large), other text, missing), are read abstractly under each of the eight combinations of the conversion options. Obligations: the kind of the column, and for each cell whether it is missing, at the end of each path.",
	"C26": "Every operation of package dataframe is interpreted abstractly on frames without rows, without columns, and with empty lists of columns. Obligations: each of them must have a path that returns normally (an alarm if all of them end in a panic or never end, and none is given up).",
	"C25": "Training and prediction are interpreted abstractly on frames with a tracked column of each kind, which is or is not the target or the result column. Obligations: the features of the model, the columns of the result and their storage, each write to the input or to the model.",
	"C21": "Obligations: outcomes (error or not) of each concatenation on pairs of frames that match or that mismatch in one given way.",
}
