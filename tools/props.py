#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because it is easier to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
DF = "dataframe/"
SHAPES = "every frame contents (all column types, any number of rows, every cell value), whatever chain of views the frame already is, and every argument"
IDX = [("indices/indexViewed", "which backing rows, in which order, the frame shows", DF+"dataframe.go")]
MAPS = [("sharedMaps/shared", "whether column maps / column data are shared with another frame", DF+"raw_data.go")]

p("V01", "Row-selecting views show exactly the requested rows, in order",
  "IndexView, SliceView (including negative and reversed bounds), MaskView and ReverseView return a frame whose row j holds, for every column of every type, exactly the cells of the row that the documented numpy-like selection picks, in that order (SliceView(from, to) with from > to: the rows [to, from) in reverse order), with the parent's columns, types and string marks, whatever view the parent itself is. The parent still shows the same rows afterwards.",
  ["inputs", "histories"], SHAPES, "The tests use a handful of fixed index lists on a fresh 10-row frame, mostly one column; wrong composition of offsets and indices shows only for particular combinations of view chain, bounds and size.",
  [DF+"view.go", DF+"inplace.go"], [("IndexView, SliceView, MaskView, ReverseView", DF+"view.go"), ("cut", DF+"inplace.go")], IDX)
p("V02", "Splitting partitions the rows",
  "SplitView(b), SplitNView(n) and SplitTrainTestViews(r) return frames whose concatenation, in order, is exactly the input frame (no row lost, repeated or reordered) and that all have the input's columns; SplitView makes full batches of b except possibly the last, SplitNView makes exactly n frames (nil for n = 0) even when there are fewer rows than n, and SplitTrainTestViews puts floor(r*rows) rows in the test set.",
  ["inputs", "histories"], SHAPES + " (row count, batch size, number of parts, ratio)", "Tests check three row/part combinations; partition errors live at the remainders (rows not divisible, rows < n, empty frames, large batches that take the re-slicing path).",
  [DF+"view.go", DF+"inplace.go"], [("SplitView, SplitNView, SplitTrainTestViews", DF+"view.go"), ("cut", DF+"inplace.go")], IDX)
p("V03", "SortedView and TopView order rows by the column, losing none",
  "SortedView returns a permutation of the frame's rows (whole rows move together) whose sort column is non-decreasing by its own type's order (every int compared exactly, floats without NaN, false before true), keeping bool rows in their original relative order. TopView(col, n, ascending, sorted) returns min(n, rows) rows such that no row left out ranks strictly better than a returned one, ordered best-first when sorted is requested.",
  ["inputs", "histories"], SHAPES + "; no NaN in a float sort column", "Tests sort small hand-picked columns; ties, repeated rows in views, extreme integers and n at the boundaries are not covered.",
  [DF+"view.go", "utils/utils.go"], [("SortedView, TopView", DF+"view.go"), ("FloatArgSort", "utils/utils.go")])
p("V04", "Shuffling, sampling and index reset neither lose nor duplicate rows",
  "For every outcome of the random generator, ShuffleView returns exactly the rows of the frame (as a multiset), SampleView(n, false) returns n of them without repetition beyond what the frame contains, and ResetIndexView returns exactly the same rows in the order of the underlying data; whole rows stay intact across columns.",
  ["inputs", "schedules", "histories"], SHAPES + ", and every sequence of values the random generator may return", "A test sees one random outcome per run.",
  [DF+"view.go"], [("ShuffleView, SampleView, ResetIndexView", DF+"view.go")])
p("V05", "Writing through a view changes exactly the cells the view selects",
  "Setting a cell through a column accessor of any view, or calling an Overwrite method for an existing column, changes exactly the addressed cells of the underlying data: the change is visible in every frame sharing that data at the corresponding rows, and every other cell of every column of the parent and of sibling views keeps its value. Overwriting a column that does not exist creates it in that view only, zero-filled outside the view's rows, and the values slice passed in is copied. Overwriting or allocating under the name of a column of another type replaces that column, in that view only.",
  ["inputs", "histories"], SHAPES, "Tests write one fixed value on one fixed view.",
  [DF+"column_access.go", DF+"inplace.go"], [("FloatAccess.Set and siblings", DF+"column_access.go"), ("OverwriteInts and siblings", DF+"inplace.go")], IDX)
p("V06", "Structural changes on a view never alter the parent or sibling views",
  "Renaming, dropping, allocating, overwriting-into-existence, converting (IntToFloats, BoolToFloats) or transferring columns on any view (View, row view, ColumnView, ShallowCopy, a frame made by ToDataFrame from the raw data of one, or a view of those) leaves the frame it was taken from, that frame's own parents and the other views taken from these with exactly the columns, types, string marks and cell values they had. Renaming to the name of an existing column replaces that column, and so does transferring one; renaming to the same name changes nothing.",
  ["inputs", "histories"], "every sequence of structural operations applied to one frame of a family of views, every frame contents", "Each test applies one operation to one view and looks at one column of the parent; sharing of maps depends on the history of views.",
  [DF+"raw_data.go", DF+"view.go", DF+"inplace.go"], [("reallocateMaps, Rename, Drop, Alloc*, TransferRawDataFrom", DF+"raw_data.go")], MAPS)
p("V07", "Detached columns can be changed without touching any other frame",
  "After DetachedView(cols...) or Unshare(cols...) on any view, or frame made from the raw data of one (all columns when none is named), any in-place write to those columns through the detached frame leaves every cell of the parent and of all sibling views unchanged, and the detached frame itself starts with the same rows, columns and cells; detaching or changing a sub-view never disables this protection for its parent.",
  ["inputs", "histories"], "every chain of views before detaching, every column subset, every later write", "Tests detach one column of one fresh view; whether a column is considered shared depends on the whole history of views and sub-views.",
  [DF+"raw_data.go", DF+"view.go"], [("DetachedView", DF+"view.go"), ("Unshare", DF+"raw_data.go")], MAPS)
p("V08", "Copy is a faithful, fully independent copy; ShallowCopy a faithful view",
  "Copy of any frame or view has exactly the same rows, columns, types, string marks, text encoding and CPU limit, and no later write or structural change to either frame is visible in the other. ShallowCopy shows the same content and shares the cells, but structural changes to either are invisible in the other.",
  ["inputs", "histories"], SHAPES + ", followed by any write or structural change", "Tests compare one column of one copy.",
  [DF+"dataframe.go"], [("Copy, ShallowCopy", DF+"dataframe.go")], MAPS)
p("V09", "Column headers and ColumnView report and select exactly the right columns",
  "The type headers partition the frame's columns by type, the string header is a subset of the object header, Header is their union and NumColumns its size, and editing a returned header never changes the frame. ColumnView(cols...) (at least one name) has exactly the listed columns that exist, with the same cells, types, rows and string marks; And, Except, ExceptHeader and Copy compute union, difference and an independent copy.",
  ["inputs", "histories"], "every set of column names and types, every subset, every frame contents", "Tests use one or two fixed name lists.",
  [DF+"column_header.go", DF+"view.go"], [("ColumnHeader methods", DF+"column_header.go"), ("ColumnView", DF+"view.go")])
p("V10", "Masks always cover every row of the frame they are asked for",
  "ZeroMask returns one false entry per row and EmptyMask one entry per row for every frame and view (including views larger than their parent), in both thread-safe and default mode; masking a frame with a filled mask selects exactly the true rows. In thread-safe mode, masks obtained from a frame and its views never share memory.",
  ["inputs", "histories"], SHAPES, "Tests ask for a mask on one fresh frame.",
  [DF+"dataframe.go", DF+"view.go"], [("ZeroMask, EmptyMask, ThreadSafeMasking", DF+"dataframe.go"), ("IndexView mask growth", DF+"view.go")])
p("V11", "Rows and columns that do not exist are refused, and nothing changes",
  "Asking a frame or view for rows it does not show (SliceView bounds, IndexView and MaskView entries, accessor rows), or for columns that do not exist or have an unsuitable type (accessors, SortedView, TopView, LabelToInt, CopyValuesToInterfaces, DenseMatrix, Rename), and arguments documented to panic (negative part, batch and row counts, ratios outside [0, 1], samples larger than the frame or with replacement) panics - a view never shows or writes a row its parent does not show - and leaves the frame and all frames sharing its data as they were.",
  ["inputs", "histories"], SHAPES + ", in particular arguments outside of the valid range", "No test asks for anything invalid; views keep the indices of rows they do not show in memory, so whether a bound is checked depends on how a view was made.",
  [DF+"view.go", DF+"column_access.go", DF+"raw_data.go"], [("SliceView, IndexView, MaskView, SplitView, SplitNView, SampleView, TopView", DF+"view.go"), ("Floats, Ints, Bools, Objects, Strings, Get, Set", DF+"column_access.go"), ("Rename", DF+"raw_data.go")], IDX)
p("C01", "RowConcat stacks all rows in order, or reports mismatching columns",
  "RowConcat of one or more frames with the same typed columns returns a frame holding all rows of all inputs in order, with every cell, string mark, (common) text encoding and CPU limit preserved, sharing nothing with the inputs. If some frame lacks a column of another, or has it with another type, an error is returned instead of a frame.",
  ["inputs", "histories"], "every list of frames and views, every column set, every cell", "Tests concatenate two small frames once.",
  [DF+"concat.go"], [("RowConcat", DF+"concat.go")])
p("C02", "Column concatenation aligns rows, or reports that it cannot",
  "ColumnConcatView, ColumnSmartConcat and ColumnCopyConcat return a frame whose row j holds, for each input frame, exactly the cells of that frame's row j, with types and string marks kept; they return an error when the row counts differ or a column name appears twice, and ColumnConcatView also whenever sharing data could not keep the rows aligned. The result behaves like any frame afterwards (Copy, VecDense, further views), ColumnCopyConcat shares no data with its inputs, and no input frame is altered.",
  ["inputs", "histories"], "every list of frames and views with any row permutation or selection, every cell", "Tests cover one congruent and one incongruent pair; alignment is decided from the row indices, whose values tests do not vary.",
  [DF+"concat.go", DF+"checks.go", "utils/utils.go"], [("ColumnConcatView, ColumnSmartConcat, ColumnCopyConcat", DF+"concat.go"), ("CheckNoColumnOverlap", DF+"checks.go")])
p("D01", "Column accessors and value copies agree with the frame's cells",
  "For every view, the Floats, Ints, Bools, Objects and Strings accessors have one entry per row and Get(i) is the cell of row i; VecDense, VecDenseCopy and CopyValuesToInterfaces deliver exactly these values in order, and writing to a VecDenseCopy or to copied values never changes the frame. DataFrameInternals exposes the indices and the column data through which these cells are stored.",
  ["inputs", "histories"], SHAPES, "Tests read fixed rows; the contiguous shortcut is taken only by some view histories.",
  [DF+"column_access.go", DF+"conversions.go"], [("VecDense, VecDenseCopy, Get/Set", DF+"column_access.go"), ("CopyValuesToInterfaces", DF+"conversions.go")], IDX)
p("D02", "Reused dense batching always reflects the frame it is given",
  "Dense64Batching.DenseMatrix returns a rows x columns matrix whose entry (i, k) is the float value of row i of the k-th requested column (ints converted, bools as 0/1), for every sequence of calls with frames of any sizes, growing or shrinking, and whichever of the types its columns have. Writing to the matrix never changes the frame.",
  ["inputs", "histories"], "every sequence of frames/views with the same columns, any sizes, every cell", "Tests build one matrix once; stale or short buffers appear only on particular sequences of sizes.",
  [DF+"dense_gonum_batching.go", DF+"float_batching.go"], [("DenseMatrix", DF+"dense_gonum_batching.go"), ("FloatBatching.initialize", DF+"float_batching.go")])
p("D03", "Row iterators deliver every row once, in order, then stop",
  "Float32Iterator.NextRow yields exactly the rows of the frame, in order, each as the float32 values of the requested columns in the requested order with its view index and its index in the underlying data, then nil with the frame's sizes; after Reset with another frame of the same columns it does so for that frame. Frames longer than the iterator's internal batch behave the same, and changing a delivered row changes nothing in the frame.",
  ["inputs", "histories"], "every frame/view, row count (across the internal batch size), column order, and point at which Reset happens", "Tests iterate once over three rows.",
  [DF+"row_iterators.go", DF+"float_batching.go"], [("NextRow, nextIndices, Reset", DF+"row_iterators.go")])
p("D04", "Conversions to ints and floats are exact and consistent",
  "LabelToInt maps equal strings to equal integers and different strings to different ones, numbering from 0 in order of first appearance, missing values to -1, and returns the mapping it used. IntToFloats and BoolToFloats turn the named columns into float columns holding the same numbers (true = 1, false = 0), leaving no column of the old type and all other columns unchanged.",
  ["inputs", "histories"], SHAPES, "Tests convert one short list.",
  [DF+"conversions.go", DF+"raw_data.go"], [("LabelToInt", DF+"conversions.go"), ("IntToFloats, BoolToFloats", DF+"raw_data.go")])
p("H01", "String hashing is a pure function of the string; missing becomes -1",
  "HashStringsView replaces the given string columns with int columns in which equal strings have equal non-negative values (the same in every frame, run and process), short different strings have different values, and missing values are -1, keeps every other column and the rows as they were, and leaves the input frame unchanged, whatever view it is and whether or not other columns exist.",
  ["inputs", "schedules", "histories"], SHAPES + ", every goroutine schedule", "Tests hash one small column next to others.",
  [DF+"view.go", "preprocessing/hash_encoder.go"], [("HashStringsView, workerHashes", DF+"view.go"), ("HashEncoder", "preprocessing/hash_encoder.go")])
p("E01", "Re-encoding strings is all-or-nothing and reversible",
  "Encode converts every string cell the frame shows exactly once, even when a view shows a row repeatedly, leaves missing values missing and other columns untouched, and encoding back restores the original strings. If any string cannot be represented in the new encoding, Encode returns an error and every string and the frame's recorded encoding are as before the call.",
  ["inputs", "histories", "fault_sequences"], "every string content including unrepresentable characters at any position, every view, several encodings", "Tests encode one convertible column.",
  [DF+"inplace.go"], [("Encode, inplaceEncoding", DF+"inplace.go")])
p("B01", "Building and merging raw data gives exactly the supplied columns",
  "DataBuilder's Add and Set methods produce, after ToDataFrame, exactly the supplied values per column in order with the declared types and string marks, and ToDataFrame panics if and only if column lengths differ. MergeRawDataColumns unites the columns of its inputs (of columns with the same name the last is kept), and MergeRawDataRows appends the rows of its inputs in order as a copy; both keep types, string marks and text encoding.",
  ["inputs", "histories"], "every sequence of builder calls and every cell value", "Tests build well-formed frames only.",
  [DF+"builder.go", DF+"raw_data.go"], [("DataBuilder", DF+"builder.go"), ("ToDataFrame, MergeRawDataColumns, MergeRawDataRows", DF+"raw_data.go")])
p("R01", "CSV columns get the documented type and every value is parsed exactly",
  "Reading a CSV gives each non-excluded column the first type of bool, int, float, string that all its values (missing markers aside, for int/float) parse as, honouring Header, MissingValues, IntAsFloat, BoolAsFloat and BinaryAsFloat as documented, handing Comma, Comment, LazyQuotes and TrimLeadingSpace on to Go's CSV reader and recording Encoding with the frame, with each cell equal to the parsed field, missing as -1, NaN or nil, and rows in file order. The result does not depend on the number of CPUs or the schedule.",
  ["inputs", "configurations", "schedules"], "every small table of field contents, every option combination, every CPU count", "Tests read one fixed CSV with default options.",
  [DF+"csv_parsing.go"], [("FromCSV, toNativeTypes and the is*/to* helpers", DF+"csv_parsing.go")])
p("R02", "Writing a frame to CSV and reading it back restores it",
  "To1CSV writes a header and one record per row, in row order when MaintainOrder is set and otherwise the same rows in some order, such that reading the output restores every int, bool, float and (missing-marker aside) string cell exactly, for every view and any row count.",
  ["inputs", "histories", "configurations"], "every frame/view with string, int, float, bool columns (strings that do not parse as another type), writing options, sizes across the write batch", "Tests write a few rows of a fresh frame once.",
  [DF+"csv_writing.go", DF+"csv_parsing.go"], [("To1CSV, sortIfNeeded", DF+"csv_writing.go"), ("FromCSV", DF+"csv_parsing.go")])
p("R03", "Writing to several outputs distributes every row exactly once",
  "ToCSVs, ToCSVFiles and ToCSVDir write each row of the frame to exactly one of the outputs (all rows together are a permutation of the frame's rows), every output carries the header, empty ones included, and ToCSVDir returns exactly the list of files it wrote, never more than the frame's CPU limit.",
  ["inputs", "configurations", "schedules"], "every row count, number of outputs (also more than rows), options, view history, goroutine schedule", "Tests write three rows to two files.",
  [DF+"csv_writing.go", DF+"view.go"], [("ToCSVs, ToCSVFiles, ToCSVDir", DF+"csv_writing.go"), ("SplitNView", DF+"view.go")])
p("R04", "Write failures are always reported",
  "If an output writer or file fails at any point (create, header, any batch, final flush), To1CSV, ToCSVs, ToCSVFiles and ToCSVDir return a non-nil error; with several outputs a failure of any one is reported and the call still returns. Without a failure they return nil.",
  ["fault_sequences", "inputs", "schedules"], "every failure point of every writer, any frame size and number of outputs", "No test injects a failing writer.",
  [DF+"csv_writing.go"], [("To1CSV, ToCSVs, ToCSVFiles", DF+"csv_writing.go")])
p("R05", "Reading many CSV files returns all of them and always finishes",
  "FromCSVFilePattern over any number of matching files, any CPU limit and any CPU count of the machine terminates and returns every row of every file exactly once, rows of a file in order (file order unspecified) with every reading option applied to every file, (nil, nil) when nothing matches, and an error when any file cannot be opened or parsed. FromCSV and FromCSVFile report a malformed CSV as an error and never hang.",
  ["inputs", "configurations", "schedules", "fault_sequences"], "1..N files, every MaxCPU and machine CPU count, every schedule, failing files", "Tests read two files on the machine at hand.",
  [DF+"csv_parsing.go", "utils/string_q.go"], [("FromCSVFilePattern, processFileQueue", DF+"csv_parsing.go"), ("StringQ", "utils/string_q.go")])
p("Q01", "The column job queue runs every job exactly once and never deadlocks",
  "For every list of names, worker limit of at least one and goroutine schedule, a queue hands each name to exactly one worker, Results returns one result per name (Wait waits for all), all workers finish, notifying never blocks, the number of workers is at least one and at most the limit and the number of jobs (one when there are none), and nothing panics or blocks forever.",
  ["schedules", "inputs"], "every schedule of up to a few workers and jobs, every name list and worker limit", "A test run samples one schedule.",
  ["utils/string_q.go"], [("CreateStringQueue, Next, Notify, Results, Wait", "utils/string_q.go")])
p("Q02", "Multi-threaded operations are race-free and schedule-independent",
  "HashStringsView, CSV reading and writing, and fitting and transforming with Scaler, FloatImputer and OneHotEncoder are free of data races and deadlocks and give the same result (one-hot: up to the numbering of categories) under every goroutine schedule and every CPU limit as with one CPU, and have completely finished when they return.",
  ["schedules", "configurations", "inputs"], "every interleaving of 2-3 workers over 2-3 columns, CPU limits 1..N", "The race detector and tests see one schedule per run.",
  [DF+"view.go", "preprocessing/scaler.go", "preprocessing/one_hot.go", "preprocessing/float_imputer.go", DF+"csv_parsing.go", DF+"csv_writing.go"],
  [("worker functions using the column queue", "utils/string_q.go")])
p("P01", "Scaler scales as documented, ignores missing values, and inverts itself",
  "After Fit, a Scaler maps each float column so that centering gives mean 0, scaling unit variance and MinMax the range [0, 1] on the training data (up to rounding; a constant column is not divided by zero), with missing values ignored in fitting and kept missing. TransformInplace changes each cell the frame shows exactly once, also in views repeating rows; InverseTransformInplace restores the original values; other cells and columns never change.",
  ["inputs", "histories", "configurations"], "every set of float values (missing included), options, and views as fit or transform input", "Tests scale two short columns with centering/scaling; MinMax is untested.",
  ["preprocessing/scaler.go"], [("workerFits, workerTransforms, InverseTransformInplace", "preprocessing/scaler.go")])
p("P02", "FloatImputer fills exactly the missing values with the fitted fallback",
  "After Fit, the fallback of each float column is the mean of its non-missing values (a finite number even if all are missing), 0 or 1 according to the policy, and TransformInplace replaces exactly the missing cells the frame shows with it, leaving every other cell and column unchanged; no missing value remains in a fitted column.",
  ["inputs", "histories", "configurations"], "every placement of missing values, policy, and view", "One test with the default policy.",
  ["preprocessing/float_imputer.go"], [("Fit, workerFits, TransformInplace", "preprocessing/float_imputer.go")])
p("P03", "One-hot encoding sets exactly one flag per row under every policy",
  "For every training column and MissingPolicy/UnknownPolicy, transforming any frame sets, for each row and encoded column, exactly one of that column's new bool columns: the seen category's own one, otherwise the one the policy for missing or unknown prescribes (a shared one, a separate one, or the most frequent category's), or returns an error when the policy is ReturnError. A shared policy means the other policy's category if it has one, else one of its own. Categories have distinct new columns, non-encoded columns are kept, and encoded ones are dropped unless KeepUsedColumns; encoding a frame that has kept columns and flags again gives the flags of its present values.",
  ["inputs", "configurations", "histories"], "every training and test column content (-1 included), all policy pairs, views", "Tests cover four policy combinations on one data set.",
  ["preprocessing/one_hot.go"], [("fix, workerFits, Fit, workerTransforms, TransformView", "preprocessing/one_hot.go")])
p("P04", "Transforms never modify their input and pass other columns through",
  "TransformView of HashEncoder, OneHotEncoder and AutoPreprocessor, and Fit of every preprocessor, leave the input frame (and every frame sharing its data) exactly as it was, and the result contains every non-transformed column with identical cells and row order, also when the frame has columns unknown to the preprocessor.",
  ["inputs", "histories"], SHAPES, "Tests look at the output only.",
  ["preprocessing/auto_preprocessor.go", "preprocessing/one_hot.go", "preprocessing/hash_encoder.go"], [("TransformView", "preprocessing/auto_preprocessor.go"), ("TransformView", "preprocessing/one_hot.go")])
p("P05", "Fitted preprocessors and models survive JSON serialization",
  "A fitted Scaler, FloatImputer, HashEncoder, OneHotEncoder, AutoPreprocessor or LinearRegressor serialized to JSON and read back transforms or predicts every frame exactly as the original does, whatever the training data, including columns with missing values only.",
  ["inputs", "configurations"], "every fitted state reachable from small training frames, every later frame", "Tests serialize one fitted object.",
  ["preprocessing/scaler.go", "preprocessing/one_hot.go", "preprocessing/float_imputer.go", "preprocessing/auto_preprocessor.go", "algorithms/linear_regression.go"],
  [("exported fields hold all state needed after Fit", "preprocessing/")])
p("P06", "AutoPreprocessor's one-step and two-step use agree and honour Exclude",
  "For every option combination and every frame, FitTransform(df) equals Fit(df) followed by TransformView(df), neither panics nor changes df, columns listed in Exclude (of any type) come out untouched, missing floats are imputed and floats scaled exactly when asked, and strings (or, without strings, ints) that are not excluded become one-hot flags.",
  ["inputs", "configurations", "histories"], "every option combination, column mix, cell values and views", "Tests use one option set on one frame.",
  ["preprocessing/auto_preprocessor.go"], [("fit, TransformView, TransformedColumns", "preprocessing/auto_preprocessor.go")])
p("P07", "TransformedColumns lists exactly the columns a preprocessor uses",
  "After Fit (or FitTransform), TransformedColumns of Scaler, FloatImputer, HashEncoder, OneHotEncoder and AutoPreprocessor lists, each once, the columns of the training frame the transformation uses and no excluded one: a frame of just these columns is transformed like the full frame is, columns that are not listed come out untouched, and the list is the same after JSON serialization.",
  ["inputs", "histories"], "every option combination, training frame (any mix of column types, missing values, constant columns) and transformed frame", "No test looks at the list of more than one preprocessor.",
  ["preprocessing/interfaces.go", "preprocessing/scaler.go", "preprocessing/float_imputer.go", "preprocessing/hash_encoder.go", "preprocessing/one_hot.go", "preprocessing/auto_preprocessor.go"], [("TransformedColumns", "preprocessing/auto_preprocessor.go"), ("PreprocTraining", "preprocessing/interfaces.go")])
p("L01", "Predict computes the linear combination per row and touches nothing else",
  "Predict(df, col) returns a frame with exactly df's rows, possibly reordered, and columns plus the float column col, in which every row holds the un-scaled linear combination of its feature values and the model weights (rows repeated in a view included); df and every frame sharing its data are unchanged, even if col exists already or df has extra columns, and any row count (including none) works.",
  ["inputs", "histories"], SHAPES + ", every weight vector and target scaling, any feature order", "The test checks prediction error on one data set only.",
  ["algorithms/linear_regression.go"], [("Predict", "algorithms/linear_regression.go")])
p("L02", "Training consumes every row, leaves its input alone, and follows the rule",
  "Fit leaves the input frame unchanged (also when it is a view), learns from float and bool columns other than the target, applies in each epoch one gradient step per batch covering every row exactly once in an order shuffled anew, with momentum and weight decay as documented, and gives the same weights with and without LowMemory for the same random choices; zero epochs, learning rate or batch size mean usable defaults.",
  ["inputs", "configurations", "histories"], "small training frames with every shuffle outcome and initial weights, every option combination", "The test trains once and checks the error loosely.",
  ["algorithms/linear_regression.go"], [("Fit", "algorithms/linear_regression.go")])
p("L03", "MSE and MAE are the mean squared and absolute difference",
  "For any two float columns of equal length, MSE and MAE are the mean over rows of the squared and absolute difference of corresponding rows: never negative, symmetric, zero exactly for equal columns, and NaN propagates; different lengths panic.",
  ["inputs"], "every pair of float vectors, through any view", "No test of these functions.",
  ["algorithms/evaluation.go"], [("MSE, MAE", "algorithms/evaluation.go")])
p("U01", "Range and grouping helpers cover every element exactly once",
  "MakeRange(from, to, step) lists exactly from, from+step, ... below to; SplitStringSlice and GroupIndexer divide n elements into consecutive, non-overlapping, non-empty groups covering all of them, at most the requested number, and finish for any sizes including zero, a GroupIndexer also when it is initialized again; FloatArgSort returns a permutation that sorts the values and leaves a read-only input unchanged.",
  ["inputs"], "every from/to/step and every element and group count", "Tests check two or three values.",
  ["utils/utils.go", "utils/group_indexer.go"], [("MakeRange, FloatArgSort, SplitStringSlice", "utils/utils.go"), ("GroupIndexer", "utils/group_indexer.go")])
p("K01", "The CPU limit is always between one and the machine's CPU count",
  "Whatever limit was asked for (negative, zero, too large, or never set), by SetMaxCPU, EmptyDataFrame, a CSV option or inherited by views, copies and concatenations, ActualMaxCPU is between 1 and the number of CPUs, equals the requested limit when that is valid, and multi-threaded operations on the frame complete.",
  ["configurations", "histories"], "every requested value, every machine CPU count, every way of deriving a frame", "Tests run on one machine with default limits.",
  [DF+"raw_data.go", DF+"dataframe.go"], [("SetMaxCPU, ActualMaxCPU", DF+"raw_data.go"), ("EmptyDataFrame", DF+"dataframe.go")])
p("G01", "Short names used for printing identify columns unambiguously",
  "GoodShortNames gives no two columns the same short name, each short name is a prefix of its column's name of at least the minimum length, and no short name equals the full name of a column printed without one; printing never alters the frame, prints names literally and shows exactly the first n rows.",
  ["inputs"], "every set of column names, minimum length and row limit", "No test of the printing helpers.",
  [DF+"print.go"], [("GoodShortNames, PrintHead, PrintRecords", DF+"print.go")])
p("G02", "Debug and verbose modes only print",
  "A frame in debug mode, every frame derived from it, and training with Verbose give exactly the same results as without (rows, columns, cells, weights), and switching debug mode on or off changes nothing else.",
  ["inputs", "histories"], SHAPES + ", debug mode on or off at any point; every training set and parameters", "No test switches debug mode or verbose training on.",
  [DF+"print.go", DF+"dataframe.go", "algorithms/linear_regression.go"], [("debugPrint", DF+"print.go"), ("Debug", DF+"dataframe.go"), ("Verbose", "algorithms/linear_regression.go")])
p("T01", "Consistency checks and assertion helpers report exactly the failures",
  "CheckNoColumnOverlap returns an error exactly when two of the frames have a column name in common, of whatever types; CheckConsistency holds for every frame the library makes and fails when columns have different lengths, of which ToDataFrame refuses to make a frame; each Assert helper of utils returns whether the compared values are equal (floats within 0.01, NaN equal to no number, string slices in order or as sets) and fails the test exactly when it returns false.",
  ["inputs", "histories"], "every combination of column names and types, every derived frame after every structural change, all values compared", "The tests use the helpers but nothing checks the helpers: one that accepts too much makes tests pass.",
  [DF+"checks.go", "utils/asserts.go"], [("CheckNoColumnOverlap, CheckConsistency", DF+"checks.go"), ("Assert*", "utils/asserts.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
