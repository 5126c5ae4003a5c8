package h

// All maps harness names to functions (generated by tools/genreg.py).
var All = map[string]func(){
	"B01_Build": B01_Build,
	"B01_Columns": B01_Columns,
	"B01_Copies": B01_Copies,
	"B01_Marks": B01_Marks,
	"B01_Overlap": B01_Overlap,
	"B01_Rows": B01_Rows,
	"B01_Tall": B01_Tall,
	"C01_Chain": C01_Chain,
	"C01_Encoding": C01_Encoding,
	"C01_Large": C01_Large,
	"C01_Mismatch": C01_Mismatch,
	"C01_None": C01_None,
	"C01_Stack": C01_Stack,
	"C01_Tall": C01_Tall,
	"C01_Whole": C01_Whole,
	"C02_Align": C02_Align,
	"C02_Chain": C02_Chain,
	"C02_Many": C02_Many,
	"C02_Overlap": C02_Overlap,
	"C02_SameView": C02_SameView,
	"C02_Tall": C02_Tall,
	"C02_Whole": C02_Whole,
	"D01_Access": D01_Access,
	"D01_Internals": D01_Internals,
	"D01_Large": D01_Large,
	"D02_Chain": D02_Chain,
	"D02_Derived": D02_Derived,
	"D02_Large": D02_Large,
	"D02_Many": D02_Many,
	"D02_Reuse": D02_Reuse,
	"D02_Types": D02_Types,
	"D03_Batches": D03_Batches,
	"D03_Chain": D03_Chain,
	"D03_Rows": D03_Rows,
	"D04_Chain": D04_Chain,
	"D04_LabelToInt": D04_LabelToInt,
	"D04_Tall": D04_Tall,
	"D04_ToFloats": D04_ToFloats,
	"E01_Between": E01_Between,
	"E01_Derived": E01_Derived,
	"E01_Encode": E01_Encode,
	"E01_Later": E01_Later,
	"E01_Letters": E01_Letters,
	"E01_Long": E01_Long,
	"E01_Tall": E01_Tall,
	"G01_Many": G01_Many,
	"G01_Names": G01_Names,
	"G01_Print": G01_Print,
	"G01_Tall": G01_Tall,
	"G02_Concat": G02_Concat,
	"G02_Debug": G02_Debug,
	"G02_Verbose": G02_Verbose,
	"H01_Chain": H01_Chain,
	"H01_Distinct": H01_Distinct,
	"H01_Hash": H01_Hash,
	"H01_Nothing": H01_Nothing,
	"H01_Spread": H01_Spread,
	"H01_Tall": H01_Tall,
	"K01_Complete": K01_Complete,
	"K01_Limit": K01_Limit,
	"L01_Alone": L01_Alone,
	"L01_Batches": L01_Batches,
	"L01_Chain": L01_Chain,
	"L01_Features": L01_Features,
	"L01_Many": L01_Many,
	"L01_Names": L01_Names,
	"L01_Predict": L01_Predict,
	"L01_Tall": L01_Tall,
	"L02_Batches": L02_Batches,
	"L02_Defaults": L02_Defaults,
	"L02_Epochs": L02_Epochs,
	"L02_LowMemory": L02_LowMemory,
	"L02_Names": L02_Names,
	"L02_Refit": L02_Refit,
	"L02_Rule": L02_Rule,
	"L02_Shuffled": L02_Shuffled,
	"L02_Tall": L02_Tall,
	"L03_Chain": L03_Chain,
	"L03_Laws": L03_Laws,
	"L03_Sizes": L03_Sizes,
	"L03_Tall": L03_Tall,
	"L03_Value": L03_Value,
	"L03_Zero": L03_Zero,
	"P01_Chain": P01_Chain,
	"P01_Fit": P01_Fit,
	"P01_Refit": P01_Refit,
	"P01_Tall": P01_Tall,
	"P01_Views": P01_Views,
	"P02_Chain": P02_Chain,
	"P02_Fit": P02_Fit,
	"P02_Refit": P02_Refit,
	"P02_Tall": P02_Tall,
	"P02_Views": P02_Views,
	"P03_Again": P03_Again,
	"P03_Chain": P03_Chain,
	"P03_Columns": P03_Columns,
	"P03_Policies": P03_Policies,
	"P03_Refit": P03_Refit,
	"P03_Tall": P03_Tall,
	"P03_TwoColumns": P03_TwoColumns,
	"P04_Again": P04_Again,
	"P04_Fit": P04_Fit,
	"P04_Tall": P04_Tall,
	"P04_Transform": P04_Transform,
	"P04_Whole": P04_Whole,
	"P05_Auto": P05_Auto,
	"P05_Encoders": P05_Encoders,
	"P05_Imputer": P05_Imputer,
	"P05_LinearRegressor": P05_LinearRegressor,
	"P05_Scaler": P05_Scaler,
	"P05_Tall": P05_Tall,
	"P06_Auto": P06_Auto,
	"P06_Floats": P06_Floats,
	"P06_Later": P06_Later,
	"P06_Refit": P06_Refit,
	"P06_Tall": P06_Tall,
	"P07_Lists": P07_Lists,
	"Q01_Column": Q01_Column,
	"Q01_Empty": Q01_Empty,
	"Q01_Many": Q01_Many,
	"Q01_OneThread": Q01_OneThread,
	"Q01_Queue": Q01_Queue,
	"Q02_Files": Q02_Files,
	"Q02_Hash": Q02_Hash,
	"Q02_Imputer": Q02_Imputer,
	"Q02_OneHot": Q02_OneHot,
	"Q02_Read": Q02_Read,
	"Q02_Refused": Q02_Refused,
	"Q02_Scaler": Q02_Scaler,
	"Q02_Write": Q02_Write,
	"R01_Bytes": R01_Bytes,
	"R01_Encoding": R01_Encoding,
	"R01_Layout": R01_Layout,
	"R01_Literals": R01_Literals,
	"R01_Long": R01_Long,
	"R01_Parser": R01_Parser,
	"R01_Shape": R01_Shape,
	"R01_Tall": R01_Tall,
	"R01_Wide": R01_Wide,
	"R02_Batch": R02_Batch,
	"R02_Chain": R02_Chain,
	"R02_Numbers": R02_Numbers,
	"R02_OneColumn": R02_OneColumn,
	"R02_Strings": R02_Strings,
	"R02_Views": R02_Views,
	"R03_Files": R03_Files,
	"R03_ManyFiles": R03_ManyFiles,
	"R03_Writers": R03_Writers,
	"R04_Batches": R04_Batches,
	"R04_Files": R04_Files,
	"R04_Many": R04_Many,
	"R04_ManyWriters": R04_ManyWriters,
	"R04_One": R04_One,
	"R05_Errors": R05_Errors,
	"R05_Many": R05_Many,
	"R05_Options": R05_Options,
	"R05_Pattern": R05_Pattern,
	"R05_Schedules": R05_Schedules,
	"SMOKE_Add": SMOKE_Add,
	"SMOKE_Bad": SMOKE_Bad,
	"T01_Consistency": T01_Consistency,
	"T01_Overlap": T01_Overlap,
	"T01_Scalars": T01_Scalars,
	"T01_Slices": T01_Slices,
	"T01_Tall": T01_Tall,
	"U01_FloatArgSort": U01_FloatArgSort,
	"U01_GroupIndexer": U01_GroupIndexer,
	"U01_MakeRange": U01_MakeRange,
	"U01_ManyGroups": U01_ManyGroups,
	"U01_Reuse": U01_Reuse,
	"U01_Sets": U01_Sets,
	"U01_SplitMany": U01_SplitMany,
	"U01_SplitStringSlice": U01_SplitStringSlice,
	"V01_Chain": V01_Chain,
	"V01_IndexView": V01_IndexView,
	"V01_MaskView": V01_MaskView,
	"V01_SliceLarge": V01_SliceLarge,
	"V01_SliceView": V01_SliceView,
	"V01_Tall": V01_Tall,
	"V02_Chain": V02_Chain,
	"V02_Ratios": V02_Ratios,
	"V02_SplitLarge": V02_SplitLarge,
	"V02_SplitNView": V02_SplitNView,
	"V02_SplitView": V02_SplitView,
	"V02_Tall": V02_Tall,
	"V02_TrainTest": V02_TrainTest,
	"V02_TrainTestAnyRatio": V02_TrainTestAnyRatio,
	"V02_Whole": V02_Whole,
	"V03_Chain": V03_Chain,
	"V03_SortBools": V03_SortBools,
	"V03_SortFloats": V03_SortFloats,
	"V03_SortInts": V03_SortInts,
	"V03_Tall": V03_Tall,
	"V03_TopView": V03_TopView,
	"V04_Chain": V04_Chain,
	"V04_Large": V04_Large,
	"V04_ResetIndex": V04_ResetIndex,
	"V04_Sample": V04_Sample,
	"V04_Shuffle": V04_Shuffle,
	"V04_Tall": V04_Tall,
	"V05_AllocMany": V05_AllocMany,
	"V05_Chain": V05_Chain,
	"V05_Create": V05_Create,
	"V05_NoColumns": V05_NoColumns,
	"V05_Retype": V05_Retype,
	"V05_Tall": V05_Tall,
	"V05_Whole": V05_Whole,
	"V05_WriteLarge": V05_WriteLarge,
	"V05_Writes": V05_Writes,
	"V06_Chain": V06_Chain,
	"V06_Large": V06_Large,
	"V06_Raw": V06_Raw,
	"V06_RenameOnto": V06_RenameOnto,
	"V06_Retype": V06_Retype,
	"V06_Structure": V06_Structure,
	"V06_Tall": V06_Tall,
	"V06_ThenWrite": V06_ThenWrite,
	"V06_TransferOnto": V06_TransferOnto,
	"V06_Whole": V06_Whole,
	"V07_Chain": V07_Chain,
	"V07_Detach": V07_Detach,
	"V07_History": V07_History,
	"V07_Large": V07_Large,
	"V07_Raw": V07_Raw,
	"V07_RawBoth": V07_RawBoth,
	"V07_Steps": V07_Steps,
	"V07_Tall": V07_Tall,
	"V07_Whole": V07_Whole,
	"V08_Chain": V08_Chain,
	"V08_Copy": V08_Copy,
	"V08_CopyLarge": V08_CopyLarge,
	"V08_Encoding": V08_Encoding,
	"V08_NoColumns": V08_NoColumns,
	"V08_Shallow": V08_Shallow,
	"V08_Tall": V08_Tall,
	"V09_Algebra": V09_Algebra,
	"V09_ColumnView": V09_ColumnView,
	"V09_Headers": V09_Headers,
	"V09_Tall": V09_Tall,
	"V10_Masks": V10_Masks,
	"V10_Tall": V10_Tall,
	"V10_ThreadSafe": V10_ThreadSafe,
	"V11_Arguments": V11_Arguments,
	"V11_Columns": V11_Columns,
	"V11_Large": V11_Large,
	"V11_Rows": V11_Rows,
}
