INIT Init
NEXT Next
VIEW View
INVARIANT CellsOk
INVARIANT Whole
CHECK_DEADLOCK FALSE
