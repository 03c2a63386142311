INIT Init
NEXT Next
VIEW View
INVARIANT CellsOk
INVARIANT HeapOk
INVARIANT OutOk
CHECK_DEADLOCK FALSE
