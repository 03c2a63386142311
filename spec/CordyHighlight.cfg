INIT Init
NEXT Next
VIEW View
INVARIANT Shown
CHECK_DEADLOCK FALSE
