INIT Init
NEXT Next
CONSTANTS MaxCols = 4
 Starts = {"", "-1", "0", "1", "2", "3", "4", "5", "6", "7", "20"}
INVARIANTS Numbered Emit
CHECK_DEADLOCK FALSE
