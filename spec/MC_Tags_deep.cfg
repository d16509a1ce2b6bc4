INIT Init
NEXT Next
CONSTANTS MaxCols = 5
 Starts = {"", "-1", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "20", "100"}
INVARIANTS Numbered Emit
CHECK_DEADLOCK FALSE
