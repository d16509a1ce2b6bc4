INIT Init
NEXT Next
CONSTANT Deep = TRUE
INVARIANTS IsSchema Returns Emit
CHECK_DEADLOCK FALSE
