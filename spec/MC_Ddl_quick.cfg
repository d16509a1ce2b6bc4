INIT Init
NEXT Next
CONSTANT Deep = FALSE
INVARIANTS IsSchema Returns Emit
CHECK_DEADLOCK FALSE
