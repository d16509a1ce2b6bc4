INIT Init
NEXT Next
CONSTANTS MaxCols = 3
 WithIndex = TRUE
INVARIANT SameKeys
INVARIANT ReadsBack
INVARIANT DiffOfSame
INVARIANT Emit
