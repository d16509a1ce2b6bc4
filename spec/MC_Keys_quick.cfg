INIT Init
NEXT Next
CONSTANTS MaxCols = 3
 WithIndex = FALSE
INVARIANT SameKeys
INVARIANT ReadsBack
INVARIANT DiffOfSame
INVARIANT Emit
