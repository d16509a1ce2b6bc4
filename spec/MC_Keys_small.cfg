INIT Init
NEXT Next
CONSTANTS MaxCols = 2
 WithIndex = TRUE
INVARIANT SameKeys
INVARIANT ReadsBack
INVARIANT DiffOfSame
INVARIANT Emit
