CONSTANTS Wide = 2
Deepest = 4
INIT Init
NEXT Next
INVARIANTS ReadsBack Closed Naive Emit
CHECK_DEADLOCK FALSE
