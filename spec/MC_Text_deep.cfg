CONSTANTS Wide = 3
Deepest = 5
INIT Init
NEXT Next
INVARIANTS ReadsBack Closed Naive Emit
CHECK_DEADLOCK FALSE
