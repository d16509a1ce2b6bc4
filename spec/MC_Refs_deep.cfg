INIT Init
NEXT Next
CONSTANTS MaxRefs = 2
 Rels = {"n:1", "1:1", "1:n", ""}
 Orders <- AllOrders
 GroupSets <- MoreGroups
INVARIANTS Kept ThroughXlsx NotInDatabase Messages Emit
CHECK_DEADLOCK FALSE
