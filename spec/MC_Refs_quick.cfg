INIT Init
NEXT Next
CONSTANTS MaxRefs = 2
 Rels = {"n:1", "1:1", "1:n"}
 Orders <- TwoOrders
 GroupSets <- FewGroups
INVARIANTS Kept ThroughXlsx NotInDatabase Messages Emit
CHECK_DEADLOCK FALSE
