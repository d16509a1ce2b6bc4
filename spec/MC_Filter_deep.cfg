INIT Init
NEXT Next
CONSTANTS Words = {"", "core", "cor", "Core", "shop", "none", "corex"}
 MaxItems = 4
INVARIANTS UnionOf Monotone Unordered Everything Idempotent KeepsOrder Split Emit
CHECK_DEADLOCK FALSE
