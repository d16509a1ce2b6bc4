INIT Init
NEXT Next
CONSTANT Depth = 5
CONSTANT Linear = TRUE
INVARIANT Possible
INVARIANT Binding
INVARIANT ToolFilesCanonical
INVARIANT FixedPoint
INVARIANT Emit
