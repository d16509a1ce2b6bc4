INIT Init
NEXT Next
CONSTANT Depth = 7
CONSTANT Linear = TRUE
INVARIANT Possible
INVARIANT Binding
INVARIANT ToolFilesCanonical
INVARIANT FixedPoint
INVARIANT Emit
