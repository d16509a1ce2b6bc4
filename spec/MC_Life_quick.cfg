INIT Init
NEXT Next
CONSTANT Depth = 3
CONSTANT Linear = FALSE
INVARIANT Possible
INVARIANT Binding
INVARIANT ToolFilesCanonical
INVARIANT FixedPoint
INVARIANT Emit
