INIT Init
NEXT Next
CONSTANT Depth = 4
CONSTANT Linear = FALSE
INVARIANT Possible
INVARIANT Binding
INVARIANT ToolFilesCanonical
INVARIANT FixedPoint
INVARIANT Emit
