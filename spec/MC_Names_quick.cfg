INIT Init
NEXT Next
CONSTANTS Alphabet = {"b", "d", "I", "D", "_", "1"}
 MaxLen = 4
INVARIANT CamelShape
INVARIANT Starts
INVARIANT SnakeShape
INVARIANT CamelIdempotent
INVARIANT SnakeIdempotent
INVARIANT NothingLost
INVARIANT KtConvention
INVARIANT PyConvention
INVARIANT GoConvention
INVARIANT ModelRule
INVARIANT PrefixRule
INVARIANT Emit
