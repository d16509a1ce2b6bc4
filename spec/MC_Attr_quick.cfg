INIT Init
NEXT Next
CONSTANT Deep = FALSE
INVARIANT CanonIdempotent
INVARIANT Valid
INVARIANT MySqlInverse
INVARIANT MySqlStable
INVARIANT XlsxInverse
INVARIANT LqAccepted
INVARIANT CodeTotal
INVARIANT Emit
