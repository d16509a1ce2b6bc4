INIT Init
NEXT Next
INVARIANT CanonIsCanonical
INVARIANT SynonymsAreTypes
INVARIANT LetterCaseIsNothing
INVARIANT KnownExactly
INVARIANT ValidityIsCanonical
INVARIANT Emit
