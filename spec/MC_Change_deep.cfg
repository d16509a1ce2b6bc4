INIT Init
NEXT Next
CONSTANT Deep = TRUE
INVARIANT LqPlanConforms
INVARIANT SqlPlanConforms
INVARIANT MdConforms
INVARIANT LqStepsNeeded
INVARIANT SqlStepsNeeded
INVARIANT MdItemsNeeded
INVARIANT RecreationRejected
INVARIANT RenameByCopyRejected
INVARIANT Emit
