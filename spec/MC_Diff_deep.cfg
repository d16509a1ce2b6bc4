INIT Init
NEXT Next
CONSTANTS NDefs = 3
 NOld = 3
 NNew = 3
INVARIANT LqPlanConforms
INVARIANT SqlPlanConforms
INVARIANT MdConforms
INVARIANT LqStepsNeeded
INVARIANT SqlStepsNeeded
INVARIANT MdItemsNeeded
INVARIANT RecreationRejected
INVARIANT RenameByCopyRejected
INVARIANT Emit
