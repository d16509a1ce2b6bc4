INIT Init
NEXT Next
CONSTANTS NDefs = 4
 NOld = 2
 NNew = 2
INVARIANT LqPlanConforms
INVARIANT SqlPlanConforms
INVARIANT MdConforms
INVARIANT LqStepsNeeded
INVARIANT SqlStepsNeeded
INVARIANT MdItemsNeeded
INVARIANT RecreationRejected
INVARIANT RenameByCopyRejected
INVARIANT Emit
