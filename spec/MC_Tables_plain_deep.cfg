INIT Init
NEXT Next
CONSTANTS NOld = 3
 NFresh = 2
 NDefs = 3
 Groups = {""}
 Filters = {""}
INVARIANT LqPlanConforms
INVARIANT SqlPlanConforms
INVARIANT MdConforms
INVARIANT LqStepsNeeded
INVARIANT SqlStepsNeeded
INVARIANT MdSectionsNeeded
INVARIANT RenameByCopyRejected
INVARIANT OthersUntouched
INVARIANT Emit
