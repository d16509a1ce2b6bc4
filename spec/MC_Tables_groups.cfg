INIT Init
NEXT Next
CONSTANTS NOld = 2
 NFresh = 1
 NDefs = 2
 Groups = {"", "core"}
 Filters = {"core", "common"}
INVARIANT LqPlanConforms
INVARIANT SqlPlanConforms
INVARIANT MdConforms
INVARIANT LqStepsNeeded
INVARIANT SqlStepsNeeded
INVARIANT MdSectionsNeeded
INVARIANT RenameByCopyRejected
INVARIANT OthersUntouched
INVARIANT Emit
