INIT Init
NEXT Next
CONSTANTS NOld = 2
 NFresh = 2
 NDefs = 3
 Groups = {"", "core", "shop"}
 Filters = {"core", "shop,core", "common"}
INVARIANT LqPlanConforms
INVARIANT SqlPlanConforms
INVARIANT MdConforms
INVARIANT LqStepsNeeded
INVARIANT SqlStepsNeeded
INVARIANT MdSectionsNeeded
INVARIANT RenameByCopyRejected
INVARIANT OthersUntouched
INVARIANT Emit
