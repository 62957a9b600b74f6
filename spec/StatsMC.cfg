SPECIFICATION MCSpec
CONSTANTS
  Max = 24
  Starts = {0, 1, 23, 24}
  Fills = @FILLS@
  Steps = @STEPS@
  Kinds = {"base", "less", "near", "double", "over", "huge", "zero"}
  Dump = TRUE
INVARIANTS C22_Bounded C22_Recent C22_Order C22_Report DumpPlans
CHECK_DEADLOCK FALSE
