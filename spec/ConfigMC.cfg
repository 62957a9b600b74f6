SPECIFICATION MCSpec
CONSTANTS
  Part = "@PART@"
  Dump = TRUE
INVARIANTS C18_Complete C18_AsGiven C18_Boots C18_Stable DumpPlans
CHECK_DEADLOCK FALSE
