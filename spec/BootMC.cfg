SPECIFICATION MCSpec
CONSTANTS
  Departures = @DEP@
  Dump = TRUE
INVARIANTS C19_OnlyUsable C19_Refused C19_Decides DumpCases
PROPERTY C19_Ends
CHECK_DEADLOCK FALSE
