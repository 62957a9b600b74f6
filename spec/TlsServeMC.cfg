SPECIFICATION MCSpec
CONSTANTS
  Few = @FEW@
  Dump = TRUE
INVARIANTS C21_Modern C21_NoOldClient C21_Answered DumpHellos
CHECK_DEADLOCK FALSE
