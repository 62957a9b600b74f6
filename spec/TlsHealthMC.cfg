SPECIFICATION MCSpec
CONSTANTS
  Ends = @ENDS@
  Length = @LEN@
  Horizon = @HORIZON@
  Extras = @EXTRAS@
  Dump = TRUE
INVARIANTS C21_WarnedAhead C21_NotTooEarly C21_Daily DumpChains
CHECK_DEADLOCK FALSE
