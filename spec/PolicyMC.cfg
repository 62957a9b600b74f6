SPECIFICATION MCSpec
CONSTANTS
  MaxChoices = @MAX@
  Dump = TRUE
INVARIANTS C09_ZeroNever Mapped ShortFair DumpCases
CHECK_DEADLOCK FALSE
