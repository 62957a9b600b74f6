SPECIFICATION MCSpec
CONSTANTS
  Grace = 3000
  Part = "@PART@"
  MaxSent = @SENT@
INVARIANTS C06_NoneTwice C06_All DumpCases @MORE@
PROPERTIES C06_Usable @LIVE@
CHECK_DEADLOCK FALSE
