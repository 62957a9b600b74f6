SPECIFICATION MCSpec
CONSTANTS
  Early = 0
  Late = 0
  Limits <- TheLimits
  Gaps = {0, 300, 2000, 6000}
  Durs = {0, 400, 2000, 6000}
  Parts = {"head", "body", "drip"}
  Requests = @REQ@
  Dump = TRUE
INVARIANTS C26_NotForever C26_OnlyWhole C26_Exact DumpPlans
CHECK_DEADLOCK FALSE
