SPECIFICATION MCSpec
CONSTANTS
  Focus = "ALL"
  MaxRoutes = @MAX@
  MaxExchanges = 1
  Transforms = {"", "/", "/t", "/a/x"}
  Dump = TRUE
INVARIANTS C07_NothingForUnmatched C07_NoLongerMatch C08_Slash C08_OnlyConfigured C08_Untouched C08_Tail Handled Unique DumpCases
CHECK_DEADLOCK FALSE
