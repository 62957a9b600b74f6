SPECIFICATION MCSpec
CONSTANTS
  N = @N@
  Fails = @FAILS@
  Dump = TRUE
INVARIANTS C23_Own C23_Ids C23_NothingForRefused DumpOrders
PROPERTIES C23_Config AllDone
CHECK_DEADLOCK FALSE
