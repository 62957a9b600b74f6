SPECIFICATION MCSpec
CONSTANTS
  Part = @PART@
  Dump = TRUE
INVARIANTS Total C20_OnlyWhatFits C20_OneBlock C20_RefusedLeavesNothing C20_AcceptedVerifies DumpCfg
CHECK_DEADLOCK FALSE
