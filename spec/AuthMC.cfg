SPECIFICATION MCSpec
CONSTANTS
  Focus = "ALL"
  MaxSteps = @STEPS@
  Ticks = {1000, 9000, 10000}
  Delays = {500, 11000}
  Tokens <- @TOKENS@
  Dump = @DUMP@
VIEW View
INVARIANTS TypeOK C10_OnlyHeldKeys C10_NeverTheAttacker C10_AnyHeldKey C11_NotLateNotEarly C12_OneAtATime C12_NoForeignKeys DumpScripts
PROPERTIES C12_Rate C12_NothingLost C12_FailuresChangeNothing
CHECK_DEADLOCK FALSE
