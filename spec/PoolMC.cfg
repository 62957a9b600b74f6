SPECIFICATION MCSpec
CONSTANTS
  Early = 0
  Late = 0
  Sizes = {1, 2, 3}
  Widths = {1, 2, 3, 4}
  Waves = @WAVES@
  Hold = 150
  Pauses = {400, 800, 2500}
  Dump = TRUE
INVARIANTS C24_Bounded C24_Economy C24_Reuse DumpPlans
CHECK_DEADLOCK FALSE
