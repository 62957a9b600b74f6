SPECIFICATION MCSpec
CONSTANTS
  Early = 150
  Late = 1500
INVARIANTS C24_NotFollowed C24_Verified Talked DumpCases
PROPERTIES Answered
CHECK_DEADLOCK FALSE
