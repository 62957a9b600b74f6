SPECIFICATION TraceSpec
CONSTANTS
  Early = 300
  Late = 900
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
