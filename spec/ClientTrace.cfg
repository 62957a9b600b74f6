SPECIFICATION TraceSpec
CONSTANTS
  Early = 150
  Late = 1500
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
