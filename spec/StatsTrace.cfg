SPECIFICATION TraceSpec
CONSTANTS
  Max = 24
CONSTRAINT Progress
POSTCONDITION Report0
CHECK_DEADLOCK FALSE
