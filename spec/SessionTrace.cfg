SPECIFICATION TraceSpec
CONSTANT Grace = 3000
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
