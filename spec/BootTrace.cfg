SPECIFICATION TraceSpec
CONSTRAINT Progress
POSTCONDITION Report_
CHECK_DEADLOCK FALSE
