SPECIFICATION TraceSpec
CONSTANT Focus = "@FOCUS@"
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
