SPECIFICATION TraceSpec
CONSTANT Focus = "@FOCUS@"
CONSTRAINT Progress
INVARIANT TypeOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
