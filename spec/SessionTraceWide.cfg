SPECIFICATION TraceSpec
CONSTANT Wide = TRUE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
