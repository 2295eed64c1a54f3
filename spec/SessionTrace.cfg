SPECIFICATION TraceSpec
CONSTANT Wide = FALSE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
