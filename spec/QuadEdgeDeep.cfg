SPECIFICATION Spec
CONSTANTS
 MaxEdges = 5
 MaxOps = 5
 MoreEdges = 7
 MoreOps = 3
 Slip = FALSE
VIEW View
INVARIANTS Kept Involution Alone FourFlips
ACTION_CONSTRAINT Record
CHECK_DEADLOCK FALSE
