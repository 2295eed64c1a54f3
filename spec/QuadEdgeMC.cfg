SPECIFICATION Spec
CONSTANTS
 MaxEdges = 4
 MaxOps = 4
 MoreEdges = 6
 MoreOps = 2
 Slip = FALSE
VIEW View
INVARIANTS Kept Involution Alone FourFlips
ACTION_CONSTRAINT Record
CHECK_DEADLOCK FALSE
