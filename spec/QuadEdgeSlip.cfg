SPECIFICATION Spec
CONSTANTS
 MaxEdges = 4
 MaxOps = 4
 MoreEdges = 6
 MoreOps = 2
 Slip = TRUE
VIEW View
INVARIANTS Kept Involution Alone FourFlips
CHECK_DEADLOCK FALSE
