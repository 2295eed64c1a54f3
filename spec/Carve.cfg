SPECIFICATION Spec
CONSTANTS
 Wide = FALSE
 Careful = TRUE
 Columns = 3
 Rows = 2
 MinPoints = 3
 MaxPoints = 6
INVARIANTS SubdivisionKept WalkSimple BorderProper PointsWithin BorderDrawn
CHECK_DEADLOCK FALSE
