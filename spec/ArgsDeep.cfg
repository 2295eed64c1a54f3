SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
INVARIANTS NormalIsPlain FirstIsNamed WarnedAreLow
CHECK_DEADLOCK FALSE
