SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
INVARIANTS NormalIsPlain FirstIsNamed WarnedAreLow
CHECK_DEADLOCK FALSE
