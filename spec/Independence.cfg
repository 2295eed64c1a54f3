SPECIFICATION Spec
CONSTANTS
  Containers = {c1, c2, c3}
  Values = {1, 2, 3}
  Items = {0, 1}
  Most = 2
  Fresh = TRUE
PROPERTIES Isolated OneAtATime
CHECK_DEADLOCK FALSE
