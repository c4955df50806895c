SPECIFICATION MSpec
CONSTANTS
  N = 3
  Roles = {"T", "t", "n", "p"}
  Many = 1
  Loops = FALSE
  Deps = {TRUE}
  MaxEdges = 2
  Design = "right"
INVARIANTS OneMoment DrawnOnce MEmit
CHECK_DEADLOCK FALSE
