SPECIFICATION MCSpec
CONSTANTS
  N = 3
  Roles = {"T", "t", "n"}
  Many = 1
  Loops = FALSE
  Deps = {TRUE}
  MaxEdges = 3
  Rows = 2
INVARIANTS Progress ClosedSample Reason Det
CHECK_DEADLOCK FALSE
