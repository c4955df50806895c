SPECIFICATION Spec
CONSTANTS
  N = 3
  Roles = {"T", "t", "n", "i"}
  Many = 2
  Loops = TRUE
  Deps = {TRUE}
  MaxEdges = 4
INVARIANTS Disjoint Closed Few SameLayers Complete Good Emit
CHECK_DEADLOCK FALSE
