SPECIFICATION Spec
CONSTANTS
  N = 4
  Roles = {"T", "t", "n"}
  Many = 1
  Loops = FALSE
  Deps = {TRUE}
  MaxEdges = 6
INVARIANTS Disjoint Closed Few SameLayers Complete Good Emit
CHECK_DEADLOCK FALSE
