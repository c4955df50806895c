SPECIFICATION Spec
CONSTANTS
  N = 3
  Roles = {"T", "t", "n", "p", "i", "u"}
  Many = 1
  Loops = FALSE
  Deps = {TRUE, FALSE}
  MaxEdges = 99
INVARIANTS Disjoint Closed Few SameLayers Complete Good Emit
CHECK_DEADLOCK FALSE
