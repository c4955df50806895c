SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
INVARIANTS Links NoneLost Keys Contiguous Whole NoClash Emit
CHECK_DEADLOCK FALSE
