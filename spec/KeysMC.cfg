SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
INVARIANTS Links NoneLost Keys Contiguous Whole NoClash Emit
CHECK_DEADLOCK FALSE
