SPECIFICATION Spec
CONSTANTS
  N = 2
  Had = {"no", "own", "same"}
  Design = "right"
INVARIANTS Seen Outcome Refused Asked SameAgain NoDeadlock Emit
CHECK_DEADLOCK FALSE
