SPECIFICATION Spec
CONSTANTS
  N = 3
  Had = {"no", "same"}
  Design = "right"
INVARIANTS Seen Outcome Refused Asked SameAgain NoDeadlock Emit
CHECK_DEADLOCK FALSE
