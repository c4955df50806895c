SPECIFICATION Spec
CONSTANTS MaxDepth = 1 MaxParts = 2 Mode = "cond"
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
