SPECIFICATION Spec
CONSTANTS MaxDepth = 2 MaxParts = 2 Mode = "cond"
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
