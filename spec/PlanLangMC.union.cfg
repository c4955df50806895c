SPECIFICATION Spec
CONSTANTS MaxDepth = 2 MaxParts = 2 Mode = "union"
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
