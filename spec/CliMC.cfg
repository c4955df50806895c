SPECIFICATION Spec
CONSTANTS MaxOptions = 2
 MaxFaults = 2
 Weight = 2
INVARIANTS ZeroIffDone Done PlanWritesNothing EarlyWritesNothing LastWord Associative KeepsOthers Emit
CHECK_DEADLOCK FALSE
