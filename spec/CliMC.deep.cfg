SPECIFICATION Spec
CONSTANTS MaxOptions = 3
 MaxFaults = 2
 Weight = 3
INVARIANTS ZeroIffDone Done PlanWritesNothing EarlyWritesNothing LastWord Associative KeepsOthers Emit
CHECK_DEADLOCK FALSE
