SPECIFICATION Spec
CONSTANT MaxSet = 2
INVARIANTS Precedence NeverWeaker Emit
CHECK_DEADLOCK FALSE
