SPECIFICATION Spec
CONSTANT MaxSet = 3
INVARIANTS Precedence NeverWeaker Emit
CHECK_DEADLOCK FALSE
