SPECIFICATION Spec
CONSTANT MaxReqs = 4
INVARIANTS Accepted Applied Rejected
CHECK_DEADLOCK FALSE
