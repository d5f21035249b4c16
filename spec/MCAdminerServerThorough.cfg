SPECIFICATION Spec
CONSTANT MaxReqs = 5
INVARIANTS Accepted Applied Rejected
CHECK_DEADLOCK FALSE
