SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANTS Inverse Again Consistent Acyclic
CHECK_DEADLOCK FALSE
