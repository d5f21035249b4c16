SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANTS Inverse Again Consistent Acyclic
CHECK_DEADLOCK FALSE
