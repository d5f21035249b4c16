SPECIFICATION Spec
INVARIANT WellFormed
PROPERTY OneOption
CHECK_DEADLOCK FALSE
CONSTANT Full = FALSE
