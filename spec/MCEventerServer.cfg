SPECIFICATION Spec
CONSTANTS
    MaxEngines = 1
    MaxReqs = 1
INVARIANTS Announced SourcesDistinct OnlyValid HelloFirst
CHECK_DEADLOCK FALSE
