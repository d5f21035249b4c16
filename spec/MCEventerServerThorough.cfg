SPECIFICATION Spec
CONSTANTS
    MaxEngines = 2
    MaxReqs = 1
INVARIANTS Announced SourcesDistinct OnlyValid HelloFirst
PROPERTIES RequestsEnd
CHECK_DEADLOCK FALSE
