SPECIFICATION Spec
CONSTANTS
    Sizes <- SizesC
    MaxResults = 3
    MaxFaults = 4
    FilterKept = TRUE
    KeepLast = TRUE
INVARIANTS Correct PrefixOfSessions
PROPERTIES EventuallyComplete
CHECK_DEADLOCK FALSE
