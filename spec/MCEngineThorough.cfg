SPECIFICATION Spec
CONSTANTS
    Mods <- MCMods
    Match <- MCMatch
    NReqs = 2
    MaxOuts = 2
    BackendFailures = TRUE
INVARIANTS IdsUniqueAscending InstancesConsecutive AllProcessed RegisteredOnce StartedFirst StoppedLast
PROPERTIES EveryCallTerminates
CHECK_DEADLOCK FALSE
