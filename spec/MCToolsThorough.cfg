SPECIFICATION MTSpec
CONSTANTS
    Ev <- MCEv
    MaxBatches = 3
    MaxCrashes = 1
    MaxNow = 2
INVARIANTS DurablePrefix CloseTransparent LastIsGreatest OneLatest LatestIsNewest TsValid ServerComplete
PROPERTIES CopyEquivalent OriginalKept ConvertKeeps
CHECK_DEADLOCK FALSE
