SPECIFICATION MCSpec
CONSTANTS
    Ev <- MCEv
    MaxBatches = 4
    MaxCrashes = 1
    MaxNow = 2
INVARIANTS DurablePrefix CloseTransparent LastIsGreatest OneLatest LatestIsNewest TsValid ServerComplete
PROPERTIES CleanupKeepsNewest LastMonotone FlushTransparent
CHECK_DEADLOCK FALSE
