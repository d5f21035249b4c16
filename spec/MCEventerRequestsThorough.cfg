SPECIFICATION Spec
CONSTANTS
    EvSrv <- MCEvSrv
    EvType <- MCEvType
    MaxAnns = 0
    MaxStatus = 2
    MaxReqs = 3
    MaxEnds = 1
INVARIANTS NotificationsExact RegistersInOrder OpenIsAccepted AckMeansProcessed
PROPERTIES EventuallyAnswered
CHECK_DEADLOCK FALSE
