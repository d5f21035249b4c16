SPECIFICATION Spec
CONSTANTS
    EvSrv <- MCEvSrv
    EvType <- MCEvType
    MaxAnns = 2
    MaxStatus = 2
    MaxReqs = 0
    MaxEnds = 1
INVARIANTS NotificationsExact RegistersInOrder OpenIsAccepted AckMeansProcessed
PROPERTIES EventuallyDelivered EventuallyDone
CHECK_DEADLOCK FALSE
