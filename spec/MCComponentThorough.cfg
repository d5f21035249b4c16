SPECIFICATION Spec
CONSTANTS
    Servers = {0, 1, 2}
    Budget = 6
    Retries = TRUE
INVARIANTS TypeOK AtMostOne OneConnection RunnerIsServed NothingAfterEnd
PROPERTIES StartsAllowed Converges Ends
CHECK_DEADLOCK FALSE
