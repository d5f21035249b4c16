SPECIFICATION Spec
CONSTANTS
    Servers = {0, 1, 2}
    Budget = 4
    Retries = TRUE
INVARIANTS TypeOK AtMostOne OneConnection RunnerIsServed NothingAfterEnd
PROPERTIES StartsAllowed Converges Ends
CHECK_DEADLOCK FALSE
