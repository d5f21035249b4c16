SPECIFICATION Spec
CONSTANTS
    DaysBefore = 719000
    LastDay = 0
INVARIANTS Calendar Epoch BytesOrdered BytesInjective AddOrdered
CHECK_DEADLOCK FALSE
