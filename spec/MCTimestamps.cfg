SPECIFICATION Spec
CONSTANTS
    DaysBefore = 1000
    LastDay = 20000
INVARIANTS Calendar Epoch BytesOrdered BytesInjective AddOrdered
CHECK_DEADLOCK FALSE
