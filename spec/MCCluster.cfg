CONSTANTS
    Nodes = {"a", "b"}
    CopyPersisted = TRUE
    MaxCreates = 2
    MaxDowns = 2
    MaxBlesses = 1
    MaxSession = 2
SPECIFICATION Spec
INVARIANTS NoDivergence UniqueIds OwnEvents AckedSurvives RecoveredDisk
PROPERTIES Recovers
CHECK_DEADLOCK FALSE
