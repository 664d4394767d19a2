SPECIFICATION Spec
CONSTANTS Topic = "counter" Step = 1
INVARIANTS Counter
CHECK_DEADLOCK FALSE
