SPECIFICATION Spec
CONSTANTS Topic = "serial" Step = 1
INVARIANTS Serial
CHECK_DEADLOCK FALSE
