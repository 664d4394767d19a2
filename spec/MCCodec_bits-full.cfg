SPECIFICATION Spec
CONSTANTS Topic = "bits" Step = 1
INVARIANTS Digital
CHECK_DEADLOCK FALSE
