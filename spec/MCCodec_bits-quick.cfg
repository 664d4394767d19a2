SPECIFICATION Spec
CONSTANTS Topic = "bits" Step = 32
INVARIANTS Digital
CHECK_DEADLOCK FALSE
