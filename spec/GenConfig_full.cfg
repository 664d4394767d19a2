SPECIFICATION Spec
CONSTANTS Depth = 3 Pool = "few"
INVARIANT Told
CHECK_DEADLOCK FALSE
