SPECIFICATION Spec
CONSTANTS Depth = 2 Pool = "all"
INVARIANT Told
CHECK_DEADLOCK FALSE
