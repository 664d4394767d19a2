SPECIFICATION Spec
CONSTANTS Depth = 3 Pool = "all"
INVARIANTS Causes Layout0 Assembled
CHECK_DEADLOCK FALSE
