SPECIFICATION Spec
CONSTANTS Depth = 3 Pool = "few"
INVARIANTS Causes Layout0 Assembled
CHECK_DEADLOCK FALSE
