SPECIFICATION Spec
CONSTANTS
 Depth = 30
 MaxMods = 16
 Coms = 10
 Wrong = 5
INVARIANTS Told Sound
CHECK_DEADLOCK FALSE
