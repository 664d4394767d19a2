SPECIFICATION Spec
CONSTANTS
 Depth = 40
 MaxMods = 5
 Coms = 45
 Wrong = 0
INVARIANTS Told Sound
CHECK_DEADLOCK FALSE
