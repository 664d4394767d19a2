SPECIFICATION Spec
CONSTANTS
 Depth = 40
 MaxMods = 6
 Coms = 20
 Wrong = 12
INVARIANTS Told Sound
CHECK_DEADLOCK FALSE
