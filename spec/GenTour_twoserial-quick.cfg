SPECIFICATION TSpec
CONSTANTS Setup = "twoserial" MaxPend = 1 MaxIn = 1 Nth = 1 Long = 7
CONSTRAINT ShortGood
VIEW View
ACTION_CONSTRAINT Told
CHECK_DEADLOCK FALSE
