SPECIFICATION TSpec
CONSTANTS Setup = "digital" MaxPend = 2 MaxIn = 1 Nth = 1 Long = 40
CONSTRAINT Short
VIEW View
ACTION_CONSTRAINT Told
CHECK_DEADLOCK FALSE
