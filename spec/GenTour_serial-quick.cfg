SPECIFICATION TSpec
CONSTANTS Setup = "serial" MaxPend = 1 MaxIn = 1 Nth = 1 Long = 5
CONSTRAINT Short
VIEW View
ACTION_CONSTRAINT Told
CHECK_DEADLOCK FALSE
