SPECIFICATION Spec
CONSTANTS
 Cap = 2
 WriteSizes = {1, 3}
 MaxBytes = 4
 SegSizes = {1, 2}
 MaxSegs = 3
 ReadSizes = {1, 4}
 FirstAck = {0, 3}
 FirstRx = {0, 3}
 Lags = {0, 1, 2, 3}
 Toggles = FALSE
 Rejects = FALSE
INVARIANTS TxExactlyOnce TxNothingLost Kept RxExactlyOnce RxNothingLost Window Capacity StartUp
PROPERTIES WindowStep AckMirror FlagsKept StartUpOnce
CHECK_DEADLOCK FALSE
