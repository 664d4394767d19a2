SPECIFICATION Spec
CONSTANTS
 Cap = 2
 WriteSizes = {3}
 MaxBytes = 3
 SegSizes = {0, 1}
 MaxSegs = 6
 ReadSizes = {1, 2}
 FirstAck = {1}
 FirstRx = {2}
 Lags = {0, 1}
 Toggles = FALSE
 Rejects = FALSE
INVARIANTS TxExactlyOnce TxNothingLost Kept RxExactlyOnce RxNothingLost Window Capacity StartUp
PROPERTIES WindowStep AckMirror FlagsKept StartUpOnce
CHECK_DEADLOCK FALSE
