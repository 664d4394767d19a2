SPECIFICATION Spec
CONSTANTS
 Cap = 1
 WriteSizes = {1, 2}
 MaxBytes = 7
 SegSizes = {1}
 MaxSegs = 3
 ReadSizes = {1}
 FirstAck = {0}
 FirstRx = {3}
 Lags = {0, 1}
 Toggles = FALSE
 Rejects = FALSE
INVARIANTS TxExactlyOnce TxNothingLost Kept RxExactlyOnce RxNothingLost Window Capacity StartUp
PROPERTIES WindowStep AckMirror FlagsKept StartUpOnce
CHECK_DEADLOCK FALSE
