SPECIFICATION GSpec
CONSTANTS
 Cap = 6
 WriteSizes = {1, 5, 6, 7, 12, 13}
 MaxBytes = 1000
 SegSizes = {0, 1, 6}
 MaxSegs = 100
 ReadSizes = {1, 6, 100}
 FirstAck = {0, 1, 2, 3}
 FirstRx = {0, 1, 2, 3}
 Lags = {0, 1, 2, 3}
 Toggles = TRUE
 Rejects = TRUE
 Depth = 60
INVARIANTS Told TxExactlyOnce TxNothingLost RxExactlyOnce RxNothingLost Window Capacity StartUp
CHECK_DEADLOCK FALSE
