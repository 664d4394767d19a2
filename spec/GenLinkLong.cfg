SPECIFICATION GSpec
CONSTANTS
 Cap = 14
 WriteSizes = {1, 13, 14, 15, 29}
 MaxBytes = 1000
 SegSizes = {1, 14}
 MaxSegs = 100
 ReadSizes = {5, 14}
 FirstAck = {0, 1, 2, 3}
 FirstRx = {0, 1, 2, 3}
 Lags = {0, 1, 2, 3}
 Toggles = FALSE
 Rejects = FALSE
 Depth = 150
INVARIANTS Told TxExactlyOnce TxNothingLost RxExactlyOnce RxNothingLost Window Capacity StartUp
CHECK_DEADLOCK FALSE
