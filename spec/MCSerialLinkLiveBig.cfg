SPECIFICATION FairSpec
CONSTANTS
 Cap = 2
 WriteSizes = {1, 3}
 MaxBytes = 4
 SegSizes = {1, 2}
 MaxSegs = 3
 ReadSizes = {1, 3}
 FirstAck = {0}
 FirstRx = {2}
 Lags = {0, 1, 2, 3}
 Toggles = FALSE
 Rejects = FALSE
PROPERTIES TxProgress RxProgress StartsUp
CHECK_DEADLOCK FALSE
