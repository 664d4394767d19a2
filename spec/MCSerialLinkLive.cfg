SPECIFICATION FairSpec
CONSTANTS
 Cap = 2
 WriteSizes = {1, 3}
 MaxBytes = 3
 SegSizes = {2}
 MaxSegs = 2
 ReadSizes = {3}
 FirstAck = {3}
 FirstRx = {3}
 Lags = {0, 1, 2, 3}
 Toggles = FALSE
 Rejects = FALSE
PROPERTIES TxProgress RxProgress StartsUp
CHECK_DEADLOCK FALSE
