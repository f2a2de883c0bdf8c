SPECIFICATION Spec
CONSTANTS
  MaxArrivals = 2
  MaxOrders = 2
  TopLimits = 1
  Layouts <- L1
INVARIANTS OnlyWhole AtMostOnce InOrder NothingAheadInSeq NoneHeld AckTruth CsnTruth CompleteOnce CompleteMeansAll DeliveredAll CompletesWhenAll NoDeviation BufferAccounting BufferSorted NetNothingWaits
CHECK_DEADLOCK FALSE
