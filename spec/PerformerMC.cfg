SPECIFICATION Spec
CONSTANTS NProd = 2 PerProd = 2 MayClose = TRUE
INVARIANTS NoDeviation Complete
CHECK_DEADLOCK TRUE
