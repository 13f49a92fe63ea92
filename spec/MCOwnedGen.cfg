SPECIFICATION GenSpec
INVARIANTS Done
CHECK_DEADLOCK FALSE
CONSTANTS Buffers = {1, 2}  Contents = {1, 2, 3}  MaxSteps = 20  Way = "direct"  GenFunctions = {1, 2, 3}
