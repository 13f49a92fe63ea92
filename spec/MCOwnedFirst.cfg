SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS Buffers = {1, 2}  Contents = {1, 2}  MaxSteps = 6  Way = "first"  GenFunctions = {1, 2, 3}
