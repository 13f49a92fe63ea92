SPECIFICATION Spec
INVARIANTS Right Kept
CHECK_DEADLOCK FALSE
CONSTANTS MaxObjects = 4  MaxSteps = 6  Deep = FALSE  GenCalls = {1}  GenObjects = {1}
