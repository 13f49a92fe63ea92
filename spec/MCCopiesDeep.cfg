SPECIFICATION Spec
INVARIANTS Right Kept
CHECK_DEADLOCK FALSE
CONSTANTS MaxObjects = 5  MaxSteps = 8  Deep = TRUE  GenCalls = {1}  GenObjects = {1}
