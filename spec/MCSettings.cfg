SPECIFICATION Spec
INVARIANTS Kept
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Comps = {1, 2}  Values = {1, 2}  MaxDepth = 3  MaxSteps = 6  Way = "always"  Kinds = {1}  Numbers = {1}
