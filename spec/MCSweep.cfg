SPECIFICATION Spec
INVARIANTS SweepEquation ResidualIdentity FixedPoint ExactSweep MatrixForm Order
CHECK_DEADLOCK FALSE
CONSTANTS NodeSets = {2, 3}  Names = {"BE", "TRAP", "SOE", "Exact"}  Zs = {2}  MaxSweeps = 2  MaxSteps = 2
 GenNodes = {1}  GenNames = {"BE"}  GenSweeps = 0
