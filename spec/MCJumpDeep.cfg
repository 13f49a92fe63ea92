SPECIFICATION Spec
INVARIANTS SweepEquation ResidualIdentity FixedPoint MatrixForm Order StiffNothingLeft
CHECK_DEADLOCK FALSE
CONSTANTS NodeSets = {2, 3, 4, 5, 6}  Names = {"DIV1", "DIV2", "DIV3", "DIV4", "DIV5", "PIC", "SOE"}  Zs = {5}  MaxSweeps = 4  MaxSteps = 1
 GenNodes = {1}  GenNames = {"BE"}  GenSweeps = 0
