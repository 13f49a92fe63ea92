SPECIFICATION Spec
INVARIANTS SweepEquation ResidualIdentity FixedPoint ExactSweep MatrixForm Order
CHECK_DEADLOCK FALSE
CONSTANTS NodeSets = {1, 2, 3, 4, 5, 6}  Names = {"BE", "FE", "TRAP", "SOE", "Exact", "TRAPAR", "BEPAR", "PIC", "QPar", "GS", "MIN-SR-NS"}
 Zs = {1, 2, 3, 4, 5}  MaxSweeps = 3  MaxSteps = 1
 GenNodes = {1}  GenNames = {"BE"}  GenSweeps = 0
