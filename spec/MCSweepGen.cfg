SPECIFICATION GenSpec
INVARIANTS Done
CHECK_DEADLOCK FALSE
CONSTANTS NodeSets = {1}  Names = {"BE"}  Zs = {1}  MaxSweeps = 0  MaxSteps = 0
 GenNodes = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
 GenNames = {"BE", "FE", "TRAP", "SOE", "Exact", "TRAPAR", "BEPAR", "PIC", "QPar", "GS", "MIN-SR-NS", "MIN-SR-FLEX", "JUMPER", "LU", "LU2", "MIN-SR-S", "DNODES-2"}
 GenSweeps = 5
