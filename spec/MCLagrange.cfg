SPECIFICATION Spec
INVARIANTS Points Interpolation Integration Differentiation Weights Stencil
CHECK_DEADLOCK FALSE
CONSTANTS Grid = {0, 1, 3, 5}  MaxPts = 4  MaxObjs = 1  MaxSteps = 0
