CONSTANTS Pool = {"NewA", "NewB", "BE"}  Kinds = {"Q", "RK", "QD"}  MaxSteps = 2  MaxAliases = 1  Small = TRUE
SPECIFICATION Spec
INVARIANTS AllOrNothing BuiltinKept RKinQ Fold
CHECK_DEADLOCK FALSE
