CONSTANTS Pool = {"NewA", "NewB", "NewC", "NewD", "NewE", "NewF", "NewG"}  Kinds = {"Q", "RK", "QD"}  MaxSteps = 9  MaxAliases = 2  Small = FALSE
SPECIFICATION GenSpec
INVARIANTS AllOrNothing BuiltinKept RKinQ Fold Write
CHECK_DEADLOCK FALSE
