SPECIFICATION Spec
INVARIANTS NothingChanged Outcome
CHECK_DEADLOCK FALSE
CONSTANTS Objects = {1, 2}  Args = 3  MaxRequests = 5  ChecksFirst = TRUE  Valids = {1}  Invalids = {1}  MaxSteps = 0
