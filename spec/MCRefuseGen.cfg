SPECIFICATION GenSpec
INVARIANTS NothingChanged Done
CHECK_DEADLOCK FALSE
CONSTANTS Objects = {1, 2, 3}  Args = 3  MaxRequests = 0  ChecksFirst = TRUE  Valids = {1, 2, 3, 4, 5, 6, 7}  Invalids = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}  MaxSteps = 24
