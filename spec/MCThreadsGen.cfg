SPECIFICATION GenSpec
INVARIANTS Done
CHECK_DEADLOCK FALSE
CONSTANTS Threads = {1, 2}  Ks = {1, 2}  MaxRequests = 0  Dependent = TRUE  Scratch = FALSE
 GenThreads = {1, 2, 3}  GenObjects = {1, 2}  GenCalls = {1, 2, 3, 4, 5, 6, 7}  GenSlices = 30  Lines = {1, 2, 3, 4, 6, 9, 15, 30}
