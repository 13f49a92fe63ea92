SPECIFICATION Spec
INVARIANTS Right CacheRight
PROPERTIES Answered
CHECK_DEADLOCK FALSE
CONSTANTS Threads = {1, 2}  Ks = {1, 2}  MaxRequests = 2  Dependent = TRUE  Scratch = FALSE
 GenThreads = {1}  GenObjects = {1}  GenCalls = {1}  GenSlices = 0  Lines = {1}
