SPECIFICATION Spec
INVARIANTS Right CacheRight

CHECK_DEADLOCK FALSE
CONSTANTS Threads = {1, 2, 3}  Ks = {1, 2}  MaxRequests = 2  Dependent = TRUE  Scratch = FALSE
 GenThreads = {1}  GenObjects = {1}  GenCalls = {1}  GenSlices = 0  Lines = {1}
