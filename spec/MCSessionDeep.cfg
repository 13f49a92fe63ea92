CONSTANTS Gens = {1, 2}  Ks = {0, 1}  Kinds = {1, 2}  MaxSteps = 7  MaxInst = 2  Copies = TRUE  Shared = {2}
SPECIFICATION Spec
INVARIANTS HistoryFree CacheClean NotShared
CHECK_DEADLOCK FALSE
