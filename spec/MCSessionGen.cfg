CONSTANTS Gens = {1, 2, 3}  Ks = {0, 1, 2, 3, 4}  Kinds = {1, 2, 3, 4, 5, 6, 7}  MaxSteps = 18  MaxInst = 4  Copies = TRUE  Shared = {2}
SPECIFICATION GenSpec
INVARIANTS HistoryFree CacheClean NotShared Done
CHECK_DEADLOCK FALSE
