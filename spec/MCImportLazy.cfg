SPECIFICATION Spec
INVARIANTS Works Complete
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Layout = "lazy"  MaxSteps = 4  GenModules = {1}  GenWays = {1}  GenSettings = {1}
