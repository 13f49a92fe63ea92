SPECIFICATION Spec
INVARIANTS Measures Bounded Nested
CHECK_DEADLOCK FALSE
CONSTANTS Timers = {1, 2}  Works = {1, 3}  MaxSteps = 6  Depth = 2
