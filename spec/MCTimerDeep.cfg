SPECIFICATION Spec
INVARIANTS Measures Bounded Nested
CHECK_DEADLOCK FALSE
CONSTANTS Timers = {1, 2, 3}  Works = {1, 3}  MaxSteps = 7  Depth = 2
