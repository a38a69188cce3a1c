SPECIFICATION Spec
CONSTANTS Depth = 2 Numbers = {1, 6}
INVARIANTS Few Full More
CHECK_DEADLOCK FALSE
