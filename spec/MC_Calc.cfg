SPECIFICATION Spec
CONSTANTS Depth = 2 Numbers = {2}
INVARIANTS Few Full More
CHECK_DEADLOCK FALSE
