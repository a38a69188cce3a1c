SPECIFICATION Spec
CONSTANT Longest = 8
INVARIANT Exact
PROPERTY Final
CHECK_DEADLOCK FALSE
