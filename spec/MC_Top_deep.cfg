SPECIFICATION Spec
CONSTANT Longest = 10
INVARIANT Exact
PROPERTY Final
CHECK_DEADLOCK FALSE
