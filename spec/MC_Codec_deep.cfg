SPECIFICATION Spec
INVARIANT Inverse
CONSTANTS Grain = 5
 MaxLen = 3
CHECK_DEADLOCK FALSE
