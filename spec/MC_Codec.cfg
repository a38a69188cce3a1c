SPECIFICATION Spec
INVARIANT Inverse
CONSTANTS Grain = 37
 MaxLen = 2
CHECK_DEADLOCK FALSE
