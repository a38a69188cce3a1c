SPECIFICATION Spec
CONSTANT N = 7
INVARIANTS Closed Open1
CHECK_DEADLOCK FALSE
