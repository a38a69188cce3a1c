SPECIFICATION Spec
INVARIANT Nested
CHECK_DEADLOCK FALSE
