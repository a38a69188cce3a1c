SPECIFICATION Spec
CONSTANTS N = 11
          Depth = 3
INVARIANT Shallow
CHECK_DEADLOCK FALSE
