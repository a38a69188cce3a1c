SPECIFICATION Spec
CONSTANTS N = 11
          Depth = 2
INVARIANT Shallow
CHECK_DEADLOCK FALSE
