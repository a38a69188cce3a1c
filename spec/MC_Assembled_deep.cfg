SPECIFICATION Spec
INVARIANT Whole
CONSTANTS MaxTables = 2
 MaxOccs = 1
CHECK_DEADLOCK FALSE
