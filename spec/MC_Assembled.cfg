SPECIFICATION Spec
INVARIANT Whole
CONSTANTS MaxTables = 1
 MaxOccs = 1
CHECK_DEADLOCK FALSE
