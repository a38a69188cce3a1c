SPECIFICATION Spec
CONSTANTS MaxRecords = 3 Numbers = {1}
INVARIANTS Ok LastWritten SameRecord
PROPERTY StepsOk
VIEW View
CHECK_DEADLOCK FALSE
