SPECIFICATION TraceSpec
CONSTANT Scenarios <- Recorded
CHECK_DEADLOCK FALSE
INVARIANTS TypeOk StoreConsistent
PROPERTIES FramesBelowKept FreshCallee DataGrows FindKeepsData OutcomeFinal CleanStart
